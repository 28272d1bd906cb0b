// Generator of randomly configured algorithms, with what their documentation promises about them.
#ifndef ALGLIB_HH
#define ALGLIB_HH

#include "hnco/algorithms/algorithm.hh"
#include "hnco/algorithms/complete-search.hh"
#include "hnco/algorithms/decorators/all.hh"
#include "hnco/algorithms/evolutionary-algorithms/all.hh"
#include "hnco/algorithms/local-search/all.hh"
#include "hnco/algorithms/mimic.hh"
#include "hnco/algorithms/probability-vector/all.hh"
#include "hnco/algorithms/random-search.hh"
#include "hnco/algorithms/walsh-moment/all.hh"
#ifdef ALG_ALL
#include "hnco/algorithms/fast-efficient-p3/all.hh"
#include "hnco/algorithms/gomea/all.hh"
#endif
#include "hnco/neighborhoods/neighborhood.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"
#include "hnco/exception.hh"
#include "fnlib.hh"

namespace al {
using namespace hnco; using namespace hnco::algorithm; using namespace hnco::neighborhood;
using mon::fmt; using fl::BV;

enum Kind { A_RS, A_CS, A_RLS, A_RW, A_SA, A_FA, A_SAHC, A_EA11, A_SAEA, A_TWORATE, A_MUPLUS, A_MUCOMMA, A_GA, A_LLGA, A_ITEA, A_CGA, A_MMAS, A_PBIL, A_NPS, A_UMDA, A_RAM, A_RAM2, A_MIMIC, A_HEAF, A_HEAT, A_BMF, A_BMT,
#ifdef ALG_ALL
  A_P3, A_LTGA, A_HBOA, A_GOMEA,
#endif
  A_NUM };
inline const char *kname(int k) { static const char *n[] = {"RandomSearch", "CompleteSearch", "RandomLocalSearch", "RandomWalk", "SimulatedAnnealing", "FirstAscent", "SteepestAscent", "OnePlusOneEa", "SelfAdjusting", "TwoRate", "MuPlusLambda", "MuCommaLambda", "GeneticAlgorithm", "LambdaLambdaGa", "ItEa", "CompactGa", "Mmas", "Pbil", "NpsPbil", "Umda", "RamUmda", "RamUmda2", "Mimic", "HeaFull", "HeaTriangular", "BmPbilFull", "BmPbilTriangular", "P3", "Ltga", "Hboa", "Gomea"}; return n[k]; }

struct Alg {
  int kind; std::string name; int n = 0, iters = 0, pop = 0, mu = 0, lambda = 0;
  std::shared_ptr<Algorithm> a;
  std::shared_ptr<Neighborhood> nb; std::shared_ptr<NeighborhoodIterator> it;
  long ev_init = 0, ev_iter = 0;  // evaluations of init and of one iteration
  bool ev_exact = true;           // number of evaluations is exactly ev_init + ev_iter * iters
  bool reports_best = true;       // the solution is the best evaluated
  bool stops = true;              // ends by itself
  bool parallel = false;          // evaluates its population in parallel given several functions
  int sel = 0, radius = 1, nbkind = 0, patience = 0, ntrials = 0, mode = 0, tsize = 0; double rate = 0, lr = 0, cx = 0; bool strict = false, no_mut = false, inc = false, rinit = true; BV start;
};

inline std::shared_ptr<Neighborhood> mknb(mon::Rng& r, int n, Alg& A, std::string& d) {
  A.nbkind = r.below(4); A.radius = 1;
  switch (A.nbkind) {
  case 0: d += " flip"; return std::make_shared<SingleBitFlip>(n);
  case 1: { auto m = std::make_shared<StandardBitMutation>(n); if (r.bit()) { A.rate = r.pick(std::vector<double>{.5 / n, 1. / n, 2. / (n + 1), .3, .5, .9}); m->set_mutation_rate(A.rate); } A.no_mut = r.chance(.3); m->set_allow_no_mutation(A.no_mut); d += fmt(" sbm(%g,%d)", A.rate, A.no_mut); A.radius = n; return m; }
  case 2: A.radius = r.range(1, n); d += fmt(" ball(%d)", A.radius); return std::make_shared<HammingBall>(n, A.radius);
  default: A.radius = r.range(1, n); d += fmt(" sphere(%d)", A.radius); return std::make_shared<HammingSphere>(n, A.radius); }
}
template<class T> void ls_start(mon::Rng& r, T& a, Alg& A, std::string& d) { if (r.chance(.35)) { A.rinit = false; A.start = fl::rbv(r, A.n); a->set_random_initialization(false); a->set_starting_point(A.start); d += " start"; } }

inline int min_n(int k) { switch (k) { case A_TWORATE: return 8; case A_LLGA: return 3; case A_MIMIC: case A_HEAF: case A_HEAT: case A_PBIL: case A_NPS: case A_UMDA: case A_CGA: case A_MMAS: case A_RAM: case A_RAM2: return 3; case A_ITEA: return 2;
#ifdef ALG_ALL
  case A_P3: case A_LTGA: case A_HBOA: case A_GOMEA: return 4;
#endif
  default: return 1; } }

// limit: rough number of evaluations of one run
inline Alg make(mon::Rng& r, int kind, int n, long limit = 400) {
  Alg A; A.kind = kind; A.n = n; std::string d; A.iters = r.range(1, 40); A.pop = r.upto(2, 24, 90); auto its = [&](auto& a) { a->set_num_iterations(A.iters); A.a = a; };
  auto rate = [&](double dflt) { if (r.chance(.4)) return dflt; A.rate = r.pick(std::vector<double>{.5 / n, 1. / n, std::min(1., 2. / n), .25, .5}); return A.rate; };
  auto lr = [&]() { A.lr = r.pick(std::vector<double>{1e-3, .05, .2, .5, 1.}); d += fmt(" lr=%g", A.lr); return A.lr; };
  switch (kind) {
  case A_RS: { auto a = std::make_shared<RandomSearch>(n); A.iters = r.range(1, int(limit)); its(a); A.ev_init = 1; A.ev_iter = 1; break; }
  case A_CS: { auto a = std::make_shared<CompleteSearch>(n); A.a = a; A.iters = 1; A.ev_init = 0; A.ev_iter = n < 24 ? 1L << n : 0; A.ev_exact = n < 24; break; }
  case A_RLS: { A.nb = mknb(r, n, A, d); auto a = std::make_shared<RandomLocalSearch>(n, A.nb.get()); A.iters = r.range(1, int(limit)); its(a); A.ev_init = A.ev_iter = 1; A.strict = r.chance(.4); if (A.strict) a->set_compare(std::greater<double>()); A.patience = r.chance(.4) ? r.range(1, 30) : r.range(-1, 0); a->set_patience(A.patience); A.ev_exact = A.patience <= 0; A.inc = r.chance(.4); a->set_incremental_evaluation(A.inc); ls_start(r, a, A, d); d += fmt(" strict=%d patience=%d inc=%d", A.strict, A.patience, A.inc); break; }
  case A_RW: { A.nb = mknb(r, n, A, d); auto a = std::make_shared<RandomWalk>(n, A.nb.get()); A.iters = r.range(1, int(limit)); its(a); A.ev_init = A.ev_iter = 1; A.inc = r.chance(.4); a->set_incremental_evaluation(A.inc); ls_start(r, a, A, d); d += fmt(" inc=%d", A.inc); break; }
  case A_SA: { A.nb = mknb(r, n, A, d); auto a = std::make_shared<SimulatedAnnealing>(n, A.nb.get()); A.iters = r.range(1, int(limit)); its(a); A.ntrials = r.range(1, 40); a->set_num_trials(A.ntrials); a->set_num_transitions(r.range(1, 20)); a->set_initial_acceptance_probability(r.real(.05, .95)); a->set_beta_ratio(r.real(1.01, 2)); A.ev_init = 1 + 2 * A.ntrials; A.ev_iter = 1; ls_start(r, a, A, d); d += fmt(" trials=%d", A.ntrials); break; }
  case A_FA: case A_SAHC: { A.radius = 1; if (r.bit()) A.it = std::make_shared<SingleBitFlipIterator>(n); else { A.radius = r.range(1, std::min(n, 3)); A.it = std::make_shared<HammingSphereIterator>(n, A.radius); } A.ev_exact = false; A.iters = r.chance(.6) ? 0 : r.range(1, 5); d += fmt(" radius=%d", A.radius);
    if (kind == A_FA) { auto a = std::make_shared<FirstAscentHillClimbing>(n, A.it.get()); its(a); ls_start(r, a, A, d); } else { auto a = std::make_shared<SteepestAscentHillClimbing>(n, A.it.get()); its(a); ls_start(r, a, A, d); } A.ev_init = 1; break; }
  case A_EA11: { auto a = std::make_shared<OnePlusOneEa>(n); A.iters = r.range(1, int(limit)); its(a); a->set_mutation_rate(rate(1. / n)); A.no_mut = r.chance(.3); a->set_allow_no_mutation(A.no_mut); A.inc = r.chance(.4); a->set_incremental_evaluation(A.inc); A.ev_init = A.ev_iter = 1; d += fmt(" rate=%g nomut=%d inc=%d", A.rate, A.no_mut, A.inc); break; }
  case A_SAEA: { auto a = std::make_shared<SelfAdjustingOnePlusOneEa>(n); A.iters = r.range(1, int(limit)); its(a); if (r.bit()) { a->set_mutation_rate_init(std::min(.5, 1. / n)); a->set_mutation_rate_min(r.pick(std::vector<double>{.2 / n, .5 / n})); a->set_mutation_rate_max(r.real(.5, .9)); } if (r.bit()) { a->set_update_strength(r.real(1.01, 1.5)); a->set_success_ratio(r.real(1, 5)); } A.no_mut = r.chance(.3); a->set_allow_no_mutation(A.no_mut); A.inc = r.chance(.4); a->set_incremental_evaluation(A.inc); A.ev_init = A.ev_iter = 1; d += fmt(" nomut=%d inc=%d", A.no_mut, A.inc); break; }
  case A_TWORATE: { A.lambda = r.upto(2, 20, 70); auto a = std::make_shared<TwoRateOnePlusLambdaEa>(n, A.lambda); its(a); if (r.bit()) a->set_mutation_rate_init(r.pick(std::vector<double>{2. / n, .25})); A.no_mut = r.chance(.3); a->set_allow_no_mutation(A.no_mut); A.ev_init = 1; A.ev_iter = A.lambda; A.parallel = true; d += fmt(" lambda=%d", A.lambda); break; }
  case A_MUPLUS: { A.mu = r.upto(1, 12, 60); A.lambda = r.upto(1, 12, 80); auto a = std::make_shared<MuPlusLambdaEa>(n, A.mu, A.lambda); its(a); a->set_mutation_rate(rate(1. / n)); A.no_mut = r.chance(.3); a->set_allow_no_mutation(A.no_mut); A.ev_init = A.mu; A.ev_iter = A.lambda; A.parallel = true; d += fmt(" mu=%d lambda=%d", A.mu, A.lambda); break; }
  case A_MUCOMMA: { A.mu = r.upto(1, 12, 60); A.lambda = A.mu + r.range(0, 8); auto a = std::make_shared<MuCommaLambdaEa>(n, A.mu, A.lambda); its(a); a->set_mutation_rate(rate(1. / n)); A.no_mut = r.chance(.3); a->set_allow_no_mutation(A.no_mut); A.ev_init = 1; A.ev_iter = A.lambda; A.parallel = true; d += fmt(" mu=%d lambda=%d", A.mu, A.lambda); break; }
  case A_GA: { A.mu = r.upto(3, 20, 90); auto a = std::make_shared<GeneticAlgorithm>(n, A.mu); its(a); a->set_mutation_rate(rate(1. / n)); A.no_mut = r.chance(.3); a->set_allow_no_mutation(A.no_mut); A.tsize = r.range(2, A.mu - 1); a->set_tournament_size(A.tsize); A.cx = r.pick(std::vector<double>{0, .5, .9, 1}); a->set_crossover_probability(A.cx); A.ev_init = A.mu; A.ev_iter = A.mu; A.parallel = true; d += fmt(" mu=%d t=%d cx=%g", A.mu, A.tsize, A.cx); break; }
  case A_LLGA: { A.lambda = r.range(2, std::min(n, 10)); auto a = std::make_shared<OnePlusLambdaCommaLambdaGa>(n, A.lambda); its(a); if (r.bit()) a->set_mutation_rate(r.real(0.05, .9)); if (r.bit()) a->set_crossover_bias(r.real(.05, .95)); A.ev_init = 1; A.ev_iter = 2 * A.lambda; A.reports_best = false; d += fmt(" lambda=%d", A.lambda); break; }
  case A_ITEA: { A.pop = r.upto(2, 16, 90); auto a = std::make_shared<InformationTheoreticEa>(n, A.pop); its(a); A.sel = r.range(1, A.pop - 1); a->set_selection_size(A.sel); A.mode = r.below(5); a->set_replacement(A.mode); a->set_learning_rate(lr()); if (r.bit()) { a->set_mutation_rate_min(.5 / n); a->set_mutation_rate_init(std::min(.5, 2. / n)); } if (r.bit()) a->set_mutation_rate_max(r.real(.5, .9)); a->set_initial_hamming_weight(r.range(0, n)); A.no_mut = r.chance(.3); a->set_allow_no_mutation(A.no_mut); A.ev_init = 1; A.ev_iter = A.pop + (A.mode == 2); A.ev_exact = A.mode != 3; A.parallel = true; d += fmt(" pop=%d sel=%d mode=%d", A.pop, A.sel, A.mode); break; }
  case A_CGA: { auto a = std::make_shared<CompactGa>(n); A.iters = r.range(1, int(limit / 2)); its(a); a->set_learning_rate(lr()); A.ev_init = 1; A.ev_iter = 2; break; }
  case A_MMAS: { auto a = std::make_shared<Mmas>(n); A.iters = r.range(1, int(limit)); its(a); a->set_learning_rate(lr()); A.strict = r.bit(); if (A.strict) a->set_compare(std::greater<double>()); A.ev_init = A.ev_iter = 1; break; }
  case A_PBIL: { auto a = std::make_shared<Pbil>(n, A.pop); its(a); A.sel = r.range(1, A.pop); a->set_selection_size(A.sel); a->set_learning_rate(lr()); A.ev_init = 1; A.ev_iter = A.pop; A.parallel = true; break; }
  case A_NPS: { auto a = std::make_shared<NpsPbil>(n, A.pop); its(a); A.sel = r.range(1, A.pop); a->set_selection_size(A.sel); a->set_learning_rate(lr()); A.ev_init = 1; A.ev_iter = A.pop; A.parallel = true; break; }
  case A_UMDA: { auto a = std::make_shared<Umda>(n, A.pop); its(a); A.sel = r.range(1, A.pop); a->set_selection_size(A.sel); A.ev_init = 1; A.ev_iter = A.pop; A.parallel = true; break; }
  case A_RAM: case A_RAM2: { auto cfg = [&](auto a) { its(a); A.sel = r.range(1, A.pop); a->set_selection_size(A.sel); A.mode = r.below(6); a->set_ts_length_mode(A.mode); int lo = r.range(0, 5), hi = lo + r.range(0, 10); a->set_ts_length(r.range(lo, hi)); a->set_ts_length_lower_bound(lo); a->set_ts_length_upper_bound(hi); a->set_ts_length_increment_period(r.range(1, 5)); a->set_ts_length_distribution_parameter(r.real(.05, .95)); };
    if (kind == A_RAM) cfg(std::make_shared<RamUmda>(n, A.pop)); else { auto a = std::make_shared<RamUmda2>(n, A.pop); cfg(a); a->set_crossover_probability(r.real()); a->set_latent_space_probability(r.real()); } A.ev_init = 1; A.ev_iter = A.pop; A.parallel = true; d += fmt(" mode=%d", A.mode); break; }
  case A_MIMIC: { auto a = std::make_shared<Mimic>(n, A.pop); its(a); A.sel = r.range(1, A.pop - 1); a->set_selection_size(A.sel); A.ev_init = 1; A.ev_iter = A.pop; A.parallel = true; break; }
  case A_HEAF: case A_HEAT: { auto cfg = [&](auto a) { its(a); A.sel = r.range(1, A.pop); a->set_selection_size(A.sel); a->set_learning_rate(lr()); a->set_reset_period(r.range(0, 4)); a->set_bound_moment(r.chance(.7)); a->set_randomize_bit_order(r.bit()); if (r.chance(.3)) a->set_margin(r.real(0.01, .4)); };
    if (kind == A_HEAF) cfg(std::make_shared<walsh_moment::Hea<walsh_moment::FullMomentHerding>>(n, A.pop)); else cfg(std::make_shared<walsh_moment::Hea<walsh_moment::TriangularMomentHerding>>(n, A.pop)); A.ev_init = 1; A.ev_iter = A.pop; A.parallel = true; break; }
  case A_BMF: case A_BMT: { auto cfg = [&](auto a) { its(a); A.sel = r.range(1, A.pop); a->set_selection_size(A.sel); a->set_learning_rate(lr()); a->set_num_gs_steps(r.range(1, 60)); a->set_num_gs_cycles(r.range(1, 3)); a->set_negative_positive_selection(r.bit()); A.mode = r.below(3); a->set_sampling_mode(A.mode); a->set_reset_mode(r.below(3)); };
    if (kind == A_BMF) cfg(std::make_shared<walsh_moment::BmPbil<walsh_moment::FullMomentGibbsSampler>>(n, A.pop)); else cfg(std::make_shared<walsh_moment::BmPbil<walsh_moment::TriangularMomentGibbsSampler>>(n, A.pop)); A.ev_init = 1; A.ev_iter = A.pop; A.parallel = true; break; }
#ifdef ALG_ALL
  case A_P3: A.a = std::make_shared<fast_efficient_p3::ParameterLessPopulationPyramid>(n); A.stops = A.ev_exact = false; break;
  case A_LTGA: { auto a = std::make_shared<fast_efficient_p3::Ltga>(n); A.pop = r.upto(2, 20, 90); a->set_population_size(A.pop); A.a = a; A.ev_exact = false; A.stops = false; break; }
  case A_HBOA: { auto a = std::make_shared<fast_efficient_p3::Hboa>(n); A.pop = r.upto(4, 20, 90); a->set_population_size(A.pop); A.a = a; A.ev_exact = false; A.stops = false; break; }
  case A_GOMEA: A.a = std::make_shared<hnco::algorithm::gomea::Gomea>(n); A.ev_exact = false; A.stops = false; break;
#endif
  }
  if (A.sel) d += fmt(" pop=%d sel=%d", A.pop, A.sel);
  A.name = fmt("%s(n=%d it=%d%s)", kname(kind), n, A.iters, d.c_str());
  return A;
}

// A deterministic objective: a table-like function with controlled ties, negative and extreme values.
struct Objective : function::Function {
  int n, kind; uint64_t salt; long evals = 0; bool provides = false; double scale = 1;
  std::vector<std::pair<BV, double>> log; bool logging = true;
  Objective(int n, int kind, uint64_t salt) : n(n), kind(kind), salt(salt) {}
  int get_bv_size() const override { return n; }
  double value(const BV& x) const {
    switch (kind) {
    case 0: { uint64_t h = salt; for (size_t i = 0; i < x.size(); i++) h = mon::mix(h ^ (x[i] ? 0x9111 + i : 0x77)); return double(h >> 12) / 4503599627370496.0 * scale - .5 * scale; }      // rugged, distinct values, both signs
    case 1: { double s = 0; for (size_t i = 0; i < x.size(); i++) if (x[i]) s += 1 + double(mon::mix(salt + i) % 1000003) / 1e3; return s; }                       // linear, distinct
    case 2: { int w = fl::wt(x); return double((w * 7 + salt) % 5) - 2; }                                                                                     // few levels: ties
    case 3: return -1e6 - double(mon::mix(salt + fl::wt(x)) % 50);                                                                                            // all negative
    case 4: return 5;                                                                                                                                          // constant
    default: { double s = 0; for (size_t i = 0; i < x.size(); i++) { bool t = mon::mix(salt + i) & 1; s += (bool(x[i]) == t); } return s * scale; } }                  // shifted OneMax
  }
  double evaluate(const BV& x) override { evals++; double v = value(x); if (logging) log.push_back({x, v}); return v; }
  double evaluate_safely(const BV& x) override { return value(x); }
  void update(const BV& x, double v) override { evals++; if (logging) log.push_back({x, v}); }
  double evaluate_incrementally(const BV& x, double, const sparse_bit_vector_t& s) override { BV y = x; for (auto i : s) y[i] ^= 1; return evaluate(y); }
  bool provides_incremental_evaluation() const override { return provides; }
};
inline Objective mkobj(mon::Rng& r, int n) { Objective o(n, r.below(6), r.next()); o.provides = r.bit(); o.scale = r.pick(std::vector<double>{1, 1e-3, 1e5}); return o; }
inline int dist(const BV& a, const BV& b) { int d = 0; for (size_t i = 0; i < a.size(); i++) d += bool(a[i]) != bool(b[i]); return d; }
} // namespace al
#endif
