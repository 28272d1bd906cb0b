// C21, first part: the options given to the program build the documented function, modifiers, controllers
// and algorithm. What the factories build is compared, run against run, with the same thing built directly.
#ifndef ALG_ALL
#define ALG_ALL
#endif
#include <getopt.h>
#include "alglib.hh"
#include "hnco/app/algorithm-factory.hh"
#include "hnco/app/function-factory.hh"
#include "hnco/app/decorated-function-factory.hh"
#include "hnco/app/hnco-options.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/functions/modifiers/all.hh"
#include "hnco/functions/modifiers/parsed-modifier.hh"
#include "hnco/logging/log-context.hh"
#include "hnco/maps/map.hh"
#include "hnco/multiobjective/app/hnco-mo-options.hh"
#include "hnco/multiobjective/app/algorithm-factory.hh"
#include "hnco/multiobjective/algorithms/nsga2.hh"
using namespace al; using namespace hnco::function; using namespace hnco::function::controller; using namespace hnco::app; using hnco::random::Generator; using hnco::function::modifier::OppositeFunction;
namespace md = hnco::function::modifier;

struct Args { mon::Rng& r; std::vector<std::string> v; Args(mon::Rng& r) : r(r) {}
  void put(const std::string& name, const std::string& x, const char *sh = nullptr) { if (sh && r.bit()) { v.push_back(sh); v.push_back(x); } else if (r.bit()) v.push_back("--" + name + "=" + x); else { v.push_back("--" + name); v.push_back(x); } }
  int I(const char *name, int def, int x, const char *sh = nullptr) { if (r.chance(.25)) return def; put(name, std::to_string(x), sh); return x; }
  int must(const char *name, int x, const char *sh = nullptr) { put(name, std::to_string(x), sh); return x; }
  double D(const char *name, double def, double x) { if (r.chance(.25)) return def; std::string s = fmt("%.17g", x); put(name, s); return atof(s.c_str()); }
  bool B(const char *name, double p = .4) { if (!r.chance(p)) return false; v.push_back(std::string("--") + name); return true; }
  void shuffle() { std::vector<std::vector<std::string>> g; for (size_t i = 0; i < v.size();) { std::vector<std::string> q{v[i++]}; if (q[0].find('=') == std::string::npos && i < v.size() && (v[i][0] != '-' || isdigit(v[i][1]) || v[i][1] == '.')) q.push_back(v[i++]); g.push_back(q); } r.shuffle(g); v.clear(); for (auto& q : g) for (auto& s : q) v.push_back(s); }
  std::string str() const { std::string s; for (auto& x : v) s += " " + x; return s; }
  HncoOptions parse() { std::vector<char *> a; static std::string me = "hnco"; a.push_back(&me[0]); for (auto& x : v) a.push_back(&x[0]); a.push_back(nullptr); optind = 0; return HncoOptions(int(a.size()) - 1, a.data()); } };

typedef std::vector<std::pair<BV, double>> Log;
static void compare(mon::Ctx& c, const Log& a, const Log& b, const std::string& k) { for (size_t i = 0; i < a.size() && i < b.size(); i++) MON_CHECK(c, a[i].first == b[i].first && mon::same_double(a[i].second, b[i].second), "factory:" + k, "evaluation %zu of the algorithm made from options is %s, configured directly %s", i, mon::showbv(a[i].first).c_str(), mon::showbv(b[i].first).c_str()); MON_CHECK(c, a.size() == b.size(), "factory-count:" + k, "the algorithm made from options made %zu evaluations, configured directly %zu", a.size(), b.size()); }

CASES(algorithms, 3000, 60000) {
  static const std::vector<int> ids{0, 10, 20, 100, 150, 160, 200, 300, 301, 310, 320, 330, 340, 400, 450, 500, 501, 600, 610, 612, 700, 800, 900, 901, 1000, 1001, 1100, 1110, 1200, 1250, 1300};
  int id = ids[c.idx % ids.size()]; mon::Rng& r = c.rng; int n = id == 0 ? r.range(2, 7) : (id >= 900 && id < 1200) || id == 150 || id == 160 ? r.range(8, 14) : r.range(8, 40); Args a(r); a.must("algorithm", id, "-A"); bool idless = id == 0 || id >= 1110; int it = 0; if (!idless) it = a.I("num-iterations", 0, r.range(1, 30), "-i"); std::shared_ptr<Algorithm> d; std::shared_ptr<Neighborhood> nb; std::shared_ptr<NeighborhoodIterator> ni;
  auto its = [&](auto x) { x->set_num_iterations(it); d = x; return x; };
  auto hood = [&]() { int k = a.I("neighborhood", 0, r.below(4), "-N"), R = a.I("radius", 2, r.range(1, n)); bool no = a.B("ea-allow-no-mutation"); bool hm = r.bit(); double m = hm ? r.pick(std::vector<double>{.5, 1. / n, .2}) : 0; if (hm) a.put("ea-mutation-rate", fmt("%.17g", m), "-m"); if (k == 0) nb = std::make_shared<SingleBitFlip>(n); else if (k == 1) { auto s = std::make_shared<StandardBitMutation>(n); s->set_allow_no_mutation(no); if (hm) s->set_mutation_rate(m); nb = s; } else if (k == 2) nb = std::make_shared<HammingBall>(n, R); else nb = std::make_shared<HammingSphere>(n, R); };
  auto hoodit = [&]() { int k = a.I("neighborhood-iterator", 0, r.below(2)), R = a.I("radius", 2, r.range(1, 3)); if (k == 0) ni = std::make_shared<SingleBitFlipIterator>(n); else ni = std::make_shared<HammingSphereIterator>(n, R); };
  bool hm = false; double m = 0; auto rate = [&]() { hm = r.bit(); if (hm) { m = r.pick(std::vector<double>{.5 / n, 1. / n, 2. / n, .25}); a.put("ea-mutation-rate", fmt("%.17g", m), "-m"); m = atof(fmt("%.17g", m).c_str()); } };
  auto pop = [&](int lo = 2) { return a.I("population-size", 10, r.range(lo, 20)); }; auto pv = [&](auto x) { x->set_log_entropy(a.B("pv-log-entropy", .2)); x->set_log_num_components(a.I("pv-log-num-components", 5, r.range(1, 5))); x->set_log_pv(a.B("pv-log-pv", .2)); };
  switch (id) {
  case 0: d = std::make_shared<CompleteSearch>(n); break; case 10: its(std::make_shared<RandomSearch>(n)); break;
  case 20: { hood(); auto x = its(std::make_shared<RandomWalk>(n, nb.get())); x->set_incremental_evaluation(a.B("incremental-evaluation")); if (a.B("rw-log-value")) x->set_log_value(); break; }
  case 100: { hood(); auto x = its(std::make_shared<RandomLocalSearch>(n, nb.get())); x->set_patience(a.I("rls-patience", 50, r.range(-1, 40))); x->set_incremental_evaluation(a.B("incremental-evaluation")); if (a.B("rls-strict")) x->set_compare(std::greater<double>()); break; }
  case 150: hoodit(); its(std::make_shared<SteepestAscentHillClimbing>(n, ni.get())); break; case 160: hoodit(); its(std::make_shared<FirstAscentHillClimbing>(n, ni.get())); break;
  case 200: { hood(); auto x = its(std::make_shared<SimulatedAnnealing>(n, nb.get())); x->set_num_transitions(a.I("sa-num-transitions", 50, r.range(1, 10))); x->set_num_trials(a.I("sa-num-trials", 100, r.range(1, 30))); x->set_initial_acceptance_probability(a.D("sa-initial-acceptance-probability", .6, r.real(.1, .9))); x->set_beta_ratio(a.D("sa-beta-ratio", 1.2, r.real(1.05, 3))); break; }
  case 300: { rate(); auto x = its(std::make_shared<OnePlusOneEa>(n)); x->set_allow_no_mutation(a.B("ea-allow-no-mutation")); x->set_incremental_evaluation(a.B("incremental-evaluation")); if (hm) x->set_mutation_rate(m); break; }
  case 301: { rate(); auto x = its(std::make_shared<SelfAdjustingOnePlusOneEa>(n)); x->set_mutation_rate_max(a.D("ea-mutation-rate-max", .5, r.real(.3, .9))); x->set_success_ratio(a.D("ea-success-ratio", 4, r.real(1, 6))); x->set_update_strength(a.D("ea-update-strength", 1.01, r.real(1.1, 1.6))); x->set_allow_no_mutation(a.B("ea-allow-no-mutation")); x->set_incremental_evaluation(a.B("incremental-evaluation")); x->set_log_mutation_rate(a.B("ea-log-mutation-rate")); if (hm) x->set_mutation_rate_init(m); if (r.bit()) { double q = .4 / n; a.put("ea-mutation-rate-min", fmt("%.17g", q)); x->set_mutation_rate_min(q); } break; }
  case 310: { rate(); int mu = a.I("ea-mu", 10, r.range(1, 12)), la = a.I("ea-lambda", 100, r.range(1, 20)); auto x = its(std::make_shared<MuPlusLambdaEa>(n, mu, la)); x->set_allow_no_mutation(a.B("ea-allow-no-mutation")); if (hm) x->set_mutation_rate(m); break; }
  case 320: { rate(); int mu = a.I("ea-mu", 10, r.range(1, 12)), la = a.I("ea-lambda", 100, mu + r.range(0, 12)); if (la < mu) la = mu; auto x = its(std::make_shared<MuCommaLambdaEa>(n, mu, la)); x->set_allow_no_mutation(a.B("ea-allow-no-mutation")); if (hm) x->set_mutation_rate(m); break; }
  case 330: { hm = r.bit(); if (hm) { m = r.pick(std::vector<double>{2. / n, 3. / n, .25}); a.put("ea-mutation-rate", fmt("%.17g", m), "-m"); } int la = a.I("ea-lambda", 100, r.range(2, 20)); auto x = its(std::make_shared<TwoRateOnePlusLambdaEa>(n, la)); x->set_allow_no_mutation(a.B("ea-allow-no-mutation")); x->set_log_mutation_rate(a.B("ea-log-mutation-rate")); if (hm) x->set_mutation_rate_init(m); break; }
  case 340: { rate(); int p = pop(); auto x = its(std::make_shared<InformationTheoreticEa>(n, p)); x->set_initial_hamming_weight(a.I("ea-it-initial-hamming-weight", 0, r.range(0, n))); x->set_learning_rate(a.D("learning-rate", .001, r.real(.01, 1))); x->set_mutation_rate_max(a.D("ea-mutation-rate-max", .5, r.real(.3, .9))); x->set_replacement(a.I("ea-it-replacement", 0, r.below(5))); x->set_selection_size(a.I("selection-size", 1, r.range(1, p - 1))); x->set_allow_no_mutation(a.B("ea-allow-no-mutation")); x->set_log_center_fitness(a.B("ea-it-log-center-fitness")); x->set_log_mutation_rate(a.B("ea-log-mutation-rate")); if (hm) x->set_mutation_rate_init(m); if (r.bit()) { double q = .4 / n; a.put("ea-mutation-rate-min", fmt("%.17g", q)); x->set_mutation_rate_min(q); } break; }
  case 400: { rate(); int mu = a.I("ea-mu", 10, r.range(3, 14)); auto x = its(std::make_shared<GeneticAlgorithm>(n, mu)); x->set_crossover_probability(a.D("ea-crossover-probability", .5, r.real())); x->set_tournament_size(a.I("ea-tournament-size", 2, r.range(2, mu - 1))); x->set_allow_no_mutation(a.B("ea-allow-no-mutation")); if (hm) x->set_mutation_rate(m); break; }
  case 450: { rate(); int la = a.I("ea-mu", 10, r.range(1, std::min(n, 12))); if (la > n) { la = std::min(n, 5); a.put("ea-mu", std::to_string(la)); } auto x = its(std::make_shared<OnePlusLambdaCommaLambdaGa>(n, la)); x->set_crossover_bias(a.D("ea-crossover-bias", .5, r.real(.05, .95))); if (hm) x->set_mutation_rate(m); break; }
  case 500: case 501: { int p = pop(); int sel = a.I("selection-size", 1, r.range(1, p)); double lr = a.D("learning-rate", .001, r.real(.01, 1)); auto cfg = [&](auto x) { x->set_learning_rate(lr); x->set_selection_size(sel); pv(x); }; if (id == 500) cfg(its(std::make_shared<Pbil>(n, p))); else cfg(its(std::make_shared<NpsPbil>(n, p))); break; }
  case 600: { int p = pop(); auto x = its(std::make_shared<Umda>(n, p)); x->set_selection_size(a.I("selection-size", 1, r.range(1, p))); pv(x); break; }
  case 610: case 612: { int p = pop(); auto cfg = [&](auto x) { x->set_selection_size(a.I("selection-size", 1, r.range(1, p))); x->set_ts_length(a.I("ram-ts-length", 10, r.range(0, 20))); x->set_ts_length_distribution_parameter(a.D("ram-ts-length-distribution-parameter", .1, r.real(.05, .9))); x->set_ts_length_increment_period(a.I("ram-ts-length-increment-period", 10000, r.range(1, 5))); x->set_ts_length_lower_bound(a.I("ram-ts-length-lower-bound", 0, r.range(0, 5))); x->set_ts_length_mode(a.I("ram-ts-length-mode", 0, r.below(6))); x->set_ts_length_upper_bound(a.I("ram-ts-length-upper-bound", 20, r.range(5, 25))); pv(x); }; if (id == 610) cfg(its(std::make_shared<RamUmda>(n, p))); else { auto x = its(std::make_shared<RamUmda2>(n, p)); cfg(x); x->set_crossover_probability(a.D("ram-crossover-probability", .1, r.real())); x->set_latent_space_probability(a.D("ram-latent-space-probability", .5, r.real())); } break; }
  case 700: { auto x = its(std::make_shared<CompactGa>(n)); x->set_learning_rate(a.D("learning-rate", .001, r.real(.01, 1))); pv(x); break; } case 800: { auto x = its(std::make_shared<Mmas>(n)); x->set_learning_rate(a.D("learning-rate", .001, r.real(.01, 1))); if (a.B("mmas-strict")) x->set_compare(std::greater<double>()); pv(x); break; }
  case 900: case 901: { int p = pop(); auto cfg = [&](auto x) { auto bo = [&](const char *k) { int v = r.below(3); if (v < 2) a.put(k, v ? "true" : "false"); return v != 0; }; x->set_bound_moment(bo("hea-bound-moment")); x->set_learning_rate(a.D("learning-rate", .001, r.real(.01, 1))); x->set_randomize_bit_order(bo("hea-randomize-bit-order")); x->set_reset_period(a.I("hea-reset-period", 0, r.range(0, 4))); x->set_selection_size(a.I("selection-size", 1, r.range(1, p))); x->set_log_delta_norm(a.B("hea-log-delta-norm", .2)); x->set_log_herding_error(a.B("hea-log-herding-error", .2)); x->set_log_target(a.B("hea-log-target", .2)); x->set_log_target_norm(a.B("hea-log-target-norm", .2)); }; if (id == 900) cfg(its(std::make_shared<walsh_moment::Hea<walsh_moment::FullMomentHerding>>(n, p))); else cfg(its(std::make_shared<walsh_moment::Hea<walsh_moment::TriangularMomentHerding>>(n, p))); break; }
  case 1000: case 1001: { int p = pop(); auto cfg = [&](auto x) { x->set_learning_rate(a.D("learning-rate", .001, r.real(.01, 1))); x->set_num_gs_cycles(a.I("bm-num-gs-cycles", 1, r.range(1, 3))); x->set_num_gs_steps(a.I("bm-num-gs-steps", 100, r.range(1, 40))); x->set_reset_mode(a.I("bm-reset-mode", 1, r.below(3))); x->set_sampling_mode(a.I("bm-sampling-mode", 1, r.below(3))); x->set_selection_size(a.I("selection-size", 1, r.range(1, p))); x->set_log_norm_1(a.B("bm-log-norm-1", .2)); x->set_log_norm_infinite(a.B("bm-log-norm-infinite", .2)); x->set_negative_positive_selection(a.B("bm-negative-positive-selection")); }; if (id == 1000) cfg(its(std::make_shared<walsh_moment::BmPbil<walsh_moment::FullMomentGibbsSampler>>(n, p))); else cfg(its(std::make_shared<walsh_moment::BmPbil<walsh_moment::TriangularMomentGibbsSampler>>(n, p))); break; }
  case 1100: { int p = pop(3); auto x = its(std::make_shared<Mimic>(n, p)); x->set_selection_size(a.I("selection-size", 1, r.range(1, p - 1))); break; } case 1110: { auto x = std::make_shared<fast_efficient_p3::Hboa>(n); x->set_population_size(pop(4)); d = x; break; } case 1200: { auto x = std::make_shared<fast_efficient_p3::Ltga>(n); x->set_population_size(pop(2)); d = x; break; } case 1250: d = std::make_shared<hnco::algorithm::gomea::Gomea>(n); break; case 1300: d = std::make_shared<fast_efficient_p3::ParameterLessPopulationPyramid>(n); break; }
  a.shuffle(); c.desc(a.str() + fmt(" n=%d", n)); HncoOptions o = a.parse(); CommandLineAlgorithmFactory F(o); unsigned seed = r.next(); Objective proto = mkobj(r, n); long bud = r.range(30, 250);
  auto run = [&](Algorithm *x, Log& log, std::string& out, solution_t& s) { Objective f(proto); OnBudgetFunction b(&f, bud); ProgressTracker t(&b); hnco::logging::ProgressTrackerContext ctx(&t); x->set_log_context(&ctx); Generator::set_seed(seed); mon::Capture cap(std::cout); int how = 0; try { x->maximize({&t}); } catch (const hnco::exception::LastEvaluation&) { how = 1; } x->finalize(); s = x->get_solution(); log = f.log; out = cap.str(); return how; };
  Log l1, l2; std::string o1, o2; solution_t s1, s2; std::unique_ptr<Algorithm> x(F.make(n)); int e1 = run(x.get(), l1, o1, s1), e2 = run(d.get(), l2, o2, s2); std::string k = std::to_string(id); compare(c, l1, l2, k); MON_CHECK(c, e1 == e2 && s1 == s2, "factory-solution:" + k, "different ends or solutions"); MON_CHECK(c, o1 == o2, "factory-log:" + k, "logged \"%s\" instead of \"%s\"", o1.substr(0, 200).c_str(), o2.substr(0, 200).c_str()); c.count("algorithm " + k); c.count("evaluations compared", l1.size()); if (o1.size()) c.count("logs compared"); c.cover(c.description); c.sample(c.description);
  if (r.chance(.05)) { Args bad(r); bad.must("algorithm", r.pick(std::vector<int>{-1, 1, 7, 110, 302, 999, 1301, 100000}), "-A"); HncoOptions ob = bad.parse(); CommandLineAlgorithmFactory FB(ob); bool th = false; try { FB.make(n); } catch (const std::exception&) { th = true; } MON_CHECK(c, th, "unknown-algorithm", "an unknown algorithm is accepted: %s", bad.str().c_str()); }
}

// Functions by number.
static std::vector<BV> points(mon::Ctx& c, int n) { std::vector<BV> p; for (int i = 0; i < 20; i++) p.push_back(fl::rbv(c.rng, n, c.rng.pick(std::vector<double>{.5, .1, .9, .97}))); p.push_back(BV(n, 0)); p.push_back(BV(n, 1)); for (int i = 0; i < 6; i++) { p.push_back(fl::pre(n, c.rng.range(0, n))); p.push_back(fl::suf(n, c.rng.range(0, n))); } return p; }
static void samefn(mon::Ctx& c, Function& f, Function& g, const std::string& k) { MON_CHECK(c, f.get_bv_size() == g.get_bv_size(), "function-size:" + k, "size %d from options, %d directly", f.get_bv_size(), g.get_bv_size()); MON_CHECK(c, f.has_known_maximum() == g.has_known_maximum(), "function-max:" + k, "known maximum differs"); if (f.has_known_maximum()) MON_CHECK(c, f.get_maximum() == g.get_maximum(), "function-max:" + k, "maximum %g from options, %g directly", f.get_maximum(), g.get_maximum()); for (auto& x : points(c, f.get_bv_size())) { unsigned s = c.rng.next(); Generator::set_seed(s); double u = f.evaluate(x); Generator::set_seed(s); double v = g.evaluate(x); MON_CHECK(c, mon::same_double(u, v), "function:" + k, "value of %s is %.17g from options, %.17g directly", mon::showbv(x).c_str(), u, v); } }
CASES(functions, 1800, 30000) {
  static const std::vector<int> ids{0, 1, 5, 10, 11, 20, 30, 31, 40, 41, 50, 60, 70, 71, 80, 81, 90, 91, 100, 101, 110, 120, 130, 140, 160, 161, 162, 171, 172, 190, 200}; int id = ids[c.idx % ids.size()]; mon::Rng& r = c.rng; int n = r.range(4, 40); std::string k = std::to_string(id), path = mon::tmpfile("c21f.txt"); Args a(r); a.must("function", id, "-F"); std::shared_ptr<Function> g; std::vector<std::shared_ptr<void>> keep; bool file = false, sized = true; auto load = [&](auto f) { f->save(path); f->load(path); file = true; g = f; };
  switch (id) {
  case 0: g = std::make_shared<OneMax>(n); break; case 1: { auto f = std::make_shared<LinearFunction>(); f->random(n); load(f); break; } case 5: { auto f = std::make_shared<LinearFunction>(); double w = 1; f->generate(n, [&w]() { double q = w; w *= 2; return q; }); g = f; break; } case 10: g = std::make_shared<LeadingOnes>(n); break; case 11: g = std::make_shared<Ridge>(n); break; case 20: g = std::make_shared<Needle>(n); break;
  case 30: case 31: case 40: case 41: { n = std::max(n, 24); int t = a.I("fn-threshold", 10, r.range(1, 11), "-t"); if (id == 30) g = std::make_shared<Jump>(n, t); else if (id == 31) g = std::make_shared<DeceptiveJump>(n, t); else if (id == 40) g = std::make_shared<FourPeaks>(n, t); else g = std::make_shared<SixPeaks>(n, t); break; }
  case 50: { int m = r.range(2, 10); std::string s = fmt("p qubo 0 %d %d %d\n", m, m, m * (m - 1) / 2); for (int i = 0; i < m; i++) s += fmt("%d %d %d\n", i, i, (r.bit() ? 1 : -1) * r.range(1, 9)); for (int i = 0; i < m; i++) for (int j = i + 1; j < m; j++) s += fmt("%d %d %d\n", i, j, (r.bit() ? 1 : -1) * r.range(1, 9)); mon::spit(path, s); auto f = std::make_shared<Qubo>(); f->load(path); file = true; g = f; break; }
  case 60: { auto f = std::make_shared<NkLandscape>(); f->random(n, r.range(1, 3)); load(f); break; } case 70: { auto f = std::make_shared<MaxSat>(); f->random(n, 3, r.range(1, 30)); load(f); break; } case 71: { auto f = std::make_shared<MaxSat>(); f->random(n, 3, r.range(1, 30)); f->save(path); auto h = std::make_shared<MaxNae3Sat>(); h->load(path); file = true; g = h; break; } case 80: g = std::make_shared<Labs>(n); break; case 81: { auto f = std::make_shared<Labs>(n); f->set_merit_factor_flag(true); g = f; break; }
  case 90: { auto f = std::make_shared<EqualProducts>(); f->random(n); load(f); break; } case 91: { auto f = std::make_shared<Partition>(); f->random(n, 1000); load(f); break; } case 100: n = r.range(1, 4) * 9; g = std::make_shared<SummationCancellation>(n); break; case 101: n = r.range(1, 4) * 9; g = std::make_shared<SinusSummationCancellation>(n); break; case 110: { int t = r.chance(.3) ? 10 : r.range(1, 6); n = t * r.range(2, 6); if (t != 10 || r.bit()) a.must("fn-num-traps", t); g = std::make_shared<Trap>(n, t); break; } case 120: n = 1 << r.range(1, 5); g = std::make_shared<Hiff>(n); break; case 130: g = std::make_shared<Plateau>(n); break; case 140: { int p = 2; if (r.bit()) p = a.must("fn-prefix-length", r.range(2, 4)); n = p * r.range(2, 6); g = std::make_shared<LongPath>(n, p); break; }
  case 160: { auto f = std::make_shared<WalshExpansion>(); f->random(n, r.range(1, 20)); load(f); break; } case 161: { auto f = std::make_shared<WalshExpansion1>(); f->random(n); load(f); break; } case 162: { auto f = std::make_shared<WalshExpansion2>(); f->random(n); load(f); break; } case 171: { auto f = std::make_shared<NearestNeighborIsingModel1>(); f->random(n); load(f); break; } case 172: { auto f = std::make_shared<NearestNeighborIsingModel2>(); f->random(r.range(2, 5), r.range(2, 5)); load(f); break; }
  case 190: { auto s = std::make_shared<Sudoku>(); s->random(r.range(1, 12)); s->save(path); s->load(path); file = true; keep.push_back(s); int rep = a.I("rep-categorical-representation", 0, r.below(2)); using namespace hnco::representation; if (rep == 0) g = std::make_shared<MultivariateFunctionAdapter<Sudoku, IntegerCategoricalRepresentation, ScalarToDouble<double>>>(s.get(), std::vector<IntegerCategoricalRepresentation>(s->get_num_variables(), IntegerCategoricalRepresentation(9))); else g = std::make_shared<MultivariateFunctionAdapter<Sudoku, LinearCategoricalRepresentation, ScalarToDouble<double>>>(s.get(), std::vector<LinearCategoricalRepresentation>(s->get_num_variables(), LinearCategoricalRepresentation(9))); break; }
  case 200: { int m = r.range(2, 9); auto t = std::make_shared<Tsp>(); std::string s = fmt("NAME : x\nTYPE : TSP\nDIMENSION : %d\nEDGE_WEIGHT_TYPE : EUC_2D\nNODE_COORD_SECTION\n", m); for (int i = 1; i <= m; i++) s += fmt("%d %d %d\n", i, r.range(0, 100), r.range(0, 100)); s += "EOF\n"; mon::spit(path, s); t->load(path); file = true; keep.push_back(t); int ab = a.I("rep-num-additional-bits", 2, r.range(1, 4)); g = std::make_shared<PermutationFunctionAdapter<Tsp>>(t.get(), hnco::representation::PermutationRepresentation(m, ab)); break; } }
  if (file) a.put("path", path, "-p"); else a.must("bv-size", n, "-s"); a.shuffle(); c.desc(a.str()); HncoOptions o = a.parse(); CommandLineFunctionFactory F(o); std::shared_ptr<Function> f(F.make()); samefn(c, *f, *g, k); c.count("function " + k); c.cover(c.description); c.sample(c.description);
  if (file) { std::string bad = path + ".none"; Args b(r); b.must("function", id, "-F"); b.put("path", bad, "-p"); HncoOptions ob = b.parse(); CommandLineFunctionFactory FB(ob); bool th = false; try { mon::Capture q(std::cerr); FB.make(); } catch (const std::exception&) { th = true; } MON_CHECK(c, th, "missing-file:" + k, "a missing function file is accepted"); }
}
// Modifiers and controllers: the chain documented by the options, against the same chain of decorators.
CASES(chain, 2500, 40000) {
  mon::Rng& r = c.rng; int n = r.range(3, 24); Args a(r); a.must("function", 0, "-F"); int fsel = r.below(3); int id = std::vector<int>{0, 10, 80}[fsel]; a.v.clear(); a.must("function", id, "-F"); a.must("bv-size", n, "-s"); auto mk = [&]() -> std::shared_ptr<Function> { if (id == 0) return std::make_shared<OneMax>(n); if (id == 10) return std::make_shared<LeadingOnes>(n); return std::make_shared<Labs>(n); };
  std::vector<std::shared_ptr<void>> keep; unsigned seed = r.next(); Generator::set_seed(seed); std::shared_ptr<Function> base = mk(); keep.push_back(base); Function *g = base.get(); std::shared_ptr<hnco::map::Map> m; std::shared_ptr<hnco::map::Permutation> mp; std::shared_ptr<hnco::map::Translation> mt;
  int mid = r.chance(.5) ? 0 : r.range(1, 6); std::string mpath = mon::tmpfile("c21m.txt"); auto saved = [&](auto& x) { if (r.chance(.4)) { std::ofstream s(mpath); boost::archive::text_oarchive ar(s); const auto& y = x; ar << y; a.put("map-path", mpath); return true; } a.v.push_back("--map-random"); return false; };
  if (mid) { a.must("map", mid, "-M"); int in = n; bool sur = false; if (mid == 4 || mid == 5) { in = r.range(1, 30); if (in >= n) sur = r.bit(); }
    if (mid == 1) { auto x = std::make_shared<hnco::map::Translation>(); x->random(n); if (saved(*x)) Generator::set_seed(seed); m = x; } if (mid == 2) { auto x = std::make_shared<hnco::map::Permutation>(); x->random(n); if (saved(*x)) Generator::set_seed(seed); m = x; } if (mid == 3) { mp = std::make_shared<hnco::map::Permutation>(); mt = std::make_shared<hnco::map::Translation>(); mp->random(n); mt->random(n); m = std::make_shared<hnco::map::MapComposition>(mp.get(), mt.get()); a.v.push_back("--map-random"); }
    if (mid == 4) { auto x = std::make_shared<hnco::map::LinearMap>(); x->random(n, in, sur); if (saved(*x)) Generator::set_seed(seed); m = x; } if (mid == 5) { auto x = std::make_shared<hnco::map::AffineMap>(); x->random(n, in, sur); if (saved(*x)) Generator::set_seed(seed); m = x; } if (mid == 4 || mid == 5) { a.must("map-input-size", in); if (sur) a.v.push_back("--map-surjective"); }
    if (mid == 6) { int l = a.I("map-ts-length", 10, r.range(0, 20)), mode = a.I("map-ts-sampling-mode", 0, r.below(6)); auto x = std::make_shared<hnco::map::TsAffineMap>(); x->random(n, l, mode); if (saved(*x)) Generator::set_seed(seed); m = x; } keep.push_back(m); auto fc = std::make_shared<md::FunctionMapComposition>(g, m.get()); keep.push_back(fc); g = fc.get(); }
  int s = g->get_bv_size(); bool noise = false;
  if (a.B("prior-noise", .25)) { noise = true; int k = a.I("pn-neighborhood", 0, r.below(4)), R = a.I("pn-radius", 2, r.range(1, s)); bool no = a.B("pn-allow-no-mutation"); double q = 0; if (r.bit()) { q = r.pick(std::vector<double>{.5, .1, 1. / s}); a.put("pn-mutation-rate", fmt("%.17g", q)); } if (k > 1 && R > s) { c.obs(); return; } Neighborhood *nb; if (k == 0) nb = new SingleBitFlip(s); else if (k == 1) { auto x = new StandardBitMutation(s); x->set_allow_no_mutation(no); if (q) x->set_mutation_rate(q); nb = x; } else if (k == 2) nb = new HammingBall(s, R); else nb = new HammingSphere(s, R); auto x = std::make_shared<md::PriorNoise>(g, nb); keep.push_back(x); g = x.get(); }
  if (a.B("parsed-modifier", .3)) { std::string e = "x"; if (r.chance(.8)) { e = r.pick(std::vector<std::string>{"x^2", "2*x+1", "sin(x)", "abs(x-3)", "x-5"}); a.put("expression", e); } auto x = std::make_shared<md::ParsedModifier>(g, e); keep.push_back(x); g = x.get(); }
  if (a.B("minimize", .3)) { auto x = std::make_shared<OppositeFunction>(g); keep.push_back(x); g = x.get(); }
  if (a.B("additive-gaussian-noise", .2)) { noise = true; double q = a.D("noise-stddev", 1, r.real(.01, 5)); auto x = std::make_shared<md::AdditiveGaussianNoise>(g, q); keep.push_back(x); g = x.get(); }
  Function *mod = g; auto tr = std::make_shared<ProgressTracker>(g); keep.push_back(tr); g = tr.get(); int bud = 10000; if (r.chance(.8)) bud = a.must("budget", r.range(-1, 60), "-b"); bool ca = a.B("cache", .4), cb = a.B("cache-budget", .4); std::shared_ptr<Cache> cache; if (ca && bud > 0 && !cb) { auto b = std::make_shared<OnBudgetFunction>(g, bud); keep.push_back(b); g = b.get(); cache = std::make_shared<Cache>(g); g = cache.get(); } else { if (ca) { cache = std::make_shared<Cache>(g); g = cache.get(); } if (bud > 0) { auto b = std::make_shared<OnBudgetFunction>(g, bud); keep.push_back(b); g = b.get(); } }
  bool som = a.B("stop-on-maximum", .2), known = g->has_known_maximum(); bool ht = r.chance(.3); double target = r.real(-5, n); if (ht) a.put("target", fmt("%.17g", target)); std::shared_ptr<StopOnTarget> st; if (som) { if (known) st = std::make_shared<StopOnMaximum>(g); } else if (ht) st = std::make_shared<StopOnTarget>(g, atof(fmt("%.17g", target).c_str())); if (st) g = st.get();
  a.shuffle(); c.desc(a.str() + fmt(" seed=%u", seed)); unsigned s2 = r.next(); HncoOptions o = a.parse(); CommandLineFunctionFactory FF(o); DecoratedFunctionFactory D(o, FF); mon::Capture err(std::cerr); Generator::set_seed(seed); Function *fm = D.make_function_modifier(); if (som && !known) { bool th = false; try { D.make_function_controller(fm); } catch (const std::exception&) { th = true; } MON_CHECK(c, th, "chain-no-maximum", "--stop-on-maximum is accepted without known maximum"); c.cover(c.description); return; } Function *f = D.make_function_controller(fm); MON_CHECK(c, f->get_bv_size() == g->get_bv_size() && f->has_known_maximum() == known && (!known || f->get_maximum() == g->get_maximum()), "chain-information", "size %d/%d, maximum known %d/%d", f->get_bv_size(), g->get_bv_size(), f->has_known_maximum(), known);
  std::vector<BV> pts = points(c, s); for (int i = 0; i < 60; i++) pts.push_back(pts[r.below(34)]); std::vector<double> v1, v2; std::vector<int> e1, e2; auto run = [&](Function *h, std::vector<double>& v, std::vector<int>& e) { Generator::set_seed(s2); for (auto& x : pts) { try { v.push_back(h->evaluate(x)); e.push_back(0); } catch (const hnco::exception::LastEvaluation&) { v.push_back(0); e.push_back(1); } catch (const hnco::exception::TargetReached&) { v.push_back(0); e.push_back(2); } } }; run(f, v1, e1); run(g, v2, e2); for (size_t i = 0; i < pts.size(); i++) { MON_CHECK(c, e1[i] == e2[i], "chain-end", "call %zu ends with %d from options, %d directly (1: budget, 2: target)", i, e1[i], e2[i]); MON_CHECK(c, mon::same_double(v1[i], v2[i]), "chain-value", "call %zu has value %.17g from options, %.17g directly", i, v1[i], v2[i]); }
  MON_CHECK(c, D.get_tracker()->get_num_calls() == tr->get_num_calls(), "chain-calls", "%d calls from options, %d directly", D.get_tracker()->get_num_calls(), tr->get_num_calls()); MON_CHECK(c, !D.get_cache() == !cache, "chain-cache", "cache"); if (cache) MON_CHECK(c, D.get_cache()->get_lookup_ratio() == cache->get_lookup_ratio(), "chain-lookup", "lookup ratio"); (void)mod; (void)noise; c.count("chains"); if (mid) c.count(fmt("map %d", mid)); if (st) c.count("targets"); c.cover(c.description);
}
// Every numeric option and flag is stored under its own name: --print-parameters shows what was given.
CASES(parameters, 600, 10000) {
  struct P { const char *name; int kind; }; static const std::vector<P> ps{{"num-threads", 0}, {"function", 0}, {"bv-size", 0}, {"fn-threshold", 0}, {"fn-num-traps", 0}, {"fn-prefix-length", 0}, {"rep-num-additional-bits", 0}, {"rep-categorical-representation", 0}, {"budget", 0}, {"noise-stddev", 1}, {"pn-radius", 0}, {"pn-neighborhood", 0}, {"map", 0}, {"map-input-size", 0}, {"map-ts-sampling-mode", 0}, {"map-ts-length", 0}, {"algorithm", 0}, {"num-iterations", 0}, {"neighborhood", 0}, {"neighborhood-iterator", 0}, {"rls-patience", 0}, {"radius", 0}, {"sa-num-transitions", 0}, {"sa-num-trials", 0}, {"sa-initial-acceptance-probability", 1}, {"sa-beta-ratio", 1}, {"ea-mutation-rate", 1}, {"ea-mutation-rate-min", 1}, {"ea-mutation-rate-max", 1}, {"ea-update-strength", 1}, {"ea-success-ratio", 1}, {"ea-mu", 0}, {"ea-lambda", 0}, {"ea-tournament-size", 0}, {"ea-crossover-probability", 1}, {"ea-crossover-bias", 1}, {"ea-it-replacement", 0}, {"ea-it-initial-hamming-weight", 0}, {"population-size", 0}, {"selection-size", 0}, {"learning-rate", 1}, {"pv-log-num-components", 0}, {"hea-reset-period", 0}, {"bm-num-gs-steps", 0}, {"bm-num-gs-cycles", 0}, {"bm-sampling-mode", 0}, {"bm-reset-mode", 0}, {"ram-ts-length-mode", 0}, {"ram-ts-length", 0}, {"ram-ts-length-lower-bound", 0}, {"ram-ts-length-upper-bound", 0}, {"ram-ts-length-increment-period", 0}, {"ram-ts-length-distribution-parameter", 1}, {"ram-crossover-probability", 1}, {"ram-latent-space-probability", 1}, {"target", 1}, {"seed", 2}};
  Args a(c.rng), none(c.rng); std::map<std::string, std::string> given; for (auto& p : ps) if (c.rng.chance(.15)) { std::string v = p.kind == 1 ? fmt("%g", c.rng.range(1, 999) / 1000.) : p.kind == 2 ? fmt("%u", unsigned(c.rng.next())) : fmt("%d", c.rng.range(-50, 5000)); std::string nm = p.name; for (auto& ch : nm) if (ch == '-') ch = '_'; if (p.kind == 0 && v[0] == '-') a.v.push_back("--" + std::string(p.name) + "=" + v); else a.put(p.name, v); given[nm] = v; } c.desc("parameters" + a.str()); auto show = [](HncoOptions o) { std::ostringstream s; s << o; return s.str(); }; auto parse = [](const std::string& s) { std::map<std::string, std::string> m; std::istringstream i(s); std::string l; while (std::getline(i, l)) { auto p = l.find(" = "); if (p == std::string::npos) continue; std::string k = l.substr(0, p); while (k.size() && (k[0] == '#' || k[0] == ' ')) k.erase(0, 1); m[k] = l.substr(p + 3); } return m; };
  auto before = parse(show(none.parse())), after = parse(show(a.parse())); MON_CHECK(c, before.size() > 40, "parameters-shown", "only %zu parameters are shown", before.size()); for (auto& g : given) { auto it = after.find(g.first); if (it == after.end()) { bool shown = before.count(g.first); MON_CHECK(c, !shown, "parameters-lost", "%s is not shown", g.first.c_str()); c.count("not shown"); continue; } MON_CHECK(c, it->second == g.second, "parameters-value", "%s is shown as %s, given %s", g.first.c_str(), it->second.c_str(), g.second.c_str()); c.count("shown"); } for (auto& b : before) if (!given.count(b.first)) MON_CHECK(c, after[b.first] == b.second, "parameters-other", "%s changed from %s to %s, it was not given", b.first.c_str(), b.second.c_str(), after[b.first].c_str()); c.cover(c.description);
}
// hnco-mo: the algorithm made from the options runs like the one configured directly.
struct MoProbe : hnco::multiobjective::function::Function { int n, k; std::vector<std::vector<int>> w; std::vector<std::pair<BV, std::vector<double>>> log;
  int get_bv_size() const override { return n; } int get_output_size() const override { return k; }
  void evaluate(const hnco::bit_vector_t& x, hnco::multiobjective::function::value_t& v) override { v.resize(k); for (int j = 0; j < k; j++) { double s = 0; for (int i = 0; i < n; i++) if (x[i]) s += w[j][i]; v[j] = s; } log.push_back({BV(x.begin(), x.end()), std::vector<double>(v.begin(), v.end())}); } };
CASES(mo_algorithms, 400, 8000) {
  namespace mo = hnco::multiobjective; mon::Rng& r = c.rng; int n = r.range(3, 24), k = r.range(1, 3); MoProbe proto; proto.n = n; proto.k = k; for (int j = 0; j < k; j++) { std::vector<int> q; for (int i = 0; i < n; i++) q.push_back(r.range(-5, 5)); proto.w.push_back(q); }
  Args a(r); if (r.bit()) a.must("algorithm", 100, "-A"); int mu = a.I("ea-mu", 100, r.range(5, 20)), it = a.must("num-iterations", r.range(1, 12), "-i"); double cp = a.D("ea-crossover-probability", .8, r.real()); int ts = a.I("ea-tournament-size", 2, r.range(2, 4)); bool no = a.B("ea-allow-no-mutation"), hm = r.bit(); double m = 0; if (hm) { m = atof(fmt("%.17g", r.pick(std::vector<double>{.5 / n, .25, .5, .9})).c_str()); a.put("ea-mutation-rate", fmt("%.17g", m), "-m"); } a.shuffle(); c.desc("multiobjective" + a.str() + fmt(" n=%d k=%d", n, k));
  std::vector<char *> av; static std::string me = "hnco-mo"; av.push_back(&me[0]); for (auto& x : a.v) av.push_back(&x[0]); av.push_back(nullptr); optind = 0; mo::app::HncoOptions o(int(av.size()) - 1, av.data()); mo::app::CommandLineAlgorithmFactory F(o); std::unique_ptr<mo::algorithm::Algorithm> x(F.make(n, k)); mo::algorithm::Nsga2 d(n, k, mu); d.set_num_iterations(it); d.set_crossover_probability(cp); d.set_tournament_size(ts); d.set_allow_no_mutation(no); if (hm) d.set_mutation_rate(m);
  unsigned seed = r.next(); MoProbe f1(proto), f2(proto); Generator::set_seed(seed); x->minimize({&f1}); Generator::set_seed(seed); d.minimize({&f2}); for (size_t i = 0; i < f1.log.size() && i < f2.log.size(); i++) MON_CHECK(c, f1.log[i].first == f2.log[i].first, "mo-factory", "evaluation %zu of the algorithm made from options is %s, configured directly %s", i, mon::showbv(f1.log[i].first).c_str(), mon::showbv(f2.log[i].first).c_str()); MON_CHECK(c, f1.log.size() == f2.log.size(), "mo-factory-count", "%zu evaluations from options, %zu directly", f1.log.size(), f2.log.size()); MON_CHECK(c, long(f1.log.size()) == long(mu) * (it + 1), "mo-factory-evaluations", "%zu evaluations, expected %d", f1.log.size(), mu * (it + 1)); auto& p = x->get_solutions(); auto& q = d.get_solutions(); MON_CHECK(c, p.bvs == q.bvs && p.values == q.values, "mo-factory-solutions", "different solutions"); c.count("multiobjective runs"); c.count("multiobjective evaluations compared", f1.log.size()); c.cover(c.description);
}
int main(int a, char **v) { return mon::main(a, v); }
