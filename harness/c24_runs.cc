// C24: whole runs of every algorithm on every function, through chains of maps, modifiers and controllers, with degenerate
// sizes and extreme valid parameters. The oracle is the instrumentation (addresses, undefined behaviour, library assertions;
// definedness under valgrind) together with: the run ends by itself or by its budget, no other exception, budget respected.
#ifndef ALG_ALL
#define ALG_ALL
#endif
#include "alglib.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/functions/modifiers/all.hh"
#include "hnco/functions/modifiers/parsed-modifier.hh"
#include "hnco/maps/map.hh"
#include "hnco/logging/log-context.hh"
#include "hnco/multiobjective/algorithms/all.hh"
#include "hnco/multiobjective/functions/all.hh"
#include <omp.h>
using namespace al; using namespace hnco::function; using namespace hnco::function::controller; using namespace hnco::function::modifier;
using hnco::exception::LastEvaluation; using hnco::exception::TargetReached; namespace mo = hnco::multiobjective;

struct Chain { std::vector<std::shared_ptr<void>> own; Function *f = nullptr; std::string d; OnBudgetFunction *budget = nullptr; long bud = 0; ProgressTracker *tracker = nullptr;
  template<class T, class... A> T *add(A&&... a) { auto p = std::make_shared<T>(std::forward<A>(a)...); own.push_back(p); return p.get(); } };
static void modifiers(mon::Ctx& c, Chain& y, int L, bool noise) {
  auto& r = c.rng;
  for (int i = 0; i < L; i++) { int n = y.f->get_bv_size(); switch (r.below(noise ? 10 : 8)) {
    case 0: y.f = y.add<OppositeFunction>(y.f); y.d += "/opposite"; break;
    case 1: { auto m = y.add<map::AffineMap>(); int in = r.chance(.5) ? n : r.range(1, n + 5); m->random(n, in, in >= n && r.bit()); y.f = y.add<FunctionMapComposition>(y.f, m); y.d += fmt("/affine(%d)", in); break; }
    case 2: { auto m = y.add<map::LinearMap>(); int in = r.chance(.5) ? n : r.range(1, n + 5); m->random(n, in, in >= n && r.bit()); y.f = y.add<FunctionMapComposition>(y.f, m); y.d += fmt("/linear(%d)", in); break; }
    case 3: { auto p = y.add<map::Permutation>(); p->random(n); auto t = y.add<map::Translation>(); t->random(n); auto m = y.add<map::MapComposition>(p, t); y.f = y.add<FunctionMapComposition>(y.f, m); y.d += "/composition"; break; }
    case 4: { if (n < 2) break; auto m = y.add<map::TsAffineMap>(); m->random(n, r.range(0, 3 * n), r.below(6)); y.f = y.add<FunctionMapComposition>(y.f, m); y.d += "/ts"; break; }
    case 5: { std::vector<int> pos(n); for (int k = 0; k < n; k++) pos[k] = k; int k = r.range(1, n); r.shuffle(pos); pos.resize(k); std::sort(pos.begin(), pos.end()); auto j = y.add<map::Injection>(pos, n); y.f = y.add<FunctionMapComposition>(y.f, j); y.d += fmt("/injection(%d)", k); break; }
    case 6: { int in = n + r.range(0, 5); std::vector<int> pos(in); for (int k = 0; k < in; k++) pos[k] = k; r.shuffle(pos); pos.resize(n); std::sort(pos.begin(), pos.end()); auto j = y.add<map::Projection>(pos, in); y.f = y.add<FunctionMapComposition>(y.f, j); y.d += fmt("/projection(%d)", in); break; }
    case 7: y.f = y.add<ParsedModifier>(y.f, r.pick(std::vector<std::string>{"x", "x^2", "if(x > 1, x^2, x - 1)", "sin(x)", "-abs(x)", "exp(x)"})); y.d += "/parsed"; break;
    case 8: y.f = y.add<AdditiveGaussianNoise>(y.f, r.pick(std::vector<double>{1e-9, 1, 1e9})); y.d += "/noise"; break;
    default: { Neighborhood *nb; if (r.bit()) nb = y.add<SingleBitFlip>(n); else if (r.bit()) nb = y.add<HammingBall>(n, r.range(1, n)); else { auto s = y.add<StandardBitMutation>(n); s->set_allow_no_mutation(r.bit()); nb = s; } y.f = y.add<PriorNoise>(y.f, nb); y.d += "/prior-noise"; } } }
}
static void controllers(mon::Ctx& c, Chain& y, long bud, bool stops = true) {
  auto& r = c.rng; if (r.bit()) { y.tracker = y.add<ProgressTracker>(y.f); y.tracker->set_record_bit_vector(r.bit()); if (r.chance(.3)) y.tracker->set_record_evaluation_time(true); y.f = y.tracker; y.d += "/tracker"; }
  if (r.chance(.3)) { y.f = y.add<Cache>(y.f); y.d += "/cache"; }
  y.bud = bud; y.budget = y.add<OnBudgetFunction>(y.f, bud); y.f = y.budget; y.d += fmt("/budget(%ld)", bud);
  if (r.chance(.2) && y.f->has_known_maximum()) { y.f = y.add<StopOnMaximum>(y.f); y.d += "/maximum"; } else if (r.chance(.2)) { y.f = y.add<StopOnTarget>(y.f, r.real(-10, 100)); y.d += "/target"; }
  if (r.chance(.15)) { y.f = y.add<CallCounter>(y.f); y.d += "/counter"; } if (stops && r.chance(.1)) { y.f = y.add<Cache>(y.f); y.d += "/cache"; }
}
static bool fits(int kind, int n) { if (n < min_n(kind)) return false; if (kind == A_CS) return n <= 10; if (kind == A_HEAF || kind == A_HEAT || kind == A_BMF || kind == A_BMT) return n <= 40; if (kind == A_MIMIC) return n <= 60; return n <= 400; }
static void go(mon::Ctx& c, Alg& A, std::vector<Function *> fns, Chain& y, Algorithm *a) {
  long before = y.budget->get_num_calls(); (void)before; int how = 0; mon::Capture cap(std::cout); hnco::logging::ProgressTrackerContext ctx(y.tracker); if (y.tracker) a->set_log_context(&ctx);
  try { a->maximize(fns); } catch (const LastEvaluation&) { how = 1; } catch (const TargetReached&) { how = 2; }
  if (how != 2) { a->finalize(); auto s = a->get_solution(); MON_CHECK(c, int(s.first.size()) == A.n && bv_is_valid(s.first), "solution:" + std::string(kname(A.kind)), "the solution %s is not a bit vector of size %d", mon::show(s.first).c_str(), A.n); }
  MON_CHECK(c, y.budget->get_num_calls() <= y.bud, "budget", "%d calls for a budget of %ld", y.budget->get_num_calls(), y.bud); c.count(fmt("end_%d", how)); c.count("evaluations", y.budget->get_num_calls()); c.count(kname(A.kind)); if (how != 0 || y.budget->get_num_calls() > 0) c.cover(c.description);
}
static int pick_n(mon::Rng& r) { return r.pick(std::vector<int>{2, 4, 9, 24, 24, 70}); }
// Every algorithm on every function, in turn.
CASES(matrix, 2976, 60000) {
  auto& r = c.rng; int fk = c.idx % fl::K_COUNT, ak = c.idx / fl::K_COUNT % A_NUM; fl::Inst I = fl::make(c, fk, pick_n(r)); Chain y; y.f = I.f.get(); y.d = I.name; modifiers(c, y, r.range(0, 3), true); int n = y.f->get_bv_size(); if (!fits(ak, n)) { do ak = r.below(A_NUM); while (!fits(ak, n)); } controllers(c, y, r.chance(.1) ? r.range(1, 4) : r.range(20, 250), ak <= A_BMT); Alg A = make(r, ak, n, 250); c.desc(A.name + " on " + y.d);
  if (r.chance(.25)) { Restart R(A.a.get()); R.set_num_iterations(r.range(1, 4)); c.more("restart"); go(c, A, {y.f}, y, &R); } else go(c, A, {y.f}, y, A.a.get()); c.count(fmt("function_%d", fk)); c.sample(c.description);
}
// Smallest sizes, populations and selections, extreme objective values.
struct Extreme : Function { int n, kind; uint64_t salt; Extreme(int n, int k, uint64_t s) : n(n), kind(k), salt(s) {} int get_bv_size() const override { return n; }
  double evaluate(const BV& x) override { uint64_t h = salt; for (auto b : x) h = mon::mix(h ^ (b + 5)); switch (kind) { case 0: return 0; case 1: return h & 1 ? 1e308 : -1e308; case 2: return h & 1 ? -INFINITY : double(h % 100); case 3: return double(h % 3) * 5e-324; case 4: return -1e300 + double(h % 5); case 5: return double(h); case 6: return -double(h % 7); default: return h & 1 ? INFINITY : double(h % 100); } } double evaluate_safely(const BV& x) override { return evaluate(x); } };
CASES(degenerate, 3100, 60000) {
  auto& r = c.rng; int ak = c.idx % A_NUM, n = min_n(ak) + r.below(3); Extreme f(n, r.below(8), r.next()); Chain y; y.f = &f; y.d = fmt("extreme(%d,%d)", n, f.kind); controllers(c, y, r.range(1, 200), ak <= A_BMT); Alg A = make(r, ak, n, 120); c.desc(A.name + " on " + y.d); go(c, A, {y.f}, y, A.a.get()); c.sample(c.description);
}
// Long vectors, few evaluations.
CASES(large, 124, 2000) {
  auto& r = c.rng; int ak = c.idx % A_NUM; if (ak == A_CS) ak = A_RS; int n = ak == A_HEAF || ak == A_HEAT || ak == A_BMF || ak == A_BMT ? r.range(60, 90) : ak == A_MIMIC || ak == A_HBOA || ak == A_LTGA || ak == A_GOMEA || ak == A_P3 || ak == A_SAHC || ak == A_FA ? r.range(100, 200) : r.range(500, 2500); Objective o = mkobj(r, n); o.logging = false; Chain y; y.f = &o; y.d = fmt("obj%d(%d)", o.kind, n); controllers(c, y, 150, ak <= A_BMT); Alg A = make(r, ak, n, 100); c.desc(A.name + " on " + y.d); go(c, A, {y.f}, y, A.a.get());
}
// Populations evaluated by several functions, objects used again with other functions, interrupted in between.
CASES(reuse_parallel, 620, 12000) {
  auto& r = c.rng; int ak = c.idx % A_NUM; int n = std::max(min_n(ak), r.range(1, 14)); if (ak == A_CS) n = r.range(1, 7); Alg A = make(r, ak, n, 100); std::string d = A.name; omp_set_num_threads(r.range(1, 3)); int runs = r.range(1, 3);
  for (int t = 0; t < runs; t++) { int k = A.parallel ? r.range(1, 3) : 1; std::vector<std::unique_ptr<Objective>> os; std::vector<Function *> fns; Objective p = mkobj(r, n); p.logging = false; for (int i = 0; i < k; i++) { os.emplace_back(new Objective(p)); fns.push_back(os.back().get()); } Chain y; y.f = fns[0]; y.d = fmt("obj%d", p.kind); controllers(c, y, r.range(1, 150), ak <= A_BMT); fns[0] = y.f; c.desc(d + fmt(" run %d of %d on %d x ", t + 1, runs, k) + y.d); go(c, A, fns, y, A.a.get()); }
}
// Functions: construction, display, queries and evaluation at the corners of the hypercube.
CASES(functions, 640, 12000) {
  auto& r = c.rng; fl::Inst I = fl::make(c, c.idx % fl::K_COUNT, r.pick(std::vector<int>{1, 2, 3, 5, 30, 300})); c.desc(I.name); int n = I.f->get_bv_size(); std::ostringstream o; I.f->display(o); bool k = I.f->has_known_maximum(); double s = k ? I.f->get_maximum() : 0; for (int t = 0; t < 12; t++) { BV x = fl::rbv(r, n, t == 0 ? 0 : t == 1 ? 1 : r.real()); s += I.f->evaluate(x); I.f->describe(x, o); if (I.f->provides_incremental_evaluation()) { sparse_bit_vector_t f; for (int i = 0; i < n; i++) if (r.chance(.2)) f.push_back(i); double v = I.f->evaluate(x); s += I.f->evaluate_incrementally(x, v, f); } } MON_CHECK(c, !std::isnan(s), "nan", "a value is not a number"); if (n <= 8) { std::vector<WalshTerm> t; compute_walsh_transform(I.f.get(), t); compute_fast_walsh_transform(I.f.get(), t); s += t.size(); } c.cover(I.name + fmt("%.17g", s)); c.count("displayed bytes", o.str().size());
}
struct Mo : mo::function::Function { int n, m; uint64_t salt; Mo(int n, int m, uint64_t s) : n(n), m(m), salt(s) {} int get_bv_size() const override { return n; } int get_output_size() const override { return m; } void evaluate(const BV& x, mo::function::value_t& v) override { for (int k = 0; k < m; k++) { uint64_t h = salt + k; for (auto b : x) h = mon::mix(h ^ (b + 3)); v[k] = salt % 3 == 0 ? double(h % 3) : salt % 3 == 1 ? double(h >> 12) : 7; } } };
CASES(nsga2, 300, 6000) {
  auto& r = c.rng; int n = r.range(1, 20), m = r.range(1, 4), mu = r.range(2, 20); mo::algorithm::Nsga2 A(n, m, mu); A.set_tournament_size(r.range(2, std::max(2, mu - 1))); A.set_num_iterations(r.range(1, 12)); A.set_crossover_probability(r.real()); A.set_mutation_rate(r.chance(.5) ? 1. / n : r.real(.01, .9)); A.set_allow_no_mutation(r.bit() || n == 1); int k = r.range(1, 3); uint64_t salt = r.next(); std::vector<std::unique_ptr<Mo>> fs; std::vector<mo::function::Function *> v; for (int i = 0; i < k; i++) { fs.emplace_back(new Mo(n, m, salt)); v.push_back(fs.back().get()); } omp_set_num_threads(r.range(1, 3)); c.desc(fmt("Nsga2 n=%d m=%d mu=%d functions=%d", n, m, mu, k)); if (mu < 3) { c.obs(); return; } A.minimize(v); auto& s = A.get_solutions(); MON_CHECK(c, s.get_size() > 0, "solutions", "no solution"); c.cover(c.description); c.count("nsga2");
}
int main(int a, char **v) { return mon::main(a, v); }
