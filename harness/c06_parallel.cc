// C06: parallel evaluation: same values, each individual once, updates in order, no race; algorithms behave the same
// with any number of threads. Built twice: with libgomp under asan+ubsan, with omp_shim.cc under ThreadSanitizer.
#include "alglib.hh"
#include "hnco/algorithms/population.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/functions/modifiers/all.hh"
#include "hnco/functions/multivariate-function-adapter.hh"
#include "hnco/functions/collection/parsed-multivariate-function.hh"
#include "hnco/functions/converter.hh"
#include "hnco/maps/map.hh"
#include "hnco/multiobjective/algorithms/all.hh"
#include "hnco/multiobjective/functions/all.hh"
#include "hnco/multiobjective/functions/collection/all.hh"
#include "hnco/multiobjective/functions/multivariate-function-adapter.hh"
#include <atomic>
#include <omp.h>
#include <thread>
using namespace al; using namespace hnco::function; using namespace hnco::function::controller; using namespace hnco::function::modifier;
using hnco::exception::LastEvaluation; using hnco::exception::TargetReached;
extern "C" { extern long omp_shim_regions __attribute__((weak)); extern long omp_shim_threads __attribute__((weak)); extern unsigned omp_shim_seed __attribute__((weak)); }

static std::atomic<long> g_stamp{0};
static void jitter(uint64_t h) { switch (h % 5) { case 0: std::this_thread::yield(); break; case 1: usleep((h >> 8) % 40); break; case 2: for (volatile unsigned i = 0; i < (h >> 9) % 2000; i = i + 1) {} break; default: break; } }
// Probe of one thread: what it was asked to evaluate, with a global time stamp (relaxed: adds no synchronization).
struct Probe : Function {
  Function *f; uint64_t salt; bool delays; std::vector<std::pair<long, BV>> safe; std::vector<std::pair<BV, double>> upd; long full = 0; Probe(Function *g, uint64_t s, bool d) : f(g), salt(s), delays(d) {}
  int get_bv_size() const override { return f->get_bv_size(); }
  double evaluate(const BV& x) override { full++; return f->evaluate(x); }
  double evaluate_safely(const BV& x) override { if (delays) jitter(mon::mix(salt + safe.size())); double v = f->evaluate_safely(x); safe.push_back({g_stamp.fetch_add(1, std::memory_order_relaxed), x}); return v; }
  void update(const BV& x, double v) override { upd.push_back({x, v}); f->update(x, v); }
};
static int threads(mon::Ctx& c) { int k = c.rng.pick(std::vector<int>{1, 2, 2, 3, 4, 4, 5, 8}); omp_set_num_threads(c.rng.chance(.5) ? k : c.rng.range(1, 8)); if (&omp_shim_seed) omp_shim_seed = unsigned(c.rng.next()); return k; }
static void note_shim(mon::Ctx& c) { if (&omp_shim_regions) { static long r = 0, t = 0; c.count("parallel_regions_on_instrumented_runtime", omp_shim_regions - r); c.count("threads_on_instrumented_runtime", omp_shim_threads - t); r = omp_shim_regions; t = omp_shim_threads; } }

using Parsed = ParsedMultivariateFunction<FunctionParser>; using PRep = representation::DyadicFloatRepresentation<double>; using PAd = MultivariateFunctionAdapter<Parsed, PRep, ScalarToDouble<double>>;
struct Copy { fl::Inst I; std::shared_ptr<Parsed> p; std::vector<std::shared_ptr<void>> own; Function *f; };
// The function and modifiers of one thread; called once per thread with the same random choices, as the application does.
static Copy build(mon::Ctx& c, mon::Rng r0, unsigned gs, int kind, int maxn, std::string *name) {
  Copy y; c.rng = r0; random::Generator::set_seed(gs); std::string d;
  if (kind == fl::K_COUNT) { y.p = std::make_shared<Parsed>("x^2 + sin(y) * z - if(x < y, z, abs(x * z)) + exp(-y)"); y.p->parse(); std::vector<PRep> reps; for (int i = 0; i < 3; i++) reps.push_back(PRep(-2., 3., c.rng.range(2, 6))); auto a = std::make_shared<PAd>(y.p.get(), reps); y.own.push_back(a); y.f = a.get(); d = "Parsed"; }
  else { y.I = fl::make(c, kind, maxn); y.f = y.I.f.get(); d = y.I.name; }
  int L = c.rng.range(0, 3);
  for (int i = 0; i < L; i++) { int n = y.f->get_bv_size(); switch (c.rng.below(4)) {
    case 0: { auto g = std::make_shared<OppositeFunction>(y.f); y.own.push_back(g); y.f = g.get(); d += "/opposite"; break; }
    case 1: { auto m = std::make_shared<map::AffineMap>(); m->random(n, n, false); auto g = std::make_shared<FunctionMapComposition>(y.f, m.get()); y.own.push_back(m); y.own.push_back(g); y.f = g.get(); d += "/affine"; break; }
    case 2: { auto p = std::make_shared<map::Permutation>(); p->random(n); auto t = std::make_shared<map::Translation>(); t->random(n); auto m = std::make_shared<map::MapComposition>(p.get(), t.get()); auto g = std::make_shared<FunctionMapComposition>(y.f, m.get()); y.own.push_back(p); y.own.push_back(t); y.own.push_back(m); y.own.push_back(g); y.f = g.get(); d += "/composition"; break; }
    default: { auto g = std::make_shared<ParsedModifier>(y.f, "if(x > 1, x^2, x - 1)"); y.own.push_back(g); y.f = g.get(); d += "/parsed"; } } }
  if (name) *name = d; return y;
}

CASES(population, 1500, 20000) {
  int k = threads(c), kind = c.rng.below(fl::K_COUNT + 1), maxn = c.rng.chance(.7) ? 30 : 120; mon::Rng r0(c.rng.next()); mon::Rng keep = c.rng; unsigned gs = c.rng.next() & 0xffffff; std::string name;
  std::vector<Copy> cp; std::vector<std::unique_ptr<Probe>> pr; std::vector<Function *> fns; bool delays = c.rng.bit(); uint64_t salt = c.rng.next(); keep = c.rng;
  for (int i = 0; i < k; i++) { cp.push_back(build(c, r0, gs, kind, maxn, &name)); pr.emplace_back(new Probe(cp[i].f, salt + i * 1001, delays)); fns.push_back(pr[i].get()); }
  Copy ref = build(c, r0, gs, kind, maxn, nullptr); c.rng = keep; int n = ref.f->get_bv_size(), size = c.rng.chance(.3) ? c.rng.range(1, k + 1) : c.rng.range(1, 60); c.desc(fmt("%s population of %d on %d threads", name.c_str(), size, k));
  int extra = c.rng.below(3); for (int i = 0; i < extra; i++) { cp.push_back(build(c, r0, gs, kind, maxn, nullptr)); pr.emplace_back(new Probe(cp.back().f, salt + i * 77, delays)); fns.push_back(pr.back().get()); } c.rng = keep;
  Population P(size, n), Q(size, n); for (int i = 0; i < size; i++) { P.bvs[i] = c.rng.chance(.2) && i ? P.bvs[c.rng.below(i)] : fl::rbv(c.rng, n, c.rng.real()); } Q.bvs = P.bvs; auto before = P.bvs;
  int rounds = c.rng.range(1, 3); Q.evaluate(ref.f); std::string pattern;
  for (int t = 0; t < rounds; t++) {
    for (auto& v : P.values) v = -12345.678; for (auto& p : pr) { p->safe.clear(); p->upd.clear(); p->full = 0; }
    P.evaluate_in_parallel(fns);
    MON_CHECK(c, P.bvs == before, "bvs-changed", "evaluation changed the bit vectors");
    for (int i = 0; i < size; i++) MON_CHECK(c, mon::same_double(P.values[i], Q.values[i]), "value", "individual %d of %d: parallel value %.17g, sequential value %.17g", i, size, P.values[i], Q.values[i]);
    std::multiset<BV> a(before.begin(), before.end()), b; long used = 0, full = 0; std::map<long, int> order; for (size_t i = 0; i < pr.size(); i++) { for (auto& s : pr[i]->safe) { b.insert(s.second); order[s.first] = i; } used += !pr[i]->safe.empty(); full += pr[i]->full; }
    MON_CHECK(c, full == 0, "unsafe-evaluation", "%ld evaluations bypassed evaluate_safely", full);
    MON_CHECK(c, a == b, "once", "%zu evaluations for %d individuals, or not of the same bit vectors", b.size(), size);
    MON_CHECK(c, int(pr[0]->upd.size()) == size, "updates", "%zu updates for %d individuals", pr[0]->upd.size(), size);
    for (int i = 0; i < size; i++) MON_CHECK(c, pr[0]->upd[i].first == before[i] && mon::same_double(pr[0]->upd[i].second, Q.values[i]), "update-order", "update %d is not that of individual %d", i, i);
    for (size_t i = 1; i < pr.size(); i++) MON_CHECK(c, pr[i]->upd.empty(), "updates", "function of thread %zu got updates", i);
    pattern.clear(); for (auto& o : order) pattern += char('a' + o.second); c.cover("interleaving " + pattern); c.count(fmt("regions_with_%ld_threads_active", used)); if (order.size() > 1 && used > 1) c.count("multithreaded_regions");
  }
  c.sample(c.description + " interleaving " + pattern); note_shim(c);
}
// Controllers on the first function; the other threads have plain functions, as in the application.
CASES(controllers, 1200, 15000) {
  int k = threads(c), n = c.rng.range(2, 20); uint64_t salt = c.rng.next(); int ok = c.rng.below(6); std::vector<std::unique_ptr<Objective>> obj; std::vector<Function *> fns; for (int i = 0; i < k; i++) { obj.emplace_back(new Objective(n, ok, salt)); fns.push_back(obj[i].get()); }
  Objective so(n, ok, salt); long bud = c.rng.range(1, 200); double target = so.value(fl::rbv(c.rng, n)) + (c.rng.bit() ? 0 : 1e9); int mode = c.rng.below(4);
  auto stack = [&](Function *f, std::vector<std::shared_ptr<Function>>& own, ProgressTracker *&t, OnBudgetFunction *&b, Cache *&ca, StopOnTarget *&st) { auto a = std::make_shared<ProgressTracker>(f); t = a.get(); t->set_record_bit_vector(true); own.push_back(a); f = t; if (mode & 1) { auto z = std::make_shared<Cache>(f); ca = z.get(); own.push_back(z); f = ca; } auto bb = std::make_shared<OnBudgetFunction>(f, bud); b = bb.get(); own.push_back(bb); f = b; if (mode & 2) { auto s = std::make_shared<StopOnTarget>(f, target); st = s.get(); own.push_back(s); f = st; } return f; };
  std::vector<std::shared_ptr<Function>> o1, o2; ProgressTracker *t1, *t2; OnBudgetFunction *b1, *b2; Cache *c1 = nullptr, *c2 = nullptr; StopOnTarget *s1 = nullptr, *s2 = nullptr; fns[0] = stack(fns[0], o1, t1, b1, c1, s1); Function *seq = stack(&so, o2, t2, b2, c2, s2);
  c.desc(fmt("controllers mode %d budget %ld threads %d n %d", mode, bud, k, n)); int out1 = 0, out2 = 0; int rounds = c.rng.range(1, 5); std::set<BV> distinct;
  for (int r = 0; r < rounds && !out1; r++) {
    int size = c.rng.range(1, 40); Population P(size, n), Q(size, n); for (int i = 0; i < size; i++) { do P.bvs[i] = fl::rbv(c.rng, n); while (c1 && distinct.size() < (n < 10 ? 1u << n : 1u << 10) && !distinct.insert(P.bvs[i]).second); } Q.bvs = P.bvs;
    if (c1 && n < 8) break; // distinct points only: parallel safe evaluations bypass the cache
    try { P.evaluate_in_parallel(fns); } catch (const LastEvaluation&) { out1 = 1; } catch (const TargetReached&) { out1 = 2; }
    try { for (int i = 0; i < size; i++) { Q.values[i] = seq->evaluate_safely(Q.bvs[i]); seq->update(Q.bvs[i], Q.values[i]); } } catch (const LastEvaluation&) { out2 = 1; } catch (const TargetReached&) { out2 = 2; }
    MON_CHECK(c, out1 == out2, "signal", "parallel evaluation ended with %d, sequential with %d (0 none, 1 last evaluation, 2 target)", out1, out2);
    if (!out1) for (int i = 0; i < size; i++) MON_CHECK(c, P.values[i] == Q.values[i], "value", "individual %d", i);
    MON_CHECK(c, t1->get_num_calls() == t2->get_num_calls() && b1->get_num_calls() == b2->get_num_calls() && b1->get_num_calls() <= bud, "count", "counted %d (tracker) %d (budget) evaluations, sequential %d %d, budget %ld", t1->get_num_calls(), b1->get_num_calls(), t2->get_num_calls(), b2->get_num_calls(), bud);
    auto e1 = t1->get_last_improvement(), e2 = t2->get_last_improvement(); MON_CHECK(c, e1.num_evaluations == e2.num_evaluations, "tracker", "improvement at %d, sequential %d", e1.num_evaluations, e2.num_evaluations); if (e1.num_evaluations > 0) MON_CHECK(c, e1.solution.first == e2.solution.first && e1.solution.second == e2.solution.second, "tracker", "improvement differs");
    if (out1 == 2) MON_CHECK(c, s1->get_trigger().first == s2->get_trigger().first && s1->get_trigger().second == s2->get_trigger().second, "trigger", "trigger differs");
    c.cover(fmt("%d/%d/%d/%d/%g", k, mode, out1, t1->get_num_calls(), t1->get_num_calls() ? e1.solution.second : 0.));
  }
  c.count(fmt("controllers_end_%d", out1)); note_shim(c);
}
// Algorithms: k threads against one thread, same seed.
CASES(algorithms, 1100, 16000) {
  static std::vector<int> ks; if (ks.empty()) for (int k = 0; k < A_NUM; k++) { mon::Rng q(5); if (make(q, k, 12).parallel) ks.push_back(k); }
  int kind = ks[c.idx % ks.size()], k = threads(c), n = std::max(min_n(kind), c.rng.range(3, 14)); uint64_t as = c.rng.next(), salt = c.rng.next(); int ok = c.rng.below(6); unsigned gs = c.rng.next() & 0xffffff; long bud = c.rng.chance(.3) ? c.rng.range(1, 200) : 0; double scale = c.rng.pick(std::vector<double>{1, 1e-3, 1e5}); bool tracker = c.rng.bit();
  struct Out { std::vector<std::pair<BV, double>> log; solution_t sol; int how = 0; double tv = 0; int tn = 0, tc = 0; };
  auto go = [&](int k, std::string& name) { Out o; mon::Rng r(as); Alg A = make(r, kind, n, 150); name = A.name; std::vector<std::unique_ptr<Objective>> obj; std::vector<Function *> fns; for (int i = 0; i < k; i++) { obj.emplace_back(new Objective(n, ok, salt)); obj[i]->scale = scale; fns.push_back(obj[i].get()); }
    std::unique_ptr<OnBudgetFunction> b; std::unique_ptr<ProgressTracker> t; if (tracker) { t.reset(new ProgressTracker(fns[0])); fns[0] = t.get(); } if (bud) { b.reset(new OnBudgetFunction(fns[0], bud)); fns[0] = b.get(); }
    omp_set_num_threads(as & 1 ? k : 1 + int(as % 8)); random::Generator::set_seed(gs); try { A.a->maximize(fns); A.a->finalize(); o.sol = A.a->get_solution(); } catch (const LastEvaluation&) { o.how = 1; } if (t) { o.tv = t->get_last_improvement().solution.second; o.tn = t->get_last_improvement().num_evaluations; o.tc = t->get_num_calls(); } o.log = obj[0]->log;
    for (int i = 1; i < k; i++) if (!obj[i]->log.empty()) c.fail("other-thread-updated", A.name + ": the function of another thread got full evaluations or updates"); return o; };
  std::string name; Out a = go(1, name); c.desc(name + fmt(" obj=%d threads=%d budget=%ld", ok, k, bud)); Out b = go(k, name);
  MON_CHECK(c, a.log.size() == b.log.size() && a.how == b.how, "count", "%zu evaluations with one thread, %zu with %d", a.log.size(), b.log.size(), k);
  for (size_t i = 0; i < a.log.size(); i++) MON_CHECK(c, a.log[i] == b.log[i], "trace", "evaluation %zu differs: %s=%.17g with one thread, %s=%.17g with %d", i, mon::showbv(a.log[i].first).c_str(), a.log[i].second, mon::showbv(b.log[i].first).c_str(), b.log[i].second, k);
  MON_CHECK(c, a.tv == b.tv && a.tn == b.tn && a.tc == b.tc, "progress", "progress differs: %g@%d/%d with one thread, %g@%d/%d with %d", a.tv, a.tn, a.tc, b.tv, b.tn, b.tc, k);
  if (a.how == 0) MON_CHECK(c, a.sol == b.sol, "solution", "solution differs: %.17g / %.17g", a.sol.second, b.sol.second);
  c.cover(name + fmt("%d/%zu", k, a.log.size())); c.count(kname(kind)); note_shim(c);
}
// A failing evaluation reaches the caller as the exception it raised, and nothing is recorded for that population
struct Failing : Objective { std::set<BV> bad; using Objective::Objective; double evaluate_safely(const BV& x) override { if (bad.count(x)) throw std::runtime_error("evaluation " + mon::showbv(x)); return Objective::evaluate_safely(x); } double evaluate(const BV& x) override { if (bad.count(x)) throw std::runtime_error("evaluation " + mon::showbv(x)); return Objective::evaluate(x); } };
CASES(failing_evaluation, 300, 5000) {
  int k = threads(c), n = c.rng.range(5, 20), size = c.rng.range(1, 40), nb = c.rng.range(0, 3); uint64_t salt = c.rng.next(); Population P(size, n); for (auto& x : P.bvs) x = fl::rbv(c.rng, n); std::set<BV> bad; for (int i = 0; i < nb; i++) bad.insert(P.bvs[c.rng.below(size)]); c.desc(fmt("%d failing evaluations in a population of %d on %d threads", nb, size, k)); std::vector<std::unique_ptr<Failing>> f; std::vector<Function *> fns; for (int i = 0; i < k; i++) { f.emplace_back(new Failing(n, 0, salt)); f[i]->bad = bad; fns.push_back(f[i].get()); }
  std::string what; int how = 0; try { P.evaluate_in_parallel(fns); } catch (const std::runtime_error& e) { how = 1; what = e.what(); } bool ok = what.empty(); for (auto& x : bad) ok |= what == "evaluation " + mon::showbv(x); MON_CHECK(c, how == (nb > 0) && ok, "failure", "%d evaluations failed, the caller got %s", nb, how ? what.c_str() : "no exception"); MON_CHECK(c, f[0]->log.size() == size_t(nb ? 0 : size), "failure-update", "%zu updates", f[0]->log.size()); c.count(nb ? "failed" : "completed"); c.cover(c.description); note_shim(c);
}
namespace mo = hnco::multiobjective;
struct MoProbe : mo::function::Function { int n, m; uint64_t salt; std::vector<double> buf; std::vector<BV> log; bool delays; MoProbe(int n, int m, uint64_t s, bool d) : n(n), m(m), salt(s), buf(m), delays(d) {} int get_bv_size() const override { return n; } int get_output_size() const override { return m; }
  void evaluate(const BV& x, mo::function::value_t& v) override { if (delays) jitter(mon::mix(salt + log.size())); log.push_back(x); for (int j = 0; j < m; j++) { uint64_t h = salt + j; for (size_t i = 0; i < x.size(); i++) h = mon::mix(h ^ (x[i] ? i + 3 : 1)); buf[j] = double(h % 1000); } for (int j = 0; j < m; j++) v[j] = buf[j]; } };
CASES(mo_population, 500, 8000) {
  int k = threads(c), n = c.rng.range(1, 40), m = c.rng.range(1, 4), size = c.rng.range(1, 50); uint64_t salt = c.rng.next(); std::vector<std::unique_ptr<MoProbe>> pr; std::vector<mo::function::Function *> fns; bool d = c.rng.bit(); for (int i = 0; i < k; i++) { pr.emplace_back(new MoProbe(n, m, salt, d)); fns.push_back(pr[i].get()); }
  c.desc(fmt("multiobjective population of %d, %d bits, %d objectives, %d threads", size, n, m, k)); mo::algorithm::Population P(size, n, m), Q(size, n, m); for (auto& x : P.bvs) x = fl::rbv(c.rng, n); Q.bvs = P.bvs; MoProbe ref(n, m, salt, false); Q.evaluate(&ref); P.evaluate_in_parallel(fns);
  MON_CHECK(c, P.bvs == Q.bvs, "bvs-changed", "evaluation changed the bit vectors"); for (int i = 0; i < size; i++) MON_CHECK(c, P.values[i] == Q.values[i], "value", "individual %d: parallel and sequential values differ", i);
  std::multiset<BV> a(Q.bvs.begin(), Q.bvs.end()), b; long used = 0; for (auto& p : pr) { b.insert(p->log.begin(), p->log.end()); used += !p->log.empty(); } MON_CHECK(c, a == b, "once", "%zu evaluations for %d individuals", b.size(), size); c.cover(fmt("%d/%d/%d/%d", k, n, m, size)); c.count(fmt("regions_with_%ld_threads_active", used)); note_shim(c);
}
CASES(mo_failing_evaluation, 200, 3000) {
  int k = threads(c), n = c.rng.range(5, 20), size = c.rng.range(1, 40), nb = c.rng.range(0, 3); uint64_t salt = c.rng.next(); mo::algorithm::Population P(size, n, 2); for (auto& x : P.bvs) x = fl::rbv(c.rng, n); std::set<BV> bad; for (int i = 0; i < nb; i++) bad.insert(P.bvs[c.rng.below(size)]); c.desc(fmt("%d failing evaluations in a multiobjective population of %d on %d threads", nb, size, k));
  struct MF : MoProbe { std::set<BV> bad; using MoProbe::MoProbe; void evaluate(const BV& x, mo::function::value_t& v) override { if (bad.count(x)) throw std::runtime_error("evaluation"); MoProbe::evaluate(x, v); } }; std::vector<std::unique_ptr<MF>> f; std::vector<mo::function::Function *> fns; for (int i = 0; i < k; i++) { f.emplace_back(new MF(n, 2, salt, false)); f[i]->bad = bad; fns.push_back(f[i].get()); }
  std::string what; int how = 0; try { P.evaluate_in_parallel(fns); } catch (const std::runtime_error& e) { how = 1; what = e.what(); } MON_CHECK(c, how == (nb > 0) && (!how || what == "evaluation"), "failure", "%d evaluations failed, the caller got %s", nb, how ? what.c_str() : "no exception"); c.count(nb ? "failed" : "completed"); c.cover(c.description); note_shim(c);
}
int main(int a, char **v) { return mon::main(a, v); }
