// C03: incremental evaluation agrees with full evaluation along any history of flips.
#include "fnlib.hh"
#include "hnco/functions/modifiers/all.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/algorithms/local-search/all.hh"
#include "hnco/neighborhoods/neighborhood.hh"
#include "hnco/maps/map.hh"
using namespace fl;
using namespace hnco::function::controller;
using namespace hnco::function::modifier;

static std::string kn(const Inst& I) { return I.name.substr(0, I.name.find('(')); }
static sparse_bit_vector_t flips(mon::Rng& r, int n) {
  std::set<int> s;
  switch (r.below(8)) {
  case 0: break;
  case 1: case 2: s.insert(r.below(n)); break;
  case 3: { int k = r.range(1, std::min(n, 5)); while (int(s.size()) < k) s.insert(r.below(n)); break; }
  case 4: for (int i = 0; i < n; i++) s.insert(i); break;
  case 5: s.insert(0); s.insert(n - 1); break;
  case 6: { int a = r.below(n), b = r.below(n); if (a > b) std::swap(a, b); for (int i = a; i <= b; i++) s.insert(i); break; }
  default: for (int i = 0; i < n; i++) if (r.bit()) s.insert(i); break;
  }
  return sparse_bit_vector_t(s.begin(), s.end());
}

CASES(direct, 5760, 14400) {
  int kind = c.idx % K_COUNT; Inst I = make(c, kind); c.desc(I.name); Function& f = *I.f; int n = f.get_bv_size();
  if (I.incremental) MON_CHECK(c, f.provides_incremental_evaluation(), "not-provided:" + kn(I), "%s no longer provides incremental evaluation", I.name.c_str());
  if (!f.provides_incremental_evaluation()) { bool th = false; try { f.evaluate_incrementally(BV(n, 0), f.evaluate(BV(n, 0)), {0}); } catch (const std::exception&) { th = true; } MON_CHECK(c, th, "silent:" + kn(I), "incremental evaluation is not provided but does not fail"); return; }
  BV x = rbv(c.rng, n); double v = f.evaluate(x); double mag = 1; long steps = 0;
  double tol = I.tol == 0 ? 0 : 20 * std::fabs(I.tol);
  for (int t = 0; t < 60; t++) {
    auto s = flips(c.rng, n); double w = f.evaluate_incrementally(x, v, s); BV y = x; for (int i : s) y[i] ^= 1; double full = f.evaluate(y), ref = I.ref(y); mag = std::max(mag, std::fabs(full));
    MON_CHECK(c, std::fabs(w - full) <= tol + 1e-12 * (I.tol ? mag : 0) && mon::near(full, ref, 1e-9, tol + 1e-9 * (I.tol ? 1 : 0)), "incremental:" + kn(I), "%s: incremental value %.17g, full value %.17g, reference %.17g after flipping {%s} in %s (step %d)", I.name.c_str(), w, full, ref, mon::show(s).c_str(), mon::showbv(x).c_str(), t);
    // the origin must be left alone, and either continuation is allowed
    if (c.rng.chance(.7)) { x = y; v = c.rng.chance(.5) ? w : full; if (I.tol) v = full; steps++; }
  }
  c.count("accepted_steps", steps); c.cover(I.name + fmt("/%g", v)); c.sample(fmt("%s: 60 incremental evaluations, final value %g", I.name.c_str(), v));
}

CASES(through_decorators, 3000, 8000) {
  static const int kinds[] = {K_ONEMAX, K_LINEAR, K_ISING1, K_ISING2, K_W1, K_LO, K_W2};
  Inst I = make(c, kinds[c.rng.below(7)], 60); Function *f = I.f.get(); int n = f->get_bv_size(); std::vector<std::shared_ptr<Function>> own; std::string d = I.name; double sign = 1; bool blocked = false;
  ProgressTracker *tr = nullptr; CallCounter *cc = nullptr; int layers = c.rng.range(1, 5);
  for (int i = 0; i < layers; i++) { std::shared_ptr<Function> g; switch (c.rng.below(6)) {
    case 0: g = std::make_shared<OppositeFunction>(f); sign = -sign; d += "/opposite"; if (tr) tr = nullptr; break;
    case 1: { auto q = std::make_shared<ProgressTracker>(f); q->set_record_bit_vector(true); q->set_record_evaluation_time(c.rng.bit()); tr = q.get(); g = q; d += "/tracker"; break; }
    case 2: { auto q = std::make_shared<CallCounter>(f); cc = q.get(); g = q; d += "/counter"; break; }
    case 3: g = std::make_shared<OnBudgetFunction>(f, 1 << 20); d += "/budget"; break;
    case 4: g = std::make_shared<StopOnTarget>(f, INFINITY); d += "/stop"; break;
    default: if (c.rng.chance(.2)) { g = std::make_shared<Cache>(f); d += "/cache"; blocked = true; } else { g = std::make_shared<OnBudgetFunction>(f, 1 << 20); d += "/budget"; } }
    own.push_back(g); f = g.get(); }
  c.desc(d);
  bool inc = I.f->provides_incremental_evaluation() && !blocked;
  MON_CHECK(c, f->provides_incremental_evaluation() == inc, "decorator-claim", "provides_incremental_evaluation is %d, expected %d", f->provides_incremental_evaluation(), inc);
  if (!inc) return;
  BV x = rbv(c.rng, n); double v = f->evaluate(x); double tol = I.tol == 0 ? 0 : 20 * std::fabs(I.tol); int calls = 1; double best = v; BV bx = x; int bt = 1; 
  MON_CHECK(c, mon::near(v, sign * I.ref(x), 1e-9, tol + 1e-9), "decorator-value", "value %.17g, expected %.17g", v, sign * I.ref(x));
  for (int t = 0; t < 40; t++) { auto s = flips(c.rng, n); double w = f->evaluate_incrementally(x, v, s); calls++; BV y = x; for (int i : s) y[i] ^= 1; double ref = sign * I.ref(y);
    MON_CHECK(c, mon::near(w, ref, I.tol ? 1e-9 : 0, tol), "decorator-incremental", "incremental value %.17g, expected %.17g", w, ref);
    if (tr && w > best) { best = w; bx = y; bt = calls; }
    if (cc) MON_CHECK(c, cc->get_num_calls() == calls, "decorator-count", "%d calls counted, %d made", cc->get_num_calls(), calls);
    if (tr && tr == f) { auto e = tr->get_last_improvement(); MON_CHECK(c, e.num_evaluations == bt && e.solution.second == best && e.solution.first == bx && tr->get_num_calls() == calls, "decorator-tracker", "tracker records (%d, %.17g, %s), expected (%d, %.17g, %s)", e.num_evaluations, e.solution.second, mon::showbv(e.solution.first).c_str(), bt, best, mon::showbv(bx).c_str()); }
    if (c.rng.bit()) { x = y; v = w; } }
  c.cover(d + fmt("%g", v));
}

// A search that uses incremental evaluation visits the same points as one that does not.
CASES(search_equivalence, 1440, 3000) {
  using namespace hnco::algorithm; using namespace hnco::neighborhood;
  static const int kinds[] = {K_ONEMAX, K_LINEAR, K_ISING1, K_ISING2, K_W1};
  int kind = kinds[c.rng.below(5)]; Inst I = make(c, kind, 40); if (kind != K_ONEMAX && I.tol != 0) { // rounding may legitimately change decisions
    I.tol = -1; }
  int n = I.f->get_bv_size(); int its = c.rng.range(5, 80); unsigned seed = c.rng.next() & 0x7fffffff; int which = c.rng.below(2), nb = c.rng.below(4); c.desc(I.name + fmt(" %s nb=%d", which ? "random walk" : "RLS", nb));
  struct Rec : Decorator { std::vector<std::pair<BV, double>> log; Rec(Function *f) : Decorator(f) {} int get_bv_size() const { return _function->get_bv_size(); } bool provides_incremental_evaluation() const { return _function->provides_incremental_evaluation(); }
    double evaluate(const BV& x) { double v = _function->evaluate(x); log.push_back({x, v}); return v; }
    double evaluate_incrementally(const BV& x, double v, const sparse_bit_vector_t& s) { double w = _function->evaluate_incrementally(x, v, s); BV y = x; for (int i : s) y[i] ^= 1; log.push_back({y, w}); inc++; return w; } int inc = 0; };
  std::vector<std::pair<BV, double>> logs[2]; double sol[2]; int incs = 0;
  for (int k = 0; k < 2; k++) { hnco::random::Generator::set_seed(seed); std::unique_ptr<Neighborhood> N; if (nb == 0) N.reset(new SingleBitFlip(n)); else if (nb == 1) N.reset(new StandardBitMutation(n)); else if (nb == 2) N.reset(new HammingBall(n, std::min(n, 3))); else N.reset(new HammingSphere(n, std::min(n, 2)));
    Rec rec(I.f.get()); std::unique_ptr<LocalSearchAlgorithm<Neighborhood>> A; if (which) { auto a = new RandomWalk(n, N.get()); a->set_incremental_evaluation(k); A.reset(a); } else { auto a = new RandomLocalSearch(n, N.get()); a->set_incremental_evaluation(k); a->set_patience(0); A.reset(a); }
    A->set_num_iterations(its); A->maximize({&rec}); A->finalize(); logs[k] = rec.log; sol[k] = A->get_solution().second; incs += rec.inc; }
  MON_CHECK(c, incs > 0, "search-incremental", "incremental evaluation requested but never used");
  if (I.tol == 0) { MON_CHECK(c, logs[0] == logs[1], "search-trajectory", "incremental evaluation changes the trajectory (%d and %d evaluations)", int(logs[0].size()), int(logs[1].size())); MON_CHECK(c, sol[0] == sol[1], "search-solution", "incremental evaluation changes the solution"); }
  for (auto& p : logs[1]) MON_CHECK(c, mon::near(p.second, I.ref(p.first), 1e-7, 1e-7), "search-drift", "incremental value %.17g, reference %.17g", p.second, I.ref(p.first));
  c.cover(c.description + fmt("%g", sol[1])); c.count("trajectory_events", logs[1].size());
}
int main(int a, char **v) { return mon::main(a, v); }
