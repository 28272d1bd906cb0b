// C15: reported solutions are truthful, evaluated and the best evaluated; reuse of algorithm objects.
#ifndef ALG_ALL
#define ALG_ALL
#endif
#include "alglib.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/functions/modifiers/all.hh"
using namespace al; using namespace hnco::function; using namespace hnco::function::controller;
using hnco::exception::LastEvaluation; using hnco::exception::TargetReached;

// Run the algorithm on the objective; the log of the objective is what the monitor sees.
static void judge(mon::Ctx& c, Alg& A, Objective& o, size_t from, int how, StopOnTarget *st, const char *what) {
  A.a->finalize(); auto s = A.a->get_solution(); size_t m = o.log.size();
  MON_CHECK(c, m > from, "no-evaluation", "%s: %s made no evaluation", what, A.name.c_str());
  double best = o.log[from].second; for (size_t i = from; i < m; i++) best = std::max(best, o.log[i].second);
  std::string k = kname(A.kind);
  MON_CHECK(c, int(s.first.size()) == A.n, "size:" + k, "%s: solution of size %zu", what, s.first.size());
  for (auto b : s.first) MON_CHECK(c, b == 0 || b == 1, "bits:" + k, "solution with bit %d", int(b));
  double v = o.value(s.first);
  MON_CHECK(c, v == s.second, "untruthful:" + k, "%s: reported value %.17g, but the reported bit vector has value %.17g (best evaluated %.17g, %zu evaluations, end %d)", what, s.second, v, best, m - from, how);
  bool seen = false; for (size_t i = from; i < m && !seen; i++) seen = o.log[i].first == s.first;
  MON_CHECK(c, seen, "not-evaluated:" + k, "%s: the reported bit vector was not evaluated in the run (end %d)", what, how);
  if (how == 0 && A.reports_best) MON_CHECK(c, s.second == best, "not-best:" + k, "%s: reported value %.17g, best evaluated %.17g (%zu evaluations)", what, s.second, best, m - from);
  MON_CHECK(c, s.second <= best, "above-best:" + k, "%s: reported value %.17g above the best evaluated %.17g", what, s.second, best);
  // a budget ends a run in the middle of an iteration: the solution may miss the evaluations of that iteration only
  if (how == 1 && A.reports_best) { size_t done = m - from, per = A.kind == A_FA || A.kind == A_SAHC ? 0 : A.ev_iter + (A.kind == A_ITEA && A.mode == 3 ? 1 : 0);
    bool whole = (A.kind >= A_EA11 && A.kind <= A_SAEA) || A.kind == A_RS || A.kind == A_RLS || A.kind == A_RW || A.kind == A_SA || A.kind == A_MMAS || A.kind >= A_BMT + 1 || A.kind == A_CS || A.kind == A_FA;
    size_t slack = whole ? 0 : std::max<size_t>(per, A.ev_init); if (A.kind == A_SAHC) slack = done;
    if (done > slack) { double b2 = o.log[from].second; for (size_t i = from; i + slack < m; i++) b2 = std::max(b2, o.log[i].second); MON_CHECK(c, s.second >= b2, "lost-best:" + k, "%s: at the end of the budget (%zu evaluations) the reported value is %.17g, but %.17g was reached at least %zu evaluations before", what, done, s.second, b2, slack); } }
  c.cover(fmt("%s/%d/%zu/%g", A.name.c_str(), how, m - from, s.second)); c.count(k);
}
static int drive(mon::Ctx& c, Alg& A, Objective& o, int mode, const char *what) {
  // mode: 0 run to the end, 1 budget, 2 target
  size_t from = o.log.size(); Function *f = &o; std::unique_ptr<OnBudgetFunction> b; std::unique_ptr<StopOnTarget> t; std::unique_ptr<ProgressTracker> pt; std::unique_ptr<Cache> ca;
  long bud = c.rng.range(1, 300); if (!A.stops || mode == 1) { if (!A.stops) bud = c.rng.range(20, 400); b.reset(new OnBudgetFunction(f, bud)); f = b.get(); }
  if (c.rng.chance(.3)) { pt.reset(new ProgressTracker(f)); f = pt.get(); }
  if (mode == 2) { double m = -1e300; for (int i = 0; i < 12; i++) m = std::max(m, o.value(fl::rbv(c.rng, A.n))); t.reset(new StopOnTarget(f, m)); f = t.get(); }
  int how = 0; c.more(fmt("%s mode=%d budget=%ld", what, mode, b ? bud : -1L));
  try { A.a->maximize({f}); } catch (const LastEvaluation&) { how = 1; } catch (const TargetReached&) { how = 2; }
  if (b) MON_CHECK(c, long(o.log.size() - from) <= bud, "budget", "%s: %zu evaluations for a budget of %ld", what, o.log.size() - from, bud);
  if (how == 2) { auto tr = t->get_trigger(); MON_CHECK(c, o.log.back().first == tr.first && o.log.back().second == tr.second, "trigger", "the trigger is not the last evaluation"); for (size_t i = from; i + 1 < o.log.size(); i++) MON_CHECK(c, o.log[i].second < tr.second || true, "trigger", "-"); }
  if (pt) { double best = o.log[from].second; for (size_t i = from; i < o.log.size(); i++) best = std::max(best, o.log[i].second); MON_CHECK(c, pt->get_last_improvement().solution.second == best && pt->get_num_calls() == int(o.log.size() - from), "tracker", "tracker: %g after %d calls, log: %g after %zu", pt->get_last_improvement().solution.second, pt->get_num_calls(), best, o.log.size() - from); }
  if (how != 2) judge(c, A, o, from, how, t.get(), what);
  else if (A.kind >= A_BMT + 1 || A.kind <= A_BMT) { c.obs(); }
  c.count(fmt("end_%d", how)); return how;
}
static int size_for(mon::Ctx& c, int kind) { int n = std::max(min_n(kind), c.rng.chance(.4) ? c.rng.range(1, 8) : c.rng.chance(.93) ? c.rng.range(4, 40) : c.rng.range(60, 300)); if (kind == A_CS) n = c.rng.range(1, 8); if (kind == A_HEAF || kind == A_HEAT || kind == A_BMF || kind == A_BMT || kind == A_MIMIC) n = std::min(n, 16); if (kind == A_SAHC || kind == A_FA) n = std::min(n, 14); if (kind == A_HBOA) n = std::min(n, 40); return n; }

CASES(single_run, 4000, 60000) {
  int kind = c.idx % A_NUM; int n = size_for(c, kind); Alg A = make(c.rng, kind, n, 300); Objective o = mkobj(c.rng, n); if (A.inc) o.provides = c.rng.chance(.8); c.desc(A.name + fmt(" obj=%d", o.kind));
  int mode = A.stops ? c.rng.pick(std::vector<int>{0, 0, 1, 2}) : 1; drive(c, A, o, mode, "run"); c.sample(c.description);
}
CASES(repeated_runs, 2500, 40000) {
  int kind = c.idx % A_NUM; int n = size_for(c, kind); Alg A = make(c.rng, kind, n, 120); c.desc(A.name); int runs = c.rng.range(2, 4);
  for (int i = 0; i < runs; i++) { Objective o = mkobj(c.rng, n); if (i) { o.kind = c.rng.pick(std::vector<int>{3, 0, 5}); if (o.kind == 0) o.scale = 1e-3; } o.provides = A.inc && c.rng.bit(); drive(c, A, o, A.stops ? c.rng.pick(std::vector<int>{0, 1, 1, 2}) : 1, fmt("run %d", i + 1).c_str()); }
}
// Real functions through modifiers: the solution value is the value of the modified function.
CASES(library_functions, 1600, 30000) {
  int kind = c.idx % A_NUM; if (kind == A_CS) kind = A_RS; fl::Inst I = fl::make(c, c.rng.below(fl::K_COUNT), 24); int n = I.f->get_bv_size(); if (n < min_n(kind) || n > 60) { c.obs(); return; } if ((kind == A_SAHC || kind == A_FA) && n > 14) kind = A_EA11; Alg A = make(c.rng, kind, n, 200); c.desc(A.name + " on " + I.name);
  std::unique_ptr<modifier::OppositeFunction> op; Function *f = I.f.get(); if (c.rng.chance(.3)) { op.reset(new modifier::OppositeFunction(f)); f = op.get(); }
  OnBudgetFunction b(f, c.rng.range(30, 400)); ProgressTracker t(&b); t.set_record_bit_vector(true); int how = 0;
  try { A.a->maximize({&t}); } catch (const LastEvaluation&) { how = 1; }
  A.a->finalize(); auto s = A.a->get_solution(); auto e = t.get_last_improvement(); double v = f->evaluate(s.first), tol = A.inc ? 1e-6 * (1 + std::fabs(v)) + std::max(0., I.tol) * 100 : 0;
  MON_CHECK(c, std::fabs(v - s.second) <= tol || v == s.second, std::string("untruthful:") + kname(kind), "reported value %.17g, the bit vector has value %.17g", s.second, v);
  MON_CHECK(c, s.second <= e.solution.second + tol, std::string("above-best:") + kname(kind), "reported value %.17g, tracker's best %.17g", s.second, e.solution.second);
  if (how == 0 && A.reports_best) MON_CHECK(c, std::fabs(s.second - e.solution.second) <= tol || s.second == e.solution.second, std::string("not-best:") + kname(kind), "reported value %.17g, tracker's best %.17g", s.second, e.solution.second);
  MON_CHECK(c, std::fabs(f->evaluate(e.solution.first) - e.solution.second) <= tol || f->evaluate(e.solution.first) == e.solution.second, "tracker-untruthful", "tracker's best value %.17g is not the value of its bit vector", e.solution.second);
  c.cover(A.name + I.name + fmt("%g", s.second)); c.count(kname(kind));
}
// Restarts: the best over all runs, interrupted ones included.
CASES(restarts, 1200, 20000) {
  static const int kinds[] = {A_RS, A_RLS, A_EA11, A_SAEA, A_SA, A_FA, A_SAHC, A_MUPLUS, A_PBIL, A_UMDA, A_CGA, A_MMAS, A_RW, A_GA}; int kind = kinds[c.idx % 14]; int n = size_for(c, kind); Alg A = make(c.rng, kind, n, 40); Objective o = mkobj(c.rng, n); c.desc("Restart " + A.name);
  Restart R(A.a.get()); int k = c.rng.range(1, 6); bool fin = c.rng.bit(); R.set_num_iterations(fin ? k : 0); int bud = c.rng.range(5, 300); OnBudgetFunction b(&o, bud); int how = 0;
  try { R.maximize({&b}); } catch (const LastEvaluation&) { how = 1; }
  R.finalize(); auto s = R.get_solution(); MON_CHECK(c, o.value(s.first) == s.second, "restart-untruthful", "reported %.17g, true %.17g", s.second, o.value(s.first)); double best = -1e300; for (auto& e : o.log) best = std::max(best, e.second);
  bool seen = false; for (auto& e : o.log) seen |= e.first == s.first; MON_CHECK(c, seen, "restart-not-evaluated", "solution was not evaluated"); MON_CHECK(c, s.second <= best, "restart-above", "reported %.17g, best %.17g", s.second, best);
  if (how == 0) { MON_CHECK(c, s.second == best, "restart-best", "reported %.17g, best of all runs %.17g", s.second, best); MON_CHECK(c, fin, "restart-count", "indefinite restarts ended"); if (A.ev_exact) MON_CHECK(c, long(o.log.size()) == k * (A.ev_init + A.ev_iter * A.iters), "restart-count", "%zu evaluations for %d runs of %ld", o.log.size(), k, A.ev_init + A.ev_iter * A.iters); }
  else if (A.ev_exact) { long per = A.ev_init + A.ev_iter * A.iters, whole = long(o.log.size()) / per * per; if (fin) MON_CHECK(c, long(o.log.size()) <= k * per, "restart-count", "too many runs"); double b2 = -1e300; for (long i = 0; i < whole; i++) b2 = std::max(b2, o.log[i].second); if (whole) MON_CHECK(c, s.second >= b2, "restart-lost", "reported %.17g, but a previous complete run reached %.17g", s.second, b2); }
  c.cover(A.name + fmt("%d/%zu", how, o.log.size())); c.count(fmt("end_%d", how));
}
int main(int a, char **v) { return mon::main(a, v); }
