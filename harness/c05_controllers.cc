// C05: controllers: exact accounting, budget, target, cache, over random histories of calls.
#include "fnlib.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/exception.hh"
using namespace fl;
using namespace hnco::function::controller;
using hnco::exception::LastEvaluation; using hnco::exception::TargetReached;

struct Base : Function { Function *f; long evals = 0, incs = 0, safes = 0, updates = 0; Base(Function *g) : f(g) {} int get_bv_size() const { return f->get_bv_size(); } bool provides_incremental_evaluation() const { return f->provides_incremental_evaluation(); }
  bool has_known_maximum() const { return f->has_known_maximum(); } double get_maximum() const { return f->get_maximum(); }
  double evaluate(const BV& x) { evals++; return f->evaluate(x); } double evaluate_incrementally(const BV& x, double v, const sparse_bit_vector_t& s) { incs++; return f->evaluate_incrementally(x, v, s); } double evaluate_safely(const BV& x) { safes++; return f->evaluate_safely(x); } void update(const BV&, double) { updates++; } };

enum { OK, LAST, TARGET };
// Specification of one controller.
struct Model { virtual ~Model() {} Model *in = nullptr; virtual int call(const BV& y, double v, bool safe) = 0; };   // outcome of evaluating y (true value v)
struct MBase : Model { long n = 0; int call(const BV&, double, bool) override { n++; return OK; } };
struct MCount : Model { long n = 0; int call(const BV& y, double v, bool s) override { int o = in->call(y, v, s); if (o == OK) n++; return o; } };
struct MBudget : MCount { long b; int call(const BV& y, double v, bool s) override { if (n >= b) return LAST; return MCount::call(y, v, s); } };
struct MTrack : MCount { long when = 0; double best = 0; BV bv; std::vector<std::pair<long, double>> log; int call(const BV& y, double v, bool s) override { int o = MCount::call(y, v, s); if (o == OK && (n == 1 || v > best)) { best = v; bv = y; when = n; log.push_back({n, v}); } return o; } };
struct MCache : Model { std::map<BV, double> m; long ev = 0, hit = 0; bool amb = false; int call(const BV& y, double v, bool s) override { if (!s) { ev++; if (m.count(y)) { hit++; return OK; } } int o = in->call(y, v, s); if (o == OK) { m[y] = v; if (s) { ev++; amb = true; } } else amb = true; return o; } };
struct MStop : Model { double t; BV bv; double v = 0; int call(const BV& y, double val, bool s) override { int o = in->call(y, val, s); if (o == OK && val >= t) { bv = y; v = val; return TARGET; } return o; } };

CASES(histories, 6400, 24000) {
  static const int kinds[] = {K_ONEMAX, K_LINEAR, K_LO, K_TRAP, K_JUMP, K_ISING1, K_PARTITION, K_RIDGE, K_NEEDLE, K_W1};
  int kind = kinds[c.rng.below(10)]; Inst I = make(c, kind, c.rng.chance(.6) ? 6 : c.rng.chance(.7) ? 40 : 300); int n = I.f->get_bv_size(); Base base(I.f.get()); bool inc = I.f->provides_incremental_evaluation() && I.tol == 0;
  std::vector<std::shared_ptr<Function>> own; std::vector<std::shared_ptr<Model>> models; Function *f = &base; auto mb = std::make_shared<MBase>(); models.push_back(mb); Model *m = mb.get(); std::string d = I.name; bool cache = false, logged = false;
  struct Pair { Function *f; Model *m; int kind; }; std::vector<Pair> layers; int L = c.rng.range(1, 4); double target = 0;
  auto push = [&](std::shared_ptr<Function> g, std::shared_ptr<Model> q, int k) { q->in = m; own.push_back(g); models.push_back(q); f = g.get(); m = q.get(); layers.push_back({f, m, k}); };
  for (int i = 0; i < L; i++) switch (c.rng.below(4)) {
    case 0: { auto t = std::make_shared<ProgressTracker>(f); t->set_record_bit_vector(true); t->set_record_evaluation_time(c.rng.bit()); if (!logged && c.rng.bit()) { t->set_log_improvement(true); logged = true; push(t, std::make_shared<MTrack>(), 10); } else push(t, std::make_shared<MTrack>(), 0); d += "/tracker"; break; }
    case 1: { int b = c.rng.chance(.8) ? c.rng.range(1, 60) : c.rng.range(61, 1500); auto q = std::make_shared<MBudget>(); q->b = b; push(std::make_shared<OnBudgetFunction>(f, b), q, 1); d += fmt("/budget(%d)", b); break; }
    case 2: push(std::make_shared<Cache>(f), std::make_shared<MCache>(), 2); d += "/cache"; cache = true; inc = false; break;
    default: push(std::make_shared<CallCounter>(f), std::make_shared<MCount>(), 3); d += "/counter"; }
  if (c.rng.chance(.7)) { auto ps = points(c, I, 6); target = I.f->evaluate(ps[c.rng.below(ps.size())]) + c.rng.pick(std::vector<double>{0, 0, .5, -.5, 1}); auto q = std::make_shared<MStop>(); q->t = target;
    if (I.tol == 0 && I.f->has_known_maximum() && c.rng.chance(.3)) { q->t = target = I.f->get_maximum(); push(std::make_shared<StopOnMaximum>(f), q, 4); d += "/stop-on-maximum"; } else { push(std::make_shared<StopOnTarget>(f, target), q, 4); d += fmt("/target(%g)", target); } }
  c.desc(d); MON_CHECK(c, f->get_bv_size() == n, "size", "controllers change the size"); MON_CHECK(c, f->provides_incremental_evaluation() == (I.f->provides_incremental_evaluation() && !cache), "incremental-claim", "wrong incremental claim");
  std::vector<BV> pool; for (auto& x : points(c, I, 8)) { pool.push_back(x); if (pool.size() > 14) break; } BV cur = pool[0]; double curv = I.f->evaluate(cur); std::map<BV, double> truth;
  auto val = [&](const BV& x) { auto it = truth.find(x); if (it == truth.end()) it = truth.insert({x, I.f->evaluate(x)}).first; return it->second; };
  mon::Capture cap(std::cout); int mode = c.rng.below(4); std::string hist; long nops = c.rng.chance(.95) ? c.rng.range(5, 120) : c.rng.range(500, 1800), lasts = 0, targets = 0;
  for (long t = 0; t < nops; t++) {
    BV y = c.rng.chance(.5) ? c.rng.pick(pool) : c.rng.chance(.3) ? cur : rbv(c.rng, n, c.rng.real()); if (c.rng.chance(.2)) { int j = c.rng.bit() ? n - 1 : c.rng.below(n); y[j] ^= 1; } int op = mode == 0 ? 0 : mode == 1 ? (inc ? 1 : 0) : mode == 2 ? 2 : c.rng.below(3); if (op == 1 && !inc) op = 0;
    sparse_bit_vector_t s; if (op == 1) { y = cur; int k = c.rng.range(0, std::min(n, 3)); std::set<int> q; while (int(q.size()) < k) q.insert(c.rng.below(n)); s.assign(q.begin(), q.end()); for (int i : s) y[i] ^= 1; }
    double v = val(y), got = v; int out = OK; long before = base.evals + base.incs + base.safes;
    long mbn = mb->n; int want = m->call(y, v, op == 2);
    try { if (op == 0) got = f->evaluate(y); else if (op == 1) got = f->evaluate_incrementally(cur, curv, s); else { got = f->evaluate_safely(y); f->update(y, got); } }
    catch (const TargetReached&) { out = TARGET; targets++; } catch (const LastEvaluation&) { out = LAST; lasts++; }
    hist += fmt("%s%c%d:%g%s", hist.empty() ? "" : " ", "eis"[op], int(fl::wt(y)), v, out == OK ? "" : out == LAST ? "!L" : "!T");
    if (hist.size() < 3000) c.desc(d + " | " + hist);
    MON_CHECK(c, out == want, out == LAST || want == LAST ? "budget" : "target", "step %ld: outcome %s, expected %s", t, out == OK ? "value" : out == LAST ? "LastEvaluation" : "TargetReached", want == OK ? "value" : want == LAST ? "LastEvaluation" : "TargetReached");
    if (out == OK) MON_CHECK(c, got == v, "value", "step %ld: value %.17g, expected %.17g", t, got, v);
    long calls = base.evals + base.incs + base.safes - before; if (op != 2) MON_CHECK(c, calls == mb->n - mbn, "inner-calls", "step %ld: the function was called %ld times, expected %ld", t, calls, mb->n - mbn);
    if (op == 2) MON_CHECK(c, calls == 1, "safe-calls", "step %ld: safe evaluation calls the function %ld times", t, calls);
    for (auto& l : layers) switch (l.kind) {
      case 0: case 10: { auto T = static_cast<ProgressTracker *>(l.f); auto M = static_cast<MTrack *>(l.m); auto e = T->get_last_improvement(); MON_CHECK(c, T->get_num_calls() == M->n, "tracker-calls", "step %ld: tracker counts %d evaluations, %ld were made", t, T->get_num_calls(), M->n); if (M->n) MON_CHECK(c, e.num_evaluations == M->when && e.solution.second == M->best && e.solution.first == M->bv, "tracker-improvement", "step %ld: last improvement (%d, %.17g), expected (%ld, %.17g)", t, e.num_evaluations, e.solution.second, M->when, M->best); else MON_CHECK(c, e.num_evaluations == 0, "tracker-improvement", "improvement without evaluation"); MON_CHECK(c, T->get_evaluation_time() >= 0 && T->get_evaluation_time() < 1e6, "tracker-time", "evaluation time %g", T->get_evaluation_time()); break; }
      case 1: MON_CHECK(c, static_cast<CallCounter *>(l.f)->get_num_calls() == static_cast<MBudget *>(l.m)->n && static_cast<MBudget *>(l.m)->n <= static_cast<MBudget *>(l.m)->b, "budget-calls", "step %ld: %d evaluations counted, %ld made", t, static_cast<CallCounter *>(l.f)->get_num_calls(), static_cast<MBudget *>(l.m)->n); break;
      case 2: { auto M = static_cast<MCache *>(l.m); if (M->ev && !M->amb) MON_CHECK(c, mon::near(static_cast<Cache *>(l.f)->get_lookup_ratio(), double(M->hit) / M->ev, 1e-12), "cache-ratio", "step %ld: lookup ratio %.17g, expected %ld/%ld", t, static_cast<Cache *>(l.f)->get_lookup_ratio(), M->hit, M->ev); break; }
      case 3: MON_CHECK(c, static_cast<CallCounter *>(l.f)->get_num_calls() == static_cast<MCount *>(l.m)->n, "counter", "step %ld: %d calls counted, %ld made", t, static_cast<CallCounter *>(l.f)->get_num_calls(), static_cast<MCount *>(l.m)->n); break;
      case 4: if (out == TARGET) { auto M = static_cast<MStop *>(l.m); auto tr = static_cast<StopOnTarget *>(l.f)->get_trigger(); MON_CHECK(c, tr.first == M->bv && tr.second == M->v, "trigger", "step %ld: trigger (%s, %.17g), expected (%s, %.17g)", t, mon::showbv(tr.first).c_str(), tr.second, mon::showbv(M->bv).c_str(), M->v); } break; }
    if (op == 1 && out == OK && c.rng.bit()) { cur = y; curv = v; }
    if (op != 1 && c.rng.chance(.1)) { cur = y; curv = v; }
  }
  if (logged) { std::string want; for (auto& l : layers) if (l.kind == 10) for (auto& e : static_cast<MTrack *>(l.m)->log) { std::ostringstream o; o << e.first << " " << e.second << "\n"; want += o.str(); } MON_CHECK(c, cap.str() == want, "improvement-log", "log is '%s', expected '%s'", cap.str().substr(0, 300).c_str(), want.substr(0, 300).c_str()); c.count("improvement_logs"); }
  else MON_CHECK(c, cap.str().empty(), "improvement-log", "unexpected output");
  c.count("events", nops); c.count("last_evaluations", lasts); c.count("targets", targets); c.cover(d + hist); c.sample(d + " | " + hist.substr(0, 200));
}
// Evaluation time: the processor time spent in the function, no more than the process spent, nothing when it is not recorded.
struct Burner : Function { int n; double ms; clock_t spent = 0; int calls = 0; Burner(int n, double ms) : n(n), ms(ms) {} int get_bv_size() const { return n; } double evaluate(const BV&) { clock_t a = clock(), b; do b = clock(); while (double(b - a) / CLOCKS_PER_SEC * 1000 < ms); spent += b - a; calls++; return calls; } };
CASES(evaluation_time, 16, 120) {
  auto& r = c.rng; Burner f(r.range(1, 9), r.real(4, 12)); ProgressTracker t(&f); bool rec = c.idx % 4 != 3; t.set_record_evaluation_time(rec); c.desc(fmt("evaluation time, %.1f ms per evaluation, recorded %d", f.ms, rec)); MON_CHECK(c, t.get_evaluation_time() == 0, "evaluation-time-start", "%g s before any evaluation", t.get_evaluation_time()); clock_t a = clock(); double prev = 0; int m = r.range(1, 5);
  for (int i = 0; i < m; i++) { t.evaluate(rbv(r, f.n)); double now = t.get_evaluation_time(), inside = double(f.spent) / CLOCKS_PER_SEC, outside = double(clock() - a) / CLOCKS_PER_SEC; if (!rec) { MON_CHECK(c, now == 0, "evaluation-time-off", "%g s recorded although recording is off", now); continue; } MON_CHECK(c, now >= inside - 1e-9, "evaluation-time-short", "%g s recorded for %g s of evaluations", now, inside); MON_CHECK(c, now <= outside + 1e-9, "evaluation-time-long", "%g s recorded, the process has spent %g s since the start", now, outside); MON_CHECK(c, now >= prev, "evaluation-time-back", "the evaluation time decreases"); prev = now; Burner idle(1, r.real(1, 6)); idle.evaluate(BV(1)); MON_CHECK(c, t.get_evaluation_time() == now, "evaluation-time-idle", "the evaluation time changes between evaluations"); }
  if (rec && m > 1) { double outside = double(clock() - a) / CLOCKS_PER_SEC; MON_CHECK(c, t.get_evaluation_time() < outside, "evaluation-time-long", "time outside evaluations is counted"); } MON_CHECK(c, t.get_num_calls() == m && t.get_last_improvement().num_evaluations == m, "evaluation-time-count", "%d calls", t.get_num_calls()); c.cover(fmt("%d %d %a", m, rec, f.ms)); c.count(rec ? "timed evaluations" : "untimed evaluations", m);
}
int main(int a, char **v) { return mon::main(a, v); }
