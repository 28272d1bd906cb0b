// C16: what each algorithm promises about its own course, judged from the trace of its evaluations.
#include "alglib.hh"
#include "hnco/functions/controllers/all.hh"
#include <map>
#include <set>
using namespace al; using namespace hnco::function; using namespace hnco::function::controller;
using hnco::exception::LastEvaluation;
typedef std::vector<std::pair<BV, double>> Log;

// Sum of bounded martingale differences; far() is false except with probability 1e-12 (Bernstein).
struct Mart { double s = 0, v = 0, m = 0; long k = 0; void add(double x, double mean, double var, double bound) { s += x - mean; v += var; m = std::max(m, bound); k++; } bool far() const { double t = std::fabs(s); return t > 1e-9 && t * t / (2 * (v + m * t / 3)) > 29; } };
struct Flips { Mart a; void add(int d, int n, double p, bool no_mut) { double e = n * p, e2 = n * p * (1 - p) + e * e; if (!no_mut) { double q = -std::expm1(n * std::log1p(-std::min(p, 1 - 1e-15))); e /= q; e2 /= q; } a.add(d, e, std::max(0., e2 - e * e), n); } };
static BV flip_all(BV x) { for (auto& b : x) b = !b; return x; }
static double binom(int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return std::round(r); }
static Objective distinct(mon::Rng& r, int n) { Objective o(n, 0, r.next()); o.scale = r.pick(std::vector<double>{1, 1e5}); return o; }
static std::vector<std::vector<double>> numbers(const std::string& s) { std::vector<std::vector<double>> v; std::istringstream in(s); std::string l; while (std::getline(in, l)) { std::istringstream q(l); double x; std::vector<double> w; while (q >> x) w.push_back(x); v.push_back(w); } return v; }
static int run(Alg& A, std::vector<Function *> f) { try { A.a->maximize(f); } catch (const LastEvaluation&) { return 1; } A.a->finalize(); return 0; }

// ---- number of evaluations
CASES(evaluation_count, 2400, 40000) {
  int kind = c.idx % A_NUM; int n = std::max(min_n(kind), c.rng.upto(1, 16, 200, .03)); if (kind == A_CS) n = c.rng.range(1, 12); Alg A = make(c.rng, kind, n, 200); Objective o = mkobj(c.rng, n); c.desc(A.name + fmt(" obj=%d", o.kind));
  if (A.ev_exact) {
    int reps = c.rng.range(1, 2); for (int k = 0; k < reps; k++) { o.log.clear(); run(A, {&o}); long want = A.ev_init + A.ev_iter * A.iters;
      MON_CHECK(c, long(o.log.size()) == want, fmt("count:%s", kname(kind)), "%s: %zu evaluations, its parameters imply %ld (run %d)", A.name.c_str(), o.log.size(), want, k + 1); }
    c.cover(A.name); c.count(kname(kind));
  } else if (kind != A_CS) { run(A, {&o}); long per = kind == A_ITEA ? A.pop + 1 : kind == A_RLS ? 1 : long(binom(n, A.radius)); if (A.iters > 0) MON_CHECK(c, long(o.log.size()) <= A.ev_init + per * A.iters, fmt("count:%s", kname(kind)), "%zu evaluations in at most %d iterations", o.log.size(), A.iters); c.obs(); c.count(kname(kind)); }
}
CASES(no_limit, 800, 12000) { // zero or negative number of iterations: only the budget ends the run
  int kind = c.idx % A_NUM; if (kind == A_CS || kind == A_FA || kind == A_SAHC) return; int n = std::max(min_n(kind), c.rng.upto(1, 14, 200, .03)); Alg A = make(c.rng, kind, n, 100); if (kind == A_RLS) dynamic_cast<RandomLocalSearch&>(*A.a).set_patience(c.rng.range(-2, 0));
  int it = c.rng.range(-3, 0); if (auto *p = dynamic_cast<IterativeAlgorithm *>(A.a.get())) p->set_num_iterations(it); else if (auto *q = dynamic_cast<OnePlusOneEa *>(A.a.get())) q->set_num_iterations(it); else return;
  Objective o = mkobj(c.rng, n); int b = c.rng.range(1, 1500); OnBudgetFunction f(&o, b); c.desc(A.name + fmt(" unlimited (%d), budget %d", it, b)); int how = run(A, {&f});
  MON_CHECK(c, how == 1 && int(o.log.size()) == b, fmt("unlimited:%s", kname(kind)), "unlimited number of iterations: the run ended by %s after %zu evaluations, budget %d", how ? "the budget" : "itself", o.log.size(), b); c.cover(A.name + fmt("%d", b)); c.count(kname(kind));
}
CASES(restart, 800, 15000) {
  int kind = c.rng.below(A_NUM); if (kind == A_CS) kind = A_RLS; int n = std::max(min_n(kind), c.rng.range(1, 12)); Alg A = make(c.rng, kind, n, 60); Objective o = mkobj(c.rng, n); Restart R(A.a.get()); int k = c.rng.range(1, 6); R.set_num_iterations(k); c.desc(fmt("Restart(%d) of ", k) + A.name);
  R.maximize({&o}); R.finalize(); auto s = R.get_solution(); double best = -INFINITY; for (auto& e : o.log) best = std::max(best, e.second);
  if (A.ev_exact) MON_CHECK(c, long(o.log.size()) == k * (A.ev_init + A.ev_iter * A.iters), "restart-count", "%zu evaluations, expected %d times %ld", o.log.size(), k, A.ev_init + A.ev_iter * A.iters);
  MON_CHECK(c, o.value(s.first) == s.second, "restart-solution", "solution value %g, true value %g", s.second, o.value(s.first)); if (A.reports_best) MON_CHECK(c, s.second == best, "restart-best", "restart reports %.17g, best evaluated %.17g", s.second, best); c.cover(c.description); c.count(kname(kind));
}

// ---- complete search
CASES(complete_search, 150, 900) {
  int n = 1 + c.idx % 14; CompleteSearch a(n); Objective o = mkobj(c.rng, n); c.desc(fmt("CompleteSearch n=%d obj=%d", n, o.kind)); int reps = n < 8 ? 2 : 1;
  for (int k = 0; k < reps; k++) { o.log.clear(); a.maximize({&o}); a.finalize(); std::set<BV> seen; double best = -INFINITY; for (auto& e : o.log) { seen.insert(e.first); best = std::max(best, e.second); MON_CHECK(c, int(e.first.size()) == n, "cs-size", "evaluated a bit vector of size %zu", e.first.size()); }
    MON_CHECK(c, o.log.size() == (1u << n) && seen.size() == (1u << n), "cs-once", "%zu evaluations of %zu distinct bit vectors, expected %u (run %d)", o.log.size(), seen.size(), 1u << n, k + 1); MON_CHECK(c, a.get_solution().second == best && o.value(a.get_solution().first) == best, "cs-max", "reports %.17g, maximum %.17g", a.get_solution().second, best); }
  c.cover(c.description); c.count("complete search");
}

// ---- hill climbing
template<class HC> static void climb(mon::Ctx& c, bool steepest) {
  int n = c.rng.range(1, 12), radius = c.rng.chance(.4) ? 1 : c.rng.range(1, std::min(n, 3)); std::unique_ptr<NeighborhoodIterator> it; bool single = c.rng.bit(); if (single) { radius = 1; it.reset(new SingleBitFlipIterator(n)); } else it.reset(new HammingSphereIterator(n, radius));
  Objective o = mkobj(c.rng, n); HC a(n, it.get()); int iters = c.rng.chance(.6) ? c.rng.range(-1, 0) : c.rng.range(1, 6); a.set_num_iterations(iters); BV start; bool rs = c.rng.chance(.5); if (rs) { start = fl::rbv(c.rng, n); a.set_random_initialization(false); a.set_starting_point(start); } size_t N = size_t(binom(n, radius)); c.desc(fmt("%s n=%d radius=%d iterations=%d obj=%d start=%d", steepest ? "steepest" : "first", n, radius, iters, o.kind, rs));
  a.maximize({&o}); a.finalize(); auto s = a.get_solution(); const Log& L = o.log; size_t i = 1; MON_CHECK(c, !L.empty(), "hc-empty", "no evaluation"); if (rs) MON_CHECK(c, L[0].first == start, "hc-start", "did not start from the starting point"); BV cur = L[0].first; double cv = L[0].second; int steps = 0; bool local = false;
  while (i < L.size() && !local) { // one iteration
    std::set<BV> seen; double best = -INFINITY; std::vector<BV> top; bool moved = false;
    while (i < L.size() && seen.size() < N && !moved) { auto& e = L[i++]; MON_CHECK(c, dist(e.first, cur) == radius, "hc-neighbour", "iteration %d evaluates a bit vector at distance %d of the current point, radius %d", steps, dist(e.first, cur), radius); MON_CHECK(c, seen.insert(e.first).second, "hc-twice", "a neighbour is evaluated twice in an iteration"); if (e.second > best) { best = e.second; top.clear(); } if (e.second == best) top.push_back(e.first); if (!steepest && e.second > cv) { cur = e.first; cv = e.second; moved = true; } }
    if (steepest) { MON_CHECK(c, seen.size() == N, "hc-incomplete", "only %zu neighbours of %zu were evaluated", seen.size(), N); if (best > cv) { moved = true; cv = best; // which of the best neighbours?
        if (i < L.size()) { BV next; bool found = false; for (auto& t : top) { bool ok = true; for (size_t k = i; k < std::min(L.size(), i + N) && ok; k++) ok = dist(L[k].first, t) == radius; if (ok) { next = t; found = true; if (top.size() > 1) c.count("ties among best neighbours"); break; } } MON_CHECK(c, found, "hc-move", "after iteration %d the climber is not at one of the %zu best neighbours", steps, top.size()); cur = next; } else { MON_CHECK(c, std::find(top.begin(), top.end(), s.first) != top.end(), "hc-end", "the final point is not one of the best neighbours"); cur = s.first; } } }
    else if (!moved) MON_CHECK(c, seen.size() == N, "hc-incomplete", "gave up after %zu neighbours of %zu", seen.size(), N);
    steps++; if (!moved) local = true; if (moved) c.count("climbs"); }
  MON_CHECK(c, i == L.size(), "hc-continues", "continued after a local maximum"); MON_CHECK(c, iters <= 0 || steps <= iters, "hc-iterations", "%d iterations instead of %d", steps, iters); if (iters > 0 && !local) MON_CHECK(c, steps == iters, "hc-iterations", "%d iterations instead of %d", steps, iters);
  MON_CHECK(c, s.second == cv && o.value(s.first) == cv && (steepest || s.first == cur), "hc-solution", "solution %g, the climber is at %g", s.second, cv);
  if (iters <= 0 || local) { BV x = s.first; std::unique_ptr<NeighborhoodIterator> i2(radius == 1 && single ? static_cast<NeighborhoodIterator *>(new SingleBitFlipIterator(n)) : new HammingSphereIterator(n, radius)); Objective q = o; q.logging = false; MON_CHECK(c, bv_is_locally_maximal(x, q, *i2), "hc-local", "the solution is not a local maximum"); // and by definition
    for (unsigned m = 0; m < (1u << n); m++) if (__builtin_popcount(m) == radius) { BV y = x; for (int b = 0; b < n; b++) if (m >> b & 1) y[b] = !y[b]; MON_CHECK(c, o.value(y) <= s.second, "hc-local", "the solution has a better neighbour"); } }
  c.cover(c.description + fmt("%zu %g", L.size(), cv)); c.count(steepest ? "steepest ascent" : "first ascent");
}
CASES(hill_climbing, 1600, 40000) { if (c.idx % 2) climb<SteepestAscentHillClimbing>(c, true); else climb<FirstAscentHillClimbing>(c, false); }
CASES(local_maximality, 600, 10000) {
  int n = c.rng.range(1, 9); Objective o = mkobj(c.rng, n); BV x = fl::rbv(c.rng, n); int radius = c.rng.range(1, n); bool want = true; c.desc(fmt("local maximality n=%d radius=%d", n, radius)); for (unsigned m = 0; m < (1u << n); m++) if (__builtin_popcount(m) == radius) { BV y = x; for (int b = 0; b < n; b++) if (m >> b & 1) y[b] = !y[b]; if (o.value(y) > o.value(x)) want = false; }
  HammingSphereIterator it(n, radius); MON_CHECK(c, bv_is_locally_maximal(x, o, it) == want, "local-maximal", "bv_is_locally_maximal is %d", !want); if (radius == 1) { SingleBitFlipIterator i1(n); MON_CHECK(c, bv_is_locally_maximal(x, o, i1) == want, "local-maximal", "bv_is_locally_maximal is %d", !want); }
  struct M : Objective { using Objective::Objective; double mx = 0; bool has_known_maximum() const override { return true; } double get_maximum() const override { return mx; } } g(n, 5, o.salt); g.mx = n; BV y = fl::rbv(c.rng, n); if (c.rng.bit()) for (int i = 0; i < n; i++) y[i] = mon::mix(g.salt + i) & 1; MON_CHECK(c, bv_is_globally_maximal(y, g) == (g.value(y) == n), "global-maximal", "bv_is_globally_maximal is wrong"); c.count(want ? "local maximum" : "not a local maximum"); c.cover(c.description + mon::showbv(x));
}

// ---- single-trajectory local search. Neighbours at distance r are proposed: the trace tells whether a candidate was kept.
static std::unique_ptr<Neighborhood> nbh(mon::Ctx& c, int n, int& lo, int& hi, int& kind) { kind = c.rng.below(4); lo = hi = 1; switch (kind) { case 0: return std::unique_ptr<Neighborhood>(new SingleBitFlip(n)); case 1: lo = hi = c.rng.range(1, n); return std::unique_ptr<Neighborhood>(new HammingSphere(n, lo)); case 2: hi = c.rng.range(1, n); return std::unique_ptr<Neighborhood>(new HammingBall(n, hi)); default: { lo = 1; hi = n; auto *m = new StandardBitMutation(n); m->set_mutation_rate(c.rng.pick(std::vector<double>{.5 / n, 1. / n, .3})); return std::unique_ptr<Neighborhood>(m); } } }
CASES(random_local_search, 1500, 40000) {
  int n = c.rng.upto(1, 30, 300), lo, hi, kd; auto nb = nbh(c, n, lo, hi, kd); RandomLocalSearch a(n, nb.get()); int iters = c.rng.range(1, 400); a.set_num_iterations(iters); bool strict = c.rng.bit(), inc = c.rng.bit(); if (strict) a.set_compare(std::greater<double>()); int patience = c.rng.chance(.6) ? c.rng.range(1, 40) : c.rng.range(-1, 0); a.set_patience(patience); a.set_incremental_evaluation(inc); Objective o = mkobj(c.rng, n); o.provides = inc && c.rng.bit(); BV start; bool rs = c.rng.bit(); if (rs) { start = fl::rbv(c.rng, n); a.set_random_initialization(false); a.set_starting_point(start); }
  c.desc(fmt("RLS n=%d nb=%d %d..%d iters=%d strict=%d patience=%d inc=%d obj=%d start=%d", n, kd, lo, hi, iters, strict, patience, inc, o.kind, rs)); int reps = c.rng.range(1, 2);
  for (int k = 0; k < reps; k++) { o.log.clear(); a.maximize({&o}); a.finalize(); const Log& L = o.log; BV cur = L[0].first; double cv = L[0].second; if (rs) MON_CHECK(c, cur == start, "rls-start", "did not start from the starting point"); int fails = 0; bool over = false;
    for (size_t i = 1; i < L.size(); i++) { MON_CHECK(c, !over, "rls-patience", "continued after %d failures, patience %d", fails, patience); int d = dist(cur, L[i].first); MON_CHECK(c, d >= lo && d <= hi, "rls-origin", "evaluation %zu is at distance %d of the current point (expected %d..%d): the wrong point is kept", i, d, lo, hi); bool acc = strict ? L[i].second > cv : L[i].second >= cv; if (acc) { cur = L[i].first; cv = L[i].second; fails = 0; c.count("accepted"); } else { fails++; c.count("rejected"); } if (patience > 0 && fails == patience) over = true; }
    if (!over) MON_CHECK(c, int(L.size()) == iters + 1, "rls-iterations", "%zu evaluations in %d iterations, patience not exhausted (%d of %d)", L.size(), iters, fails, patience); else c.count("patience exhausted"); MON_CHECK(c, a.get_solution().first == cur && a.get_solution().second == cv, "rls-solution", "the solution is not the current point"); }
  c.cover(c.description);
}
CASES(random_walk, 400, 8000) {
  int n = c.rng.upto(1, 30, 300), lo, hi, kd; auto nb = nbh(c, n, lo, hi, kd); RandomWalk a(n, nb.get()); int iters = c.rng.range(1, 200); a.set_num_iterations(iters); bool inc = c.rng.bit(); a.set_incremental_evaluation(inc); Objective o = mkobj(c.rng, n); o.provides = inc && c.rng.bit(); c.desc(fmt("RandomWalk n=%d nb=%d %d..%d iters=%d inc=%d", n, kd, lo, hi, iters, inc)); bool lv = c.rng.chance(.3); if (lv) a.set_log_value(); mon::Capture cap(std::cout); a.maximize({&o}); a.finalize(); const Log& L = o.log; MON_CHECK(c, int(L.size()) == iters + 1, "rw-count", "%zu evaluations", L.size());
  for (size_t i = 1; i < L.size(); i++) { int d = dist(L[i].first, L[i - 1].first); MON_CHECK(c, d >= lo && d <= hi, "rw-step", "step %zu moves by %d bits (expected %d..%d)", i, d, lo, hi); }
  if (lv) { auto v = numbers(cap.str()); MON_CHECK(c, int(v.size()) == iters, "rw-log", "%zu values logged in %d iterations", v.size(), iters); for (size_t i = 0; i < v.size(); i++) MON_CHECK(c, v[i].size() == 1 && std::fabs(v[i][0] - L[i + 1].second) <= 1e-4 * (std::fabs(L[i + 1].second) + 1e-12), "rw-log", "logged value %g, current value %g", v[i].size() ? v[i][0] : NAN, L[i + 1].second); } c.cover(c.description); c.count("random walk");
}
CASES(simulated_annealing, 800, 20000) {
  // single bit flips: the parity of the next candidate tells whether the previous one was kept
  int n = c.rng.upto(2, 24, 200); SingleBitFlip nb(n); SimulatedAnnealing a(n, &nb); int iters = c.rng.range(20, 600), trials = c.rng.range(1, 60), trans = c.rng.range(1, 30); double p0 = c.rng.real(.1, .95), ratio = c.rng.pick(std::vector<double>{1, 1.01, 1.2, 2, 10}); a.set_num_iterations(iters); a.set_num_trials(trials); a.set_num_transitions(trans); a.set_initial_acceptance_probability(p0); a.set_beta_ratio(ratio); Objective o(n, c.rng.pick(std::vector<int>{0, 1, 5}), c.rng.next()); BV start; bool rs = c.rng.bit(); if (rs) { start = fl::rbv(c.rng, n); a.set_random_initialization(false); a.set_starting_point(start); }
  c.desc(fmt("SA n=%d iters=%d trials=%d transitions=%d p0=%g ratio=%g obj=%d", n, iters, trials, trans, p0, ratio, o.kind)); a.maximize({&o}); a.finalize(); const Log& L = o.log; MON_CHECK(c, int(L.size()) == 1 + 2 * trials + iters, "sa-count", "%zu evaluations", L.size()); if (rs) MON_CHECK(c, L[0].first == start, "sa-start", "did not start from the starting point");
  Mart starts; double delta = 0; int cnt = 0; size_t b = 0; for (int t = 0; t < trials; t++) { auto &x = L[1 + 2 * t], &y = L[2 + 2 * t]; if (t) starts.add(dist(L[2 * t - 1].first, x.first), n / 2., n / 4., n / 2.); MON_CHECK(c, dist(x.first, y.first) == 1, "sa-trial", "a trial pair is at distance %d", dist(x.first, y.first)); if (y.second < x.second) { delta += y.second - x.second; cnt++; } } if (!cnt) { c.obs(); return; }
  MON_CHECK(c, !starts.far(), "sa-trials", "the pairs which determine the first temperature do not start from independent random bit vectors: successive distances exceed their expectation by %g over %ld", starts.s, starts.k);
  for (size_t i = 1; i <= size_t(2 * trials); i++) if (L[i].second > L[b].second) b = i; double beta = std::log(p0) / (delta / cnt); BV cur = L[b].first; double cv = L[b].second; int tr = 0; Mart m; double best = cv;
  for (size_t i = 1 + 2 * trials; i < L.size(); i++) { MON_CHECK(c, dist(L[i].first, cur) == 1, "sa-origin", "candidate at distance %d of the current point", dist(L[i].first, cur)); best = std::max(best, L[i].second); if (i + 1 == L.size()) break; bool kept = dist(L[i + 1].first, L[i].first) == 1, stay = dist(L[i + 1].first, cur) == 1; MON_CHECK(c, kept != stay, "sa-step", "the next candidate is a neighbour of neither or both points");
    if (L[i].second >= cv) { MON_CHECK(c, kept, "sa-improvement", "an improving candidate (%g after %g) was not accepted", L[i].second, cv); c.count("improvements"); } else { double p = std::exp((L[i].second - cv) * beta); m.add(kept, p, p * (1 - p), 1); if (kept) { c.count("worse accepted"); if (++tr == trans) { tr = 0; beta *= ratio; c.count("coolings"); } } else c.count("worse rejected"); }
    if (kept) { cur = L[i].first; cv = L[i].second; } }
  MON_CHECK(c, !m.far(), "sa-law", "acceptance of worse candidates: excess %g over %ld (variance %g)", m.s, m.k, m.v); MON_CHECK(c, a.get_solution().second == best, "sa-best", "solution %g, best %g", a.get_solution().second, best); c.cover(c.description);
}
static void ea_trace(mon::Ctx& c, const Log& L, int n, std::function<double(int step, bool success)> rate, bool no_mut, const char *what, Flips& fl) {
  BV cur = L[0].first; double cv = L[0].second, p = rate(0, false);
  for (size_t i = 1; i < L.size(); i++) { int d = dist(cur, L[i].first); if (!no_mut) MON_CHECK(c, d >= 1, "ea-no-mutation", "%s: evaluation %zu is not mutated", what, i); fl.add(d, n, p, no_mut); bool ok = L[i].second >= cv; if (ok) { cur = L[i].first; cv = L[i].second; c.count("accepted"); } else c.count("rejected"); p = rate(i, ok); }
}
CASES(one_plus_one_ea, 700, 15000) {
  int n = c.rng.upto(1, 60, 400); OnePlusOneEa a(n); double p = 1. / n; bool dflt = c.rng.chance(.3); if (!dflt) { p = c.rng.pick(std::vector<double>{.3 / n, 1. / n, std::min(1., 3. / n), .5, .9, 1.}); a.set_mutation_rate(p); } bool no_mut = c.rng.bit(), inc = c.rng.bit(); a.set_allow_no_mutation(no_mut); a.set_incremental_evaluation(inc); int iters = c.rng.range(50, 1500); a.set_num_iterations(iters); Objective o = mkobj(c.rng, n); o.provides = inc && c.rng.bit(); c.desc(fmt("(1+1) EA n=%d rate=%g no_mut=%d inc=%d obj=%d", n, p, no_mut, inc, o.kind)); a.maximize({&o}); a.finalize(); MON_CHECK(c, int(o.log.size()) == iters + 1, "ea-count", "%zu evaluations", o.log.size());
  Flips f; ea_trace(c, o.log, n, [&](int, bool) { return p; }, no_mut, "(1+1) EA", f); MON_CHECK(c, !f.a.far(), "ea-rate", "flips from the elitist parent exceed their expectation by %g over %ld offspring (variance %g): rate or acceptance not as set", f.a.s, f.a.k, f.a.v); if (p == 1) for (size_t i = 1; i < o.log.size(); i++) MON_CHECK(c, o.log[i].first == o.log[0].first || o.log[i].first == flip_all(o.log[0].first), "ea-rate-one", "rate 1 does not flip everything"); c.cover(c.description);
}
CASES(self_adjusting_ea, 700, 15000) {
  int n = c.rng.upto(2, 60, 400); SelfAdjustingOnePlusOneEa a(n); double init = c.rng.pick(std::vector<double>{.3 / n, 1. / n, .3}), lo = init * c.rng.pick(std::vector<double>{1, .5, .1}), hi = std::min(.99, init * c.rng.pick(std::vector<double>{1, 2, 20})), F = c.rng.real(1.01, 2), s = c.rng.real(.5, 5); a.set_mutation_rate_init(init); a.set_mutation_rate_min(lo); a.set_mutation_rate_max(hi); a.set_update_strength(F); a.set_success_ratio(s); bool no_mut = c.rng.bit(), inc = c.rng.bit(); a.set_allow_no_mutation(no_mut); a.set_incremental_evaluation(inc); int iters = c.rng.range(50, 800); a.set_num_iterations(iters); Objective o = mkobj(c.rng, n); o.provides = inc && c.rng.bit(); a.set_log_mutation_rate(true); c.desc(fmt("self-adjusting n=%d init=%g min=%g max=%g F=%g s=%g no_mut=%d inc=%d obj=%d", n, init, lo, hi, F, s, no_mut, inc, o.kind)); std::string out; { mon::Capture cap(std::cout); a.maximize({&o}); a.finalize(); out = cap.str(); } auto lg = numbers(out); MON_CHECK(c, int(o.log.size()) == iters + 1 && int(lg.size()) == iters, "sa11-count", "%zu evaluations, %zu lines logged", o.log.size(), lg.size());
  double p = init; Flips f; ea_trace(c, o.log, n, [&](int i, bool ok) { if (i) { p = ok ? std::min(p * std::pow(F, s), hi) : std::max(p / F, lo); MON_CHECK(c, lg[i - 1].size() == 1 && std::fabs(lg[i - 1][0] - p) <= 1e-4 * p, "sa11-rate", "mutation rate logged %g, expected %g after %s", lg[i - 1][0], p, ok ? "a success" : "a failure"); c.count(p == hi ? "rate at max" : p == lo ? "rate at min" : "rate inside"); } return p; }, no_mut, "self-adjusting", f); MON_CHECK(c, !f.a.far(), "sa11-flips", "flips exceed their expectation by %g over %ld (variance %g)", f.a.s, f.a.k, f.a.v); c.cover(c.description);
}

// ---- populations. Mutation rate 0 (copies) and 1 (complements) make the parent of every offspring visible.
static std::multiset<double> values(const Log& L, size_t a, size_t b) { std::multiset<double> s; for (size_t i = a; i < b; i++) s.insert(L[i].second); return s; }
static Log best_of(Log v, size_t mu) { std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.second > b.second; }); v.resize(std::min(v.size(), mu)); return v; }
CASES(mu_lambda, 1200, 30000) {
  bool plus = c.idx % 2; int n = c.rng.upto(2, 30, 200), mu = c.rng.upto(1, 10, 70), lambda = plus ? c.rng.upto(1, 12, 140) : mu + c.rng.upto(0, 10, 80), iters = c.rng.range(1, 12); double p = c.rng.pick(std::vector<double>{0, 1, 1. / n, .3}); bool no_mut = p == 0 ? true : c.rng.bit(); if (p > 0 && p < 1) { mu = 1; lambda = std::max(lambda, 1); iters = c.rng.range(20, 60); } Objective o = distinct(c.rng, n); c.desc(fmt("(%d%s%d) EA n=%d rate=%g no_mut=%d iters=%d", mu, plus ? "+" : ",", lambda, n, p, no_mut, iters));
  std::unique_ptr<Algorithm> a; auto cfg = [&](auto *x) { x->set_num_iterations(iters); x->set_mutation_rate(p); x->set_allow_no_mutation(no_mut); a.reset(x); }; if (plus) cfg(new MuPlusLambdaEa(n, mu, lambda)); else cfg(new MuCommaLambdaEa(n, mu, lambda)); a->maximize({&o}); a->finalize(); const Log& L = o.log; size_t i0 = plus ? mu : 1; MON_CHECK(c, L.size() == i0 + size_t(lambda) * iters, "mu-count", "%zu evaluations", L.size());
  Log parents; bool known = plus; if (plus) parents.assign(L.begin(), L.begin() + mu); Flips f; std::map<double, long> used; long draws = 0;
  for (int t = 0; t < iters; t++) { Log off(L.begin() + i0 + size_t(t) * lambda, L.begin() + i0 + size_t(t + 1) * lambda);
    if (known) for (auto& e : off) { int bd = n + 1; for (auto& q : parents) { int d = dist(q.first, e.first); if (p == 0 ? d == 0 : p == 1 ? d == n : true) { bd = d; break; } } MON_CHECK(c, bd <= n, "mu-parent", "generation %d: an offspring stems from none of the %d %s individuals of the previous generation", t, mu, plus ? "best parents or" : "best"); if (p > 0 && p < 1) f.add(bd, n, p, no_mut); if (!no_mut && p < 1) MON_CHECK(c, bd > 0, "mu-no-mutation", "an offspring is not mutated"); c.count("offspring traced"); }
    if (plus) { Log pool = parents; pool.insert(pool.end(), off.begin(), off.end()); parents = best_of(pool, mu); } else { parents = best_of(off, mu); known = true; } }
  MON_CHECK(c, !f.a.far(), "mu-rate", "flips exceed their expectation by %g over %ld (variance %g)", f.a.s, f.a.k, f.a.v); c.cover(c.description);
}
CASES(genetic_algorithm, 900, 20000) {
  int n = c.rng.upto(2, 24, 200), mu = c.rng.upto(3, 14, 90), t = c.rng.range(2, mu - 1), iters = c.rng.range(1, 8); double cx = c.rng.pick(std::vector<double>{0, 0, .5, 1, 1}); bool comp = c.rng.bit(); Objective o = distinct(c.rng, n); GeneticAlgorithm a(n, mu); a.set_num_iterations(iters); a.set_mutation_rate(comp ? 1. : 0.); a.set_allow_no_mutation(!comp || c.rng.bit()); a.set_tournament_size(t); a.set_crossover_probability(cx); c.desc(fmt("GA n=%d mu=%d t=%d cx=%g iters=%d rate=%d", n, mu, t, cx, iters, comp)); a.maximize({&o}); a.finalize(); const Log& L = o.log; MON_CHECK(c, int(L.size()) == mu * (iters + 1), "ga-count", "%zu evaluations", L.size());
  for (int g = 1; g <= iters; g++) { Log par(L.begin() + (g - 1) * mu, L.begin() + g * mu); par = best_of(par, mu); size_t allowed = mu - t + 1; double worst = par[allowed - 1].second; while (allowed < par.size() && par[allowed].second == worst) allowed++; // duplicates of the last winner
    for (int k = 0; k < mu; k++) { BV x = L[g * mu + k].first; if (comp) x = flip_all(x); bool ok = false, copy = false; for (size_t i = 0; i < allowed && !copy; i++) copy = par[i].first == x; ok = copy; if (cx > 0) for (size_t i = 0; i < allowed && !ok; i++) for (size_t j = i; j < allowed && !ok; j++) { bool e = true; for (int b = 0; b < n && e; b++) e = x[b] == par[i].first[b] || x[b] == par[j].first[b]; ok = e; } MON_CHECK(c, ok, "ga-parents", "generation %d: an offspring is not %s of possible tournament winners (size %d of %d)", g, cx > 0 ? "a recombination or copy" : "a copy", t, mu); c.count(copy ? "copies" : "recombinations"); } }
  c.cover(c.description);
}
CASES(ga_crossover_rate, 200, 4000) { // first generation, long bit vectors: a recombination is never a copy
  int n = 120, mu = c.rng.range(20, 60); double cx = c.rng.pick(std::vector<double>{0, .2, .5, .8, 1}); GeneticAlgorithm a(n, mu); a.set_num_iterations(1); a.set_mutation_rate(0); a.set_allow_no_mutation(true); a.set_tournament_size(2); a.set_crossover_probability(cx); long copies = 0, N = 0; c.desc(fmt("GA crossover probability %g mu=%d", cx, mu)); for (int k = 0; k < 6; k++) { Objective o = distinct(c.rng, n); a.maximize({&o}); std::set<BV> par; for (int i = 0; i < mu; i++) par.insert(o.log[i].first); for (int i = 0; i < mu; i++) { copies += par.count(o.log[mu + i].first); N++; } }
  // two winners may be the same individual: at most a fraction of the recombinations
  Mart lo; MON_CHECK(c, mon::plausible_binomial(N, std::min(1., 1 - cx + cx * .5), std::max(copies, long(N * std::min(1., 1 - cx + cx * .5)))) && mon::plausible_binomial(N, 1 - cx, std::min(copies, long(N * (1 - cx)))), "ga-cx", "%ld copies among %ld offspring, crossover probability %g", copies, N, cx); c.count("offspring", N); c.cover(c.description);
}
CASES(lambda_lambda_ga, 900, 20000) {
  bool small = c.rng.chance(.15); int n = small ? c.rng.range(2, 4) : c.rng.range(3, 24), lambda = small ? 2 : c.rng.range(2, std::min(n, 8)), iters = small ? 300 : c.rng.range(1, 12); double rate = c.rng.real(.1, .9), bias = c.rng.pick(std::vector<double>{.01, .2, .5, .8, .99}); OnePlusLambdaCommaLambdaGa a(n, lambda); a.set_num_iterations(iters); a.set_mutation_rate(rate); a.set_crossover_bias(bias); Objective o = distinct(c.rng, n); c.desc(fmt("(1+(%d,%d)) GA n=%d rate=%g bias=%g iters=%d", lambda, lambda, n, rate, bias, iters)); a.maximize({&o}); a.finalize(); const Log& L = o.log; MON_CHECK(c, int(L.size()) == 1 + 2 * lambda * iters, "ll-count", "%zu evaluations", L.size()); BV cur = L[0].first; double cv = L[0].second; Mart bits, rad;
  for (int t = 0; t < iters; t++) { const auto *M = &L[1 + 2 * lambda * t], *X = M + lambda; int r = dist(M[0].first, cur), b = 0; for (int k = 0; k < lambda; k++) { MON_CHECK(c, dist(M[k].first, cur) == r, "ll-radius", "mutants at distances %d and %d of the current point", r, dist(M[k].first, cur)); if (M[k].second > M[b].second) b = k; } rad.add(r, n * rate, n * rate * (1 - rate), n);
    for (int k = 0; k < lambda; k++) for (int i = 0; i < n; i++) if (M[b].first[i] == cur[i]) MON_CHECK(c, X[k].first[i] == cur[i], "ll-crossover", "iteration %d: a bit of a recombined offspring comes from neither the parent nor the best mutant", t); else bits.add(X[k].first[i] == M[b].first[i], bias, bias * (1 - bias), 1);
    int w = 0; for (int k = 0; k < lambda; k++) if (X[k].second > X[w].second) w = k; if (X[w].second >= cv) { cur = X[w].first; cv = X[w].second; c.count("accepted"); } else c.count("rejected"); }
  MON_CHECK(c, !bits.far(), "ll-bias", "bits taken from the mutant: excess %g over %ld (variance %g), bias %g", bits.s, bits.k, bits.v, bias); MON_CHECK(c, !rad.far(), "ll-rate", "radius: excess %g over %ld iterations, rate %g", rad.s, rad.k, rate); MON_CHECK(c, a.get_solution().first == cur && a.get_solution().second == cv, "ll-solution", "the solution is not the current parent"); c.cover(c.description);
}
CASES(two_rate_ea, 500, 10000) {
  int n = c.rng.upto(8, 60, 300), lambda = c.rng.upto(2, 20, 100), iters = c.rng.range(5, 60); TwoRateOnePlusLambdaEa a(n, lambda); double r = 2. / n; if (c.rng.bit()) { r = c.rng.pick(std::vector<double>{2. / n, .25, 4. / n > .25 ? .25 : 4. / n}); a.set_mutation_rate_init(r); } bool no_mut = c.rng.bit(); a.set_allow_no_mutation(no_mut); a.set_num_iterations(iters); a.set_log_mutation_rate(true); Objective o = distinct(c.rng, n); c.desc(fmt("two-rate n=%d lambda=%d rate=%g no_mut=%d", n, lambda, r, no_mut)); std::string out; { mon::Capture cap(std::cout); a.maximize({&o}); a.finalize(); out = cap.str(); } auto lg = numbers(out); MON_CHECK(c, int(lg.size()) == iters, "two-log", "%zu lines logged in %d iterations", lg.size(), iters); const Log& L = o.log; BV cur = L[0].first; double cv = L[0].second, lo = 2. / n, hi = .25; Flips f; long toward = 0, tot = 0;
  for (int t = 0; t < iters; t++) { int b = 0; for (int k = 0; k < lambda; k++) { auto& e = L[1 + t * lambda + k]; f.add(dist(e.first, cur), n, k < lambda / 2 ? r / 2 : r * 2, no_mut); if (e.second > L[1 + t * lambda + b].second) b = k; } double low = std::max(r / 2, lo), high = std::min(r * 2, hi), got = lg[t].at(0); auto is = [&](double x) { return std::fabs(got - x) <= 1e-4 * x; }; MON_CHECK(c, is(std::clamp(low, lo, hi)) || is(std::clamp(high, lo, hi)), "two-rate", "rate %g after %g: neither halved nor doubled within [%g, %g]", got, r, lo, hi); if (!is(high) || !is(low)) if (std::fabs(low - high) > 1e-3 * low) { tot++; toward += b < lambda / 2 ? is(low) : is(high); } r = is(low) ? low : high; auto& e = L[1 + t * lambda + b]; if (e.second > cv) { cv = e.second; cur = e.first; } }
  MON_CHECK(c, !f.a.far(), "two-flips", "flips exceed their expectation by %g over %ld (variance %g)", f.a.s, f.a.k, f.a.v); MON_CHECK(c, mon::plausible_binomial(tot, .75, toward), "two-adapt", "the rate follows the better half %ld times of %ld, expected 3/4", toward, tot); c.count("rate updates", tot); c.cover(c.description);
}
CASES(it_ea, 700, 15000) {
  int n = c.rng.upto(2, 40, 250), pop = c.rng.upto(2, 16, 120), sel = c.rng.range(1, pop - 1), iters = c.rng.range(1, 40), mode = c.rng.below(5); InformationTheoreticEa a(n, pop); a.set_num_iterations(iters); a.set_selection_size(sel); a.set_replacement(mode); double lr = c.rng.pick(std::vector<double>{.01, .1, .5, 1}), lo = c.rng.pick(std::vector<double>{.3 / n, 1. / n}), hi = c.rng.real(.55, .9), r = c.rng.chance(.25) ? c.rng.real(.5, hi) : c.rng.real(lo, .5); bool no_mut = c.rng.bit(); int w0 = c.rng.range(0, n); a.set_learning_rate(lr); a.set_mutation_rate_min(lo); a.set_mutation_rate_max(hi); a.set_mutation_rate_init(r); a.set_allow_no_mutation(no_mut); a.set_initial_hamming_weight(w0); a.set_log_mutation_rate(true); a.set_log_center_fitness(true); Objective o = distinct(c.rng, n); c.desc(fmt("it-EA n=%d pop=%d sel=%d mode=%d lr=%g min=%g max=%g init=%g no_mut=%d", n, pop, sel, mode, lr, lo, hi, r, no_mut)); std::string out; { mon::Capture cap(std::cout); a.maximize({&o}); a.finalize(); out = cap.str(); } auto lg = numbers(out); const Log& L = o.log; MON_CHECK(c, int(lg.size()) == iters, "it-log", "%zu lines", lg.size());
  BV cur = L[0].first; double cv = L[0].second; if (mode == 4) MON_CHECK(c, fl::wt(cur) == w0, "it-weight", "initial Hamming weight %d instead of %d", fl::wt(cur), w0); size_t i = 1; Flips f;
  for (int t = 0; t < iters; t++) { MON_CHECK(c, i + pop <= L.size(), "it-count", "too few evaluations"); Log off(L.begin() + i, L.begin() + i + pop); i += pop; for (auto& e : off) f.add(dist(e.first, cur), n, r, no_mut); Log all = best_of(off, pop), s = best_of(off, sel); bool tie = sel < pop && all[sel - 1].second == all[sel].second; double target = 0; for (auto& e : s) target += dist(e.first, cur); target /= double(sel) * n; // tied individuals are identical: same masks
    std::vector<double> lik(n); BV old = cur; for (auto& e : s) for (int b = 0; b < n; b++) lik[b] += mode == 3 ? e.first[b] != cur[b] : e.first[b];
    if (mode == 0) { if (s[0].second >= cv) { cur = s[0].first; cv = s[0].second; } } else if (mode == 1) { cur = s[0].first; cv = s[0].second; } else if (mode == 2) { if (std::fabs(r - .5) < 1e-6) { c.count("rate one half"); return; } MON_CHECK(c, i < L.size(), "it-count", "no evaluation of the new center"); cur = L[i].first; cv = L[i].second; i++; for (int b = 0; b < n; b++) if (2 * lik[b] != sel) MON_CHECK(c, bool(cur[b]) == ((2 * lik[b] > sel) == (r < .5)), "it-ml", "iteration %d: center bit %d does not follow the selected individuals (%g of %d, rate %g)", t, b, lik[b], sel, r); }
    else if (mode == 3) { double ex = r < .5 ? *std::max_element(lik.begin(), lik.end()) : *std::min_element(lik.begin(), lik.end()); if (std::fabs(r - .5) < 1e-6) { c.count("rate one half"); return; } bool may = std::fabs(2 * ex - sel) < 1e-9, must = !may && (r < .5 ? 2 * ex > sel : 2 * ex < sel); bool here = i < L.size() && (must || (may && dist(L[i].first, cur) == 1 && [&] { for (int b = 0; b < n; b++) if (L[i].first[b] != cur[b]) return std::fabs(lik[b] - ex) < 1e-9; return false; }() && std::fabs(lg[t].at(1) - L[i].second) <= 1e-4 * std::fabs(L[i].second) + 1e-12));
      if (must) { MON_CHECK(c, here && dist(L[i].first, cur) == 1, "it-iml", "iteration %d: the center did not move by one bit", t); for (int b = 0; b < n; b++) if (L[i].first[b] != cur[b]) MON_CHECK(c, std::fabs(lik[b] - ex) < 1e-9, "it-iml", "the flipped bit is not the most frequent one"); } if (here) { cur = L[i].first; cv = L[i].second; i++; } }
    r = std::clamp(r + lr * (target - r), lo, hi); MON_CHECK(c, lg[t].size() == 2 && std::fabs(lg[t][0] - r) <= 1e-3 * r, "it-rate", "iteration %d: rate %g, expected %g (selected individuals flip %g of the bits%s)", t, lg[t].size() ? lg[t][0] : NAN, r, target, tie ? ", ties" : ""); r = std::fabs(lg[t][0] - r) < 1e-5 * r ? r : lg[t][0]; MON_CHECK(c, std::fabs(lg[t][1] - cv) <= 1e-4 * std::fabs(cv) + 1e-12, "it-center", "iteration %d: center fitness %g, expected %g", t, lg[t][1], cv); }
  MON_CHECK(c, i == L.size(), "it-count", "%zu evaluations, %zu accounted for", L.size(), i); MON_CHECK(c, !f.a.far(), "it-flips", "flips exceed their expectation by %g over %ld (variance %g)", f.a.s, f.a.k, f.a.v); c.count(fmt("mode %d", mode)); c.cover(c.description);
}

// ---- probability vectors: the model is recomputed from the trace
CASES(pv_algorithms, 1500, 40000) {
  int kind = std::vector<int>{A_CGA, A_MMAS, A_PBIL, A_NPS, A_UMDA}[c.idx % 5]; int n = c.rng.upto(3, 30, 200), pop = c.rng.upto(2, 20, 120), sel = c.rng.range(1, pop), iters = c.rng.range(1, 60); double lr = c.rng.pick(std::vector<double>{.01, .1, .3, 1}), lo = 1. / n, hi = 1 - 1. / n; bool strict = c.rng.bit(); Objective o = distinct(c.rng, n); std::shared_ptr<Algorithm> a; auto cfg = [&](auto p) { p->set_num_iterations(iters); p->set_log_pv(true); p->set_log_num_components(n); p->set_log_entropy(true); a = p; return p; };
  switch (kind) { case A_CGA: cfg(std::make_shared<CompactGa>(n))->set_learning_rate(lr); break; case A_MMAS: { auto p = cfg(std::make_shared<Mmas>(n)); p->set_learning_rate(lr); if (strict) p->set_compare(std::greater<double>()); break; } case A_PBIL: { auto p = cfg(std::make_shared<Pbil>(n, pop)); p->set_selection_size(sel); p->set_learning_rate(lr); break; } case A_NPS: { auto p = cfg(std::make_shared<NpsPbil>(n, pop)); p->set_selection_size(sel); p->set_learning_rate(lr); break; } default: { auto p = cfg(std::make_shared<Umda>(n, pop)); p->set_selection_size(sel); } }
  c.desc(fmt("%s n=%d pop=%d sel=%d lr=%g iters=%d", kname(kind), n, pop, sel, lr, iters)); std::string out; { mon::Capture cap(std::cout); a->maximize({&o}); a->finalize(); out = cap.str(); } auto lg = numbers(out); MON_CHECK(c, int(lg.size()) == iters, "pv-log", "%zu lines logged in %d iterations", lg.size(), iters); const Log& L = o.log; std::vector<double> pv(n, .5); size_t i = 1; int per = kind == A_CGA ? 2 : kind == A_MMAS ? 1 : pop; BV sol = L[0].first; double sv = L[0].second; auto bound = [&] { for (auto& x : pv) x = std::clamp(x, lo, hi); }; auto toward = [&](const BV& x) { for (int b = 0; b < n; b++) pv[b] += lr * (double(x[b]) - pv[b]); bound(); }; if (kind == A_MMAS) toward(sol); Mart law[3]; std::string k = kname(kind);
  for (int t = 0; t < iters; t++) { Log g(L.begin() + i, L.begin() + i + per); i += per; for (auto& e : g) for (int b = 0; b < n; b++) law[pv[b] < .34 ? 0 : pv[b] < .67 ? 1 : 2].add(e.first[b], pv[b], pv[b] * (1 - pv[b]), 1);
    if (kind == A_CGA) { int b = g[0].second < g[1].second; for (int j = 0; j < n; j++) if (g[0].first[j] != g[1].first[j]) pv[j] += g[b].first[j] ? lr : -lr; bound(); }
    else if (kind == A_MMAS) { if (strict ? g[0].second > sv : g[0].second >= sv) { sol = g[0].first; sv = g[0].second; } toward(sol); }
    else { Log s = best_of(g, pop); for (int b = 0; b < n; b++) { double m = 0, w = 0; for (int q = 0; q < sel; q++) { m += s[q].first[b]; w += s[pop - 1 - q].first[b]; } m /= sel; w /= sel; if (kind == A_PBIL) pv[b] += lr * (m - pv[b]); else if (kind == A_NPS) pv[b] += lr * (m - w); else pv[b] = m; } bound(); }
    MON_CHECK(c, int(lg[t].size()) == n + 1, "pv-log", "%zu numbers logged", lg[t].size()); double H = 0; for (int b = 0; b < n; b++) { MON_CHECK(c, std::fabs(lg[t][b + 1] - pv[b]) < 1e-5, "pv-update:" + k, "iteration %d: component %d of the probability vector is %g, its trace implies %g", t, b, lg[t][b + 1], pv[b]); if (pv[b] > 0 && pv[b] < 1) H -= pv[b] * std::log(pv[b]) + (1 - pv[b]) * std::log(1 - pv[b]); } H /= std::log(2.); MON_CHECK(c, std::fabs(lg[t][0] - H) <= 1e-3 * H + 1e-4 || std::fabs(lg[t][0] - H * std::log(2.)) <= 1e-3 * H + 1e-4, "pv-entropy:" + k, "iteration %d: entropy %g, expected %g bits", t, lg[t][0], H); c.count("updates"); }
  for (auto& m : law) MON_CHECK(c, !m.far(), "pv-law:" + k, "samples do not follow the probability vector: excess %g over %ld (variance %g)", m.s, m.k, m.v); MON_CHECK(c, i == L.size(), "pv-count", "%zu evaluations", L.size()); c.cover(c.description); c.count(k);
}
// RAM-UMDA: with an empty transvection sequence the first generation is uniform, later ones follow selected individuals up to an affine map; MIMIC: marginals follow the selected ones
struct Chain : Objective { // pairs of components of unequal importance prefer to agree or to differ
  bool chain; std::vector<int> p; Chain(int n, bool ch, uint64_t salt) : Objective(n, 0, salt), chain(ch), p(n) { for (int i = 0; i < n; i++) p[i] = i; mon::Rng r(salt); r.shuffle(p); }
  double val(const BV& x) const { double s = value(x); if (chain) for (int i = 0; i + 1 < n; i++) s += (1 + mon::mix(salt + i) % 1000 / 300.) * (bool(x[p[i]]) == (bool(x[p[i + 1]]) != bool(mon::mix(salt * 3 + i) & 1))) + .2 * bool(x[p[i]]); return s; }
  double evaluate(const BV& x) override { double v = val(x); log.push_back({x, v}); return v; } double evaluate_safely(const BV& x) override { return val(x); } void update(const BV& x, double v) override { log.push_back({x, v}); }
};
CASES(mimic, 300, 6000) {
  bool large = c.idx % 4 == 0; int n = large ? c.rng.range(4, 7) : c.rng.range(3, 10), pop = large ? c.rng.range(1000, 2500) : c.rng.range(60, 200), sel = c.rng.range(pop / 4, pop / 2), iters = c.rng.range(2, 4); Mimic a(n, pop); a.set_selection_size(sel); a.set_num_iterations(iters); Chain o(n, large || c.rng.bit(), c.rng.next()); c.desc(fmt("Mimic n=%d pop=%d sel=%d chain=%d", n, pop, sel, o.chain)); a.maximize({&o}); const Log& L = o.log; MON_CHECK(c, int(L.size()) == 1 + pop * iters, "mimic-count", "%zu evaluations", L.size()); double lo = 1. / n, hi = 1 - 1. / n;
  { Mart m; for (int k = 0; k < pop; k++) for (auto b : L[1 + k].first) m.add(b, .5, .25, 1); MON_CHECK(c, !m.far(), "mimic-init", "the first generation is not uniform"); }
  for (int t = 1; t < iters; t++) { Log s(L.begin() + 1 + (t - 1) * pop, L.begin() + 1 + t * pop); // ties at the limit of the selection are between identical bit vectors
    s = best_of(s, sel); std::vector<std::vector<double>> j(n, std::vector<double>(n)); std::vector<double> m(n); for (auto& e : s) for (int x = 0; x < n; x++) { m[x] += e.first[x]; for (int y = 0; y < n; y++) j[x][y] += e.first[x] && e.first[y]; }
    // reconstruct the chain: root of smallest entropy, then smallest conditional entropy given the previous one
    auto cond = [&](int f, int x, double& H, double *p) { H = 0; for (int v = 0; v < 2; v++) { double cnt = v ? m[f] : sel - m[f], one = v ? j[f][x] : m[x] - j[f][x], zero = cnt - one; if (cnt > 0) { if (one > 0) H += one * std::log(cnt / one); if (zero > 0) H += zero * std::log(cnt / zero); } p[v] = std::clamp(cnt > 0 ? one / cnt : .5, lo, hi); } };
    std::vector<int> left(n); for (int x = 0; x < n; x++) left[x] = x; auto gap_ok = [&](std::vector<double>& h, int best) { for (size_t q = 0; q < h.size(); q++) if (int(q) != best && std::fabs(h[q] - h[best]) < 1e-9) return false; return true; }; std::vector<double> h; for (int x : left) h.push_back(std::min(m[x], sel - m[x])); int b = std::min_element(h.begin(), h.end()) - h.begin(); if (!gap_ok(h, b)) { c.count("ambiguous chain"); c.obs(); continue; } int prev = left[b]; left.erase(left.begin() + b); Mart root; double pr = std::clamp(m[prev] / sel, lo, hi); for (int k = 0; k < pop; k++) root.add(L[1 + t * pop + k].first[prev], pr, pr * (1 - pr), 1); MON_CHECK(c, !root.far(), "mimic-root", "generation %d: the root component has probability %g, excess %g", t, pr, root.s);
    while (!left.empty()) { h.clear(); std::vector<std::array<double, 2>> pp; for (int x : left) { double H; std::array<double, 2> p; cond(prev, x, H, p.data()); h.push_back(H); pp.push_back(p); } b = std::min_element(h.begin(), h.end()) - h.begin(); if (!gap_ok(h, b)) { c.count("ambiguous chain"); break; } int x = left[b]; Mart q[2]; for (int k = 0; k < pop; k++) { auto& bv = L[1 + t * pop + k].first; int v = bv[prev]; q[v].add(bv[x], pp[b][v], pp[b][v] * (1 - pp[b][v]), 1); } for (int v = 0; v < 2; v++) MON_CHECK(c, !q[v].far(), "mimic-chain", "generation %d: component %d given component %d = %d: excess %g over %ld samples (probability %g)", t, x, prev, v, q[v].s, q[v].k, pp[b][v]); c.count("chain links"); prev = x; left.erase(left.begin() + b); } }
  c.cover(c.description);
}
CASES(ram_umda_uniformity, 200, 3000) { // the population of RAM-UMDA spans what the selected individuals encode: a constant latent direction stays constant up to the bounds
  bool two = c.idx % 2; int n = c.rng.range(3, 20), pop = c.rng.range(10, 60), iters = c.rng.range(1, 6); Objective o = distinct(c.rng, n); std::shared_ptr<Algorithm> a; auto cfg = [&](auto p) { p->set_num_iterations(iters); p->set_selection_size(c.rng.range(1, pop)); p->set_ts_length_mode(0); p->set_ts_length(0); a = p; return p; }; if (two) { auto p = cfg(std::make_shared<RamUmda2>(n, pop)); p->set_crossover_probability(c.rng.real()); p->set_latent_space_probability(c.rng.real()); } else cfg(std::make_shared<RamUmda>(n, pop)); c.desc(fmt("RamUmda%d n=%d pop=%d iters=%d without transvections", 1 + two, n, pop, iters)); a->maximize({&o}); const Log& L = o.log; MON_CHECK(c, int(L.size()) == 1 + pop * iters, "ram-count", "%zu evaluations", L.size()); Mart m; for (int k = 0; k < pop; k++) for (auto b : L[1 + k].first) m.add(b, .5, .25, 1); MON_CHECK(c, !m.far(), "ram-init", "the first generation is not uniform"); c.cover(c.description); c.count("runs");
}
// RAM-UMDA without transvections, and RAM-UMDA-2 when it samples in the solution space only, are UMDA: the samples follow the frequencies of the selected
CASES(ram_umda_law, 600, 10000) {
  int var = c.idx % 3, n = c.rng.range(3, 20), pop = c.rng.range(10, 60), sel = c.rng.chance(.3) ? c.rng.range(1, 3) : c.rng.range(1, pop), iters = c.rng.range(2, 25), ts = 0; std::shared_ptr<RamUmda> a; if (var == 0) a = std::make_shared<RamUmda>(n, pop); else { auto p = std::make_shared<RamUmda2>(n, pop); a = p; if (var == 1) { p->set_crossover_probability(c.rng.pick(std::vector<double>{0, 0, .5, 1})); p->set_latent_space_probability(c.rng.pick(std::vector<double>{0, .5, 1, 1})); } else { p->set_crossover_probability(0); p->set_latent_space_probability(0); ts = c.rng.range(0, 10); } }
  a->set_num_iterations(iters); a->set_selection_size(sel); a->set_ts_length_mode(0); a->set_ts_length(ts); Objective o = distinct(c.rng, n); c.desc(fmt("RamUmda law variant %d n=%d pop=%d sel=%d ts=%d", var, n, pop, sel, ts)); a->maximize({&o}); const Log& L = o.log; Mart law[3];
  for (int t = 1; t < iters; t++) { Log s(L.begin() + 1 + (t - 1) * pop, L.begin() + 1 + t * pop); s = best_of(s, sel); for (int b = 0; b < n; b++) { double p = 0; for (auto& e : s) p += e.first[b]; p = std::clamp(p / sel, 1. / n, 1 - 1. / n); for (int k = 0; k < pop; k++) law[p < .34 ? 0 : p < .67 ? 1 : 2].add(L[1 + t * pop + k].first[b], p, p * (1 - p), 1); } c.count("generations"); }
  for (auto& m : law) MON_CHECK(c, !m.far(), "ram-law", "samples do not follow the selected individuals: excess %g over %ld (variance %g)", m.s, m.k, m.v); c.count(fmt("variant %d", var)); c.cover(c.description);
}
// Length of the transvection sequences. One individual is selected: without transvections its n bits flip independently at rate 1/n,
// with exactly one transvection one of them flips with another one, which shows in the mean number of flips.
CASES(ram_umda_length, 240, 3000) {
  int n = c.rng.range(4, 8), mode = c.idx % 6, pop = 600, iters = mode >= 3 ? 60 : c.rng.range(4, 12), period = c.rng.range(1, iters), l0 = c.rng.below(2), lo = 0, hi = 1; double q = c.rng.pick(std::vector<double>{.25, .5, .75}); if (mode >= 1 && c.rng.chance(.4)) { lo = hi = c.rng.below(2); if (mode == 1) lo = 0; if (mode == 2) hi = 1; } if (mode == 1 && l0 > hi) l0 = hi; if (mode == 2 && l0 < lo) l0 = lo;
  RamUmda a(n, pop); a.set_num_iterations(iters); a.set_selection_size(1); a.set_ts_length_mode(mode); a.set_ts_length(l0); a.set_ts_length_lower_bound(lo); a.set_ts_length_upper_bound(hi); a.set_ts_length_increment_period(period); a.set_ts_length_distribution_parameter(q); Objective o = distinct(c.rng, n); c.desc(fmt("RamUmda mode %d length %d in %d..%d period %d parameter %g n=%d iters=%d", mode, l0, lo, hi, period, q, n, iters)); a.maximize({&o}); const Log& L = o.log;
  double p = 1. / n, e0 = 1, v0 = 1 - p, e1 = (n - 2) * p + 3 * p - 2 * p * p, v1 = (n - 2) * p * (1 - p) + 5 * p - 4 * p * p - (3 * p - 2 * p * p) * (3 * p - 2 * p * p); Mart two[2], mix; int len = l0;
  for (int t = 1; t < iters; t++) { Log s(L.begin() + 1 + (t - 1) * pop, L.begin() + 1 + t * pop); BV best = best_of(s, 1)[0].first; double sum = 0; for (int k = 0; k < pop; k++) sum += dist(best, L[1 + t * pop + k].first);
    if (mode == 1 && t % period == 0) len++; if (mode == 1) len = std::min(len, hi); if (mode == 2 && t % period == 0) len--; if (mode == 2) len = std::max(len, lo); // before generation t the lengths have been updated t times
    double one = mode < 3 ? len : mode == 3 ? (lo + hi) / 2. : mode == 4 ? (hi ? 1 - q : 0) : lo ? 1 : hi ? q : 0; // probability that the sequence has one transvection
    if (one == 0 || one == 1) for (int k = 0; k < pop; k++) two[int(one)].add(dist(best, L[1 + t * pop + k].first), one ? e1 : e0, one ? v1 : v0, n); else mix.add(sum / pop, one * e1 + (1 - one) * e0, one * (1 - one) * (e1 - e0) * (e1 - e0) + (one * v1 + (1 - one) * v0) / pop, n); c.count(fmt("length %g", one)); }
  for (int k = 0; k < 2; k++) MON_CHECK(c, !two[k].far(), "ram-length", "generations with %d transvections: %g flips per sample, expected %g (%ld samples)", k, two[k].k ? two[k].s / two[k].k + (k ? e1 : e0) : 0., k ? e1 : e0, two[k].k); { double z = mix.k ? std::fabs(mix.s) / std::sqrt(mix.v) : 0; MON_CHECK(c, z < 8.5, "ram-length", "random lengths: the mean number of flips is %g standard deviations from its expectation over %ld generations", z, mix.k); } c.cover(c.description);
}
// Where runs start and what random search samples: uniform bit vectors, independent of the previous ones
CASES(random_start, 300, 4000) {
  int kind = c.idx % A_NUM; if (kind == A_CS) return; int n = std::max(min_n(kind), c.rng.range(12, 24)); Alg A = make(c.rng, kind, n, 20); while (!A.rinit || (kind == A_ITEA && A.mode == 4)) A = make(c.rng, kind, n, 20); c.desc("start of " + A.name); Mart bits, d; BV prev; Objective o(n, c.rng.below(6), c.rng.next());
  for (int k = 0; k < 60; k++) { o.log.clear(); OnBudgetFunction f(&o, kind == A_RS ? 6 : 1); run(A, {&f}); size_t m = o.log.size(); MON_CHECK(c, m >= 1 && (kind == A_RS || m == 1), "start-count", "%zu evaluations", m); for (auto& e : o.log) { for (auto b : e.first) bits.add(b, .5, .25, 1); if (!prev.empty()) d.add(dist(prev, e.first), n / 2., n / 4., n / 2.); prev = e.first; } }
  MON_CHECK(c, !bits.far() && !d.far(), "start-random", "%s: starting points are not uniform: ones exceed their expectation by %g over %ld bits, distances of successive ones by %g over %ld", A.name.c_str(), bits.s, bits.k, d.s, d.k); c.count(kname(kind)); c.cover(c.description);
}
// Steepest ascent: ties between best neighbours are broken uniformly
CASES(steepest_ties, 60, 1000) {
  int n = c.rng.range(6, 20); SingleBitFlipIterator it(n); SteepestAscentHillClimbing a(n, &it); a.set_num_iterations(0); Objective o(n, 5, c.rng.next()); BV start(n); for (int i = 0; i < n; i++) start[i] = !(mon::mix(o.salt + i) & 1); c.desc(fmt("steepest ascent, all improving neighbours tied, n=%d", n)); Mart m; a.set_random_initialization(false); a.set_starting_point(start);
  for (int k = 0; k < 12; k++) { o.log.clear(); a.maximize({&o}); a.finalize(); const Log& L = o.log; BV cur = start; for (size_t i = 1; i + n < L.size(); i += n) { BV nx(n); for (int b = 0; b < n; b++) { int ones = 0; for (int q = 0; q < n; q++) ones += L[i + n + q].first[b]; nx[b] = ones * 2 > n; } int f = -1, z = 0, rank = 0; for (int b = 0; b < n; b++) { bool wrong = bool(cur[b]) != bool(mon::mix(o.salt + b) & 1); if (nx[b] != cur[b]) { f = b; rank = z; } z += wrong; } MON_CHECK(c, f >= 0, "sahc-step", "no step"); m.add(rank, (z - 1) / 2., (double(z) * z - 1) / 12, z); cur = nx; c.count("steps"); } }
  MON_CHECK(c, !m.far(), "sahc-ties", "steepest ascent prefers some of the tied best neighbours: their rank exceeds its expectation by %g over %ld steps (variance %g)", m.s, m.k, m.v); c.cover(c.description);
}
int main(int a, char **v) { return mon::main(a, v); }
