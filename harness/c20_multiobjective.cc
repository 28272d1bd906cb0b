// C20: multi-objective optimization is faithful to Pareto dominance.
#include "mon.hh"
#include "fnlib.hh"
#include "hnco/multiobjective/algorithms/all.hh"
#include "hnco/multiobjective/functions/all.hh"
#include <map>
#include <set>
namespace mo = hnco::multiobjective; using mo::function::value_t; using mo::function::dominates; typedef mo::algorithm::Population Pop; using fl::BV; using mon::fmt;
static bool dom(const value_t& a, const value_t& b) { bool lt = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] > b[i]) return false; if (a[i] < b[i]) lt = true; } return lt; }
static std::vector<int> fronts(const std::vector<value_t>& v) { // by definition: peel off the non-dominated ones
  std::vector<int> f(v.size(), -1); for (size_t left = v.size(), k = 0; left; k++) { std::vector<size_t> now; for (size_t i = 0; i < v.size(); i++) if (f[i] < 0) { bool d = false; for (size_t j = 0; j < v.size() && !d; j++) d = f[j] < 0 && dom(v[j], v[i]); if (!d) now.push_back(i); } for (auto i : now) f[i] = k; left -= now.size(); } return f; }
static double num(mon::Ctx& c, int kind) { switch (kind) { case 0: return c.rng.gauss(); case 1: return c.rng.range(0, 3); case 2: return c.rng.range(-1, 1) * 1e300; case 3: return c.rng.pick(std::vector<double>{0, -0., 1e-320, 2e-320, -1e-320}); case 4: return c.rng.pick(std::vector<double>{-INFINITY, INFINITY, 1, 2, -1e308, 1e308}); default: return 1 + c.rng.range(0, 2) * 2.3e-16; } }

CASES(dominance, 18000, 100000) {
  int m = c.rng.chance(.9) ? c.rng.range(1, 6) : c.rng.range(7, 40), kind = c.rng.below(6); value_t a(m), b(m), d(m); for (int i = 0; i < m; i++) { a[i] = num(c, kind); b[i] = c.rng.chance(.5) ? a[i] : num(c, kind); d[i] = c.rng.chance(.5) ? b[i] : num(c, kind); } c.desc(fmt("dominance of %s over %s", mon::show(a).c_str(), mon::show(b).c_str()));
  MON_CHECK(c, dominates(a, b) == dom(a, b), "dominates", "dominates is %d", !dom(a, b)); MON_CHECK(c, !dominates(a, a), "irreflexive", "a value dominates itself"); MON_CHECK(c, !(dominates(a, b) && dominates(b, a)), "asymmetric", "both dominate each other"); if (dominates(a, b) && dominates(b, d)) { MON_CHECK(c, dominates(a, d), "transitive", "not transitive"); c.count("chains"); } c.count(dom(a, b) ? "dominates" : dom(b, a) ? "dominated" : "incomparable"); c.cover(c.description);
}
CASES(sorting, 7500, 50000) {
  int N = c.rng.chance(.96) ? c.rng.range(1, 40) : c.rng.range(41, 300), m = c.rng.chance(.9) ? c.rng.range(1, 4) : c.rng.range(5, 12), kind = c.rng.below(6), n = c.rng.range(1, 8); Pop P(N, n, m); std::unique_ptr<mo::algorithm::Nsga2ParetoFrontComputation> S(new mo::algorithm::Nsga2ParetoFrontComputation(P)); c.desc(fmt("fronts of %d values, %d objectives, kind %d", N, m, kind)); int rounds = c.rng.range(1, 3);
  for (int r = 0; r < rounds; r++) { bool chain = c.rng.chance(.2); for (int i = 0; i < N; i++) for (int k = 0; k < m; k++) P.values[i][k] = chain ? (i * 7 % N) : num(c, kind); auto vals = P.values; std::vector<int> got(N, -7); S->compute(got); auto want = fronts(vals); for (int i = 0; i < N; i++) MON_CHECK(c, got[i] == want[i], "front", "round %d: value %d %s is in front %d, expected %d", r, i, mon::show(vals[i]).c_str(), got[i], want[i]); MON_CHECK(c, P.values == vals, "front-changes", "the values are changed"); c.count(fmt("%d fronts", std::min(10, 1 + *std::max_element(want.begin(), want.end())))); c.cover(c.description + mon::show(std::vector<double>(want.begin(), want.end()))); }
}
CASES(pairs, 6000, 30000) {
  using mo::algorithm::FrontDistancePair; FrontDistancePair a{c.rng.range(0, 2), c.rng.pick(std::vector<double>{0, 1, 2.5, INFINITY})}, b{c.rng.range(0, 2), c.rng.pick(std::vector<double>{0, 1, 2.5, INFINITY})}; c.desc(fmt("pairs (%d,%g) (%d,%g)", a.pareto_front, a.crowding_distance, b.pareto_front, b.crowding_distance)); bool want = a.pareto_front < b.pareto_front || (a.pareto_front == b.pareto_front && a.crowding_distance > b.crowding_distance); MON_CHECK(c, (a < b) == want, "pair-order", "order of front-distance pairs is %d", !want); c.cover(c.description); c.count("pairs");
}
CASES(population, 1800, 8000) {
  int N = c.rng.range(1, 30), n = c.rng.range(1, 20), m = c.rng.range(1, 4); Pop P(N, n, m); c.desc(fmt("population %d %d %d", N, n, m)); P.random(); for (auto& x : P.bvs) { MON_CHECK(c, int(x.size()) == n, "size", "size %zu", x.size()); for (auto b : x) MON_CHECK(c, b == 0 || b == 1, "bit", "bit %d", int(b)); } auto old = P.bvs; int k = c.rng.range(1, 40); if (c.rng.bit()) { P.resize(k, n, m); MON_CHECK(c, P.get_size() == k, "resize", "size %d instead of %d", P.get_size(), k); } else { P.shrink(k); k = std::min(k, N); MON_CHECK(c, P.get_size() == k, "shrink", "size %d instead of %d", P.get_size(), k); } MON_CHECK(c, int(P.bvs.size()) == k && int(P.values.size()) == k, "resize", "inconsistent sizes"); for (int i = 0; i < k; i++) { MON_CHECK(c, int(P.bvs[i].size()) == n && int(P.values[i].size()) == m, "resize-shape", "individual %d has %zu bits and %zu values", i, P.bvs[i].size(), P.values[i].size()); if (i < N) MON_CHECK(c, P.bvs[i] == old[i], "resize-content", "individual %d changed", i); }
  auto throws = [&](int a, int b, int d) { try { Pop Q(a, b, d); } catch (const std::exception&) { return true; } return false; }; MON_CHECK(c, throws(0, 3, 2) && throws(3, 0, 2) && throws(3, 3, 0), "invalid", "an empty population is accepted"); c.cover(c.description); c.count("populations");
}
struct F : mo::function::Function { int n, m, kind; uint64_t salt; std::vector<std::pair<BV, value_t>> log; F(int n, int m, int kind, uint64_t salt) : n(n), m(m), kind(kind), salt(salt) {} int get_bv_size() const override { return n; } int get_output_size() const override { return m; }
  value_t value(const BV& x) const { value_t v(m); for (int k = 0; k < m; k++) { uint64_t h = salt + k * 77; double s = 0; for (int i = 0; i < n; i++) { h = mon::mix(h ^ (x[i] ? 0x51 + i : 0x3)); s += x[i] ? double(mon::mix(salt + 991 * k + i) % 1009) / 1009 - .5 : 0; } double u = double(h >> 12) / 4503599627370496.0; v[k] = kind == 0 ? u : kind == 1 ? s + u * 1e-3 : kind == 2 ? double(h % 4) : k ? 10 - s * (k + 1) : s; } return v; }
  void evaluate(const BV& x, value_t& v) override { v = value(x); log.push_back({x, v}); } };
typedef std::vector<std::pair<BV, value_t>> Log;
static std::vector<double> crowding(const Log& all, const std::vector<size_t>& fr, int m, bool& ties) { std::map<size_t, double> d; for (auto i : fr) d[i] = 0; std::vector<size_t> o = fr; for (int k = 0; k < m; k++) { std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return all[a].second[k] < all[b].second[k]; }); for (size_t i = 0; i + 1 < o.size(); i++) if (all[o[i]].second[k] == all[o[i + 1]].second[k]) ties = true; d[o.front()] = d[o.back()] = INFINITY; for (size_t i = 1; i + 1 < o.size(); i++) d[o[i]] += all[o[i + 1]].second[k] - all[o[i - 1]].second[k]; } std::vector<double> r; for (auto i : fr) r.push_back(d[i]); return r; }
CASES(nsga2, 4500, 40000) {
  int n = c.rng.chance(.7) ? c.rng.range(14, 40) : c.rng.range(1, 14), m = c.rng.chance(.9) ? c.rng.range(1, 4) : c.rng.range(5, 9), pop = c.rng.chance(.96) ? c.rng.range(3, 24) : c.rng.range(25, 150), iters = c.rng.bit() ? c.rng.range(1, 3) : c.rng.range(1, 12), kind = c.rng.pick(std::vector<int>{0, 0, 1, 1, 2, 3}); mo::algorithm::Nsga2 a(n, m, pop); int t = 2; a.set_num_iterations(iters); if (c.rng.chance(.7)) { t = c.rng.range(2, pop - 1); a.set_tournament_size(t); } double rate = 1. / n; if (c.rng.chance(.6)) { rate = c.rng.pick(std::vector<double>{0, 1, 1. / n, .3}); a.set_mutation_rate(rate); } bool no_mut = rate == 0 || c.rng.bit(); a.set_allow_no_mutation(no_mut); double cx = .8; if (c.rng.chance(.7)) { cx = c.rng.pick(std::vector<double>{0, 0, .5, 1}); a.set_crossover_probability(cx); }
  int runs = c.rng.range(1, 3); c.desc(fmt("Nsga2 n=%d m=%d pop=%d iters=%d t=%d rate=%g no_mut=%d cx=%g kind=%d runs=%d", n, m, pop, iters, t, rate, no_mut, cx, kind, runs));
  for (int r = 0; r < runs; r++) { F f(n, m, kind, c.rng.next()); a.minimize({&f}); const Log& L = f.log; MON_CHECK(c, int(L.size()) == pop * (iters + 1), "nsga2-count", "run %d: %zu evaluations, expected %d", r, L.size(), pop * (iters + 1)); const Pop& S = a.get_solutions(); int k = S.get_size(); MON_CHECK(c, k >= 1 && k <= pop && int(S.values.size()) == k, "nsga2-size", "%d solutions from a population of %d", k, pop);
    for (int i = 0; i < k; i++) { MON_CHECK(c, S.values[i] == f.value(S.bvs[i]), "nsga2-untruthful", "run %d: a solution has value %s, reported %s", r, mon::show(f.value(S.bvs[i])).c_str(), mon::show(S.values[i]).c_str()); bool seen = false; for (auto& e : L) seen |= e.first == S.bvs[i]; MON_CHECK(c, seen, "nsga2-unevaluated", "a solution was not evaluated"); for (int j = 0; j < k; j++) MON_CHECK(c, !dom(S.values[i], S.values[j]), "nsga2-dominated", "run %d: solution %d dominates solution %d", r, i, j); }
    // replay the environmental selection as long as it is determined by the trace
    Log P(L.begin(), L.begin() + pop); std::vector<int> pf; { std::vector<value_t> v; for (auto& e : P) v.push_back(e.second); pf = fronts(v); } bool exact = true; for (int it = 0; it < iters && exact; it++) { Log O(L.begin() + (it + 1) * pop, L.begin() + (it + 2) * pop);
      // offspring of known parents
      if (rate == 0 || rate == 1) for (auto& e : O) { BV x = e.first; if (rate == 1) for (auto& b : x) b = !b; bool ok = false; for (size_t i = 0; i < P.size() && !ok; i++) for (size_t j = cx > 0 ? i : 0; j < (cx > 0 ? P.size() : 1) && !ok; j++) { bool q = true; for (int b = 0; b < n && q; b++) q = x[b] == P[i].first[b] || (cx > 0 && x[b] == P[j].first[b]); ok = q; } MON_CHECK(c, ok, "nsga2-parent", "run %d iteration %d: an offspring stems from no parents of the selected population", r, it); c.count("offspring traced"); }
      if (cx == 0 && (rate == 0 || rate == 1)) for (auto& e : O) { BV x = e.first; if (rate == 1) for (auto& b : x) b = !b; int bf = 1 << 30; for (size_t i = 0; i < P.size(); i++) if (P[i].first == x) bf = std::min(bf, pf[i]); int ge = 0; for (int q : pf) ge += q >= bf; MON_CHECK(c, ge >= t, "nsga2-tournament", "run %d iteration %d: a parent of front %d won a tournament of size %d, only %d individuals are not in a better front", r, it, bf, t, ge); }
      Log all = P; all.insert(all.end(), O.begin(), O.end()); std::vector<value_t> v; for (auto& e : all) v.push_back(e.second); auto fr = fronts(v); Log next; std::vector<int> nf; int front = 0; while (int(next.size()) < pop) { std::vector<size_t> g; for (size_t i = 0; i < all.size(); i++) if (fr[i] == front) g.push_back(i); if (int(next.size() + g.size()) <= pop) { for (auto i : g) { next.push_back(all[i]); nf.push_back(front); } } else { bool ties = false; auto d = crowding(all, g, m, ties); std::vector<size_t> o(g.size()); for (size_t i = 0; i < o.size(); i++) o[i] = i; std::sort(o.begin(), o.end(), [&](size_t x, size_t y) { return d[x] > d[y]; }); size_t need = pop - next.size(); double x = d[o[need - 1]], y = d[o[need]]; if (ties || !(x > y + 1e-9 * std::fabs(y))) { exact = false; break; } for (size_t i = 0; i < need; i++) { next.push_back(all[g[o[i]]]); nf.push_back(front); } c.count("fronts cut by crowding"); } front++; } if (exact) { P = next; pf = nf; c.count("selections replayed"); } }
    if (exact) { std::vector<value_t> v; for (auto& e : P) v.push_back(e.second); auto fr = fronts(v); std::multiset<std::pair<BV, value_t>> want, got; for (size_t i = 0; i < P.size(); i++) if (!fr[i]) want.insert(P[i]); for (int i = 0; i < k; i++) got.insert({S.bvs[i], S.values[i]}); MON_CHECK(c, want == got, "nsga2-front", "run %d: the solutions (%zu) are not the first front (%zu) of the population selected by front and crowding", r, got.size(), want.size()); c.count("final fronts"); } else c.count("ambiguous"); 
    // elitism: with one objective the best value is never lost
    if (m == 1) { double best = INFINITY; for (auto& e : L) best = std::min(best, e.second[0]); MON_CHECK(c, S.values[0][0] == best, "nsga2-elitism", "best value %g, solution %g", best, S.values[0][0]); } c.cover(c.description + fmt("%d", k)); }
}
CASES(nsga2_rates, 750, 5000) { // mutation rate: offspring of a converged population
  int n = c.rng.range(8, 40), pop = c.rng.range(4, 24), iters = 8; double rate = c.rng.pick(std::vector<double>{.5 / n, 1. / n, .2, .5}), cx = c.rng.pick(std::vector<double>{0, 1}); bool no_mut = c.rng.bit(); struct G : F { using F::F; bool first = true; void evaluate(const BV& x, value_t& v) override { v.assign(m, 0); int w = fl::wt(x); for (int k = 0; k < m; k++) v[k] = -w; log.push_back({x, v}); } } f(n, 1, 0, c.rng.next()); mo::algorithm::Nsga2 a(n, 1, pop); a.set_num_iterations(iters); a.set_mutation_rate(rate); a.set_allow_no_mutation(no_mut); a.set_crossover_probability(cx); c.desc(fmt("Nsga2 rate=%g no_mut=%d n=%d pop=%d cx=%g", rate, no_mut, n, pop, cx)); a.minimize({&f});
  // one objective, replay the population: the number of flips relative to the nearest parent is at most the flips made
  if (cx == 0) { std::multiset<double> dummy; Log P(f.log.begin(), f.log.begin() + pop); double e = n * rate, q = no_mut ? 1 : 1 - std::pow(1 - rate, n); long tot = 0, N = 0, zero = 0; for (int i = 0; i < pop; i++) { int d = n; for (auto& p : P) d = std::min(d, [&] { int s = 0; for (int b = 0; b < n; b++) s += p.first[b] != f.log[pop + i].first[b]; return s; }()); tot += d; zero += d == 0; N++; } double sd = std::sqrt(N * (n * rate * (1 - rate) + e * e) / q); MON_CHECK(c, tot <= N * e / q + 7 * sd + 5, "nsga2-rate", "offspring differ from their nearest parents by %g bits on average, mutation rate %g", double(tot) / N, rate); if (!no_mut) c.count("mutated", N - zero); } c.cover(c.description); c.count("runs");
}
CASES(nsga2_crossover_rate, 180, 1000) { // first generation, long bit vectors: a recombination of two individuals is never a copy
  int n = 120, m = 2, pop = c.rng.range(20, 60); double cx = c.rng.pick(std::vector<double>{0, .2, .5, .8, 1}); mo::algorithm::Nsga2 a(n, m, pop); a.set_num_iterations(1); a.set_mutation_rate(0); a.set_allow_no_mutation(true); a.set_crossover_probability(cx); c.desc(fmt("Nsga2 crossover probability %g pop=%d", cx, pop)); long copies = 0, N = 0;
  for (int k = 0; k < 10; k++) { F f(n, m, 0, c.rng.next()); a.minimize({&f}); std::set<BV> par; for (int i = 0; i < pop; i++) par.insert(f.log[i].first); for (int i = 0; i < pop; i++) { copies += par.count(f.log[pop + i].first); N++; } }
  // two winners may be the same individual: at most half of the recombinations
  double hi = std::min(1., 1 - cx + cx * .5); MON_CHECK(c, mon::plausible_binomial(N, hi, std::max(copies, long(N * hi))) && mon::plausible_binomial(N, 1 - cx, std::min(copies, long(N * (1 - cx)))), "nsga2-cx", "%ld copies among %ld offspring, crossover probability %g", copies, N, cx); c.count("offspring", N);
  // second generation: its parents come from the first two
  a.set_crossover_probability(1); a.set_num_iterations(2); long late = 0, M = 0; for (int k = 0; k < 4; k++) { F f(n, m, 0, c.rng.next()); a.minimize({&f}); std::set<BV> par; for (int i = 0; i < 2 * pop; i++) par.insert(f.log[i].first); for (int i = 0; i < pop; i++) { late += par.count(f.log[2 * pop + i].first); M++; } }
  MON_CHECK(c, mon::plausible_binomial(M, .6, std::max(late, long(M * .6))), "nsga2-cx", "%ld copies among %ld offspring of the second generation, crossover probability 1", late, M); c.cover(c.description);
}
int main(int a, char **v) { return mon::main(a, v); }
