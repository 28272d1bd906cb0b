// C17: populations, selections and crossovers preserve individuals.
#include "alglib.hh"
#include <map>
#include <set>
using namespace al; using hnco::algorithm::Population;
typedef std::pair<BV, double> Ind;
static std::multiset<Ind> content(Population& P) { std::multiset<Ind> s; for (int i = 0; i < P.get_size(); i++) s.insert({P.bvs[i], P.values[i]}); return s; }
static double level(mon::Ctx& c, int kind) { switch (kind) { case 0: return c.rng.gauss(); case 1: return c.rng.range(-2, 2); case 2: return 3; case 3: return -1e300 * c.rng.real(); case 4: return c.rng.pick(std::vector<double>{-INFINITY, INFINITY, 0, -0., 1e-310, 5}); default: return c.rng.range(0, 9) * 1e-9; } }
static void fill(mon::Ctx& c, Population& P, int kind) { for (int i = 0; i < P.get_size(); i++) { P.bvs[i] = fl::rbv(c.rng, P.get_bv_size()); P.values[i] = level(c, kind); } }
static bool is_perm(const hnco::permutation_t& p, int n) { std::set<int> s(p.begin(), p.end()); return int(p.size()) == n && int(s.size()) == n && *s.begin() == 0 && *s.rbegin() == n - 1; }

CASES(evaluate, 2400, 10000) {
  int N = c.rng.range(1, 60), n = c.rng.range(1, 40); Population P(N, n); c.desc(fmt("population of %d, %d bits", N, n)); MON_CHECK(c, P.get_size() == N && P.get_bv_size() == n, "sizes", "population of %d x %d", P.get_size(), P.get_bv_size()); P.random(); for (auto& x : P.bvs) { MON_CHECK(c, int(x.size()) == n, "random-size", "random bit vector of size %zu", x.size()); for (auto b : x) MON_CHECK(c, b == 0 || b == 1, "random-bit", "bit %d", int(b)); }
  Objective o = mkobj(c.rng, n); auto before = P.bvs; P.evaluate(&o); MON_CHECK(c, P.bvs == before, "evaluate-changes", "evaluation changes bit vectors"); MON_CHECK(c, int(o.log.size()) == N, "evaluate-count", "%zu evaluations of %d individuals", o.log.size(), N); for (int i = 0; i < N; i++) MON_CHECK(c, P.values[i] == o.value(P.bvs[i]) && o.log[i].first == P.bvs[i], "evaluate", "individual %d has value %g, expected %g", i, P.values[i], o.value(P.bvs[i])); c.cover(c.description); c.count("evaluated", N);
}
CASES(sorting, 12000, 60000) {
  int N = c.rng.chance(.95) ? c.rng.range(1, 50) : c.rng.range(100, 1200), n = c.rng.chance(.95) ? c.rng.range(1, 20) : c.rng.range(60, 300), kind = c.rng.below(6); Population P(N, n); fill(c, P, kind); c.desc(fmt("sorting %d individuals, values %d", N, kind)); auto bvs = P.bvs; auto vals = P.values; std::vector<double> want = vals; std::sort(want.begin(), want.end(), std::greater<double>()); int rounds = c.rng.range(1, 3);
  for (int r = 0; r < rounds; r++) { bool part = c.rng.bit(); int k = part ? c.rng.range(1, N) : N; if (part) P.partial_sort(k); else P.sort(); const char *w = part ? "partial sort" : "sort";
    MON_CHECK(c, is_perm(P.permutation, N), "sort-permutation", "%s: the permutation is not a permutation", w); MON_CHECK(c, P.bvs == bvs && P.values == vals, "sort-content", "%s changes the individuals", w);
    for (int i = 0; i < k; i++) { MON_CHECK(c, P.get_best_value(i) == want[i], "sort-order", "%s(%d): value %g at rank %d, expected %g", w, k, P.get_best_value(i), i, want[i]); int j = P.get_best_index(i); MON_CHECK(c, j >= 0 && j < N && P.get_best_bv(i) == bvs[j] && vals[j] == P.get_best_value(i), "sort-pairs", "%s: bit vector and value at rank %d do not belong together", w, i); }
    MON_CHECK(c, P.get_best_value() == want[0] && P.get_best_bv() == P.get_best_bv(0) && P.get_best_index() == P.get_best_index(0), "sort-best", "%s: the best individual is not the best", w);
    if (!part) { for (int i = 0; i < N; i++) { MON_CHECK(c, P.get_worst_bv(i) == P.get_best_bv(N - 1 - i), "sort-worst", "worst %d", i); auto e = P.get_equivalent_bvs(i); int a = 0, b = 0; for (double v : want) { a += v > want[i]; b += v >= want[i]; } MON_CHECK(c, e.first == a && e.second == b, "equivalent", "equivalence class of rank %d is [%d, %d), expected [%d, %d)", i, e.first, e.second, a, b); c.count(b - a > 1 ? "classes with ties" : "singletons"); } } c.count(w); }
  c.cover(c.description + mon::show(want));
}
CASES(tie_breaking, 480, 2000) {
  int N = c.rng.range(2, 12), n = 3, k = c.rng.range(1, N); bool part = c.rng.bit(); Population P(N, n); fill(c, P, 2); bool lead = N > 3 && c.rng.bit(); if (lead) P.values[c.rng.below(N)] = 9; int L = lead ? 1 : 0, tied = N - L; if (k <= L) k = N; const int R = 3000; std::vector<long> at(N); c.desc(fmt("ties among %d of %d, %s", tied, N, part ? "partial sort" : "sort")); for (int r = 0; r < R; r++) { if (part) P.partial_sort(k); else P.sort(); at[P.get_best_index(L)]++; }
  for (int i = 0; i < N; i++) { double p = P.values[i] == 9 ? 0 : 1. / tied; MON_CHECK(c, p == 0 ? at[i] == 0 : mon::plausible_binomial(R, p, at[i]), "tie-bias", "individual %d is first among %d tied ones %ld times of %d", i, tied, at[i], R); } c.count("sorts", R); c.cover(c.description);
}
// ---- replacement
CASES(replacement, 10000, 60000) {
  bool plus = c.rng.bit(); int top = c.rng.chance(.95) ? 15 : 200, mu = c.rng.range(1, top), lambda = plus ? c.rng.range(1, top) : mu + c.rng.range(0, top - 3), n = c.rng.chance(.95) ? c.rng.range(1, 24) : c.rng.range(60, 200), kind = c.rng.below(6); Population P(mu, n), O(lambda, n); fill(c, P, kind); c.desc(fmt("%s selection mu=%d lambda=%d values %d", plus ? "plus" : "comma", mu, lambda, kind)); std::unique_ptr<CommaSelection> cs; std::unique_ptr<PlusSelection> ps; if (plus) ps.reset(new PlusSelection(P, O)); else cs.reset(new CommaSelection(P, O)); if (c.rng.bit()) P.sort(); int rounds = c.rng.range(1, 5);
  for (int r = 0; r < rounds; r++) { fill(c, O, kind); if (c.rng.bit()) O.sort(); std::multiset<Ind> pool = content(O); if (plus) for (auto& e : content(P)) pool.insert(e); std::vector<double> want; for (auto& e : pool) want.push_back(e.second); std::sort(want.begin(), want.end(), std::greater<double>()); if (plus) ps->select(); else cs->select();
    MON_CHECK(c, P.get_size() == mu && O.get_size() == lambda, "replacement-size", "sizes %d and %d after selection", P.get_size(), O.get_size()); MON_CHECK(c, is_perm(P.permutation, mu), "replacement-permutation", "no permutation"); std::vector<double> got = P.values; std::sort(got.begin(), got.end(), std::greater<double>()); for (int i = 0; i < mu; i++) { MON_CHECK(c, got[i] == want[i], "replacement-best", "round %d: value of rank %d among the parents is %g, expected %g", r, i, got[i], want[i]); MON_CHECK(c, P.get_best_value(i) == want[i], "replacement-sorted", "round %d: parents are not sorted after selection", r); auto it = pool.find({P.bvs[i], P.values[i]}); MON_CHECK(c, it != pool.end(), "replacement-individual", "round %d: parent %d is not an individual of the pool", r, i); pool.erase(it); }
    for (auto& x : O.bvs) MON_CHECK(c, int(x.size()) == n, "replacement-offspring", "offspring of size %zu after selection", x.size()); c.count(plus ? "plus" : "comma"); }
  c.cover(c.description + mon::show(P.values));
}
// ---- selection for reproduction
static int index_of(const Population& P, const BV& x) { for (int i = 0; i < P.get_size(); i++) if (P.bvs[i] == x) return i; return -1; }
static void distinct_bvs(mon::Ctx& c, Population& P) { std::set<BV> s; for (auto& x : P.bvs) do x = fl::rbv(c.rng, P.get_bv_size()); while (!s.insert(x).second); }
CASES(tournament, 4800, 25000) {
  int N = c.rng.chance(.95) ? c.rng.range(3, 30) : c.rng.range(31, 400), n = 12, t = c.rng.range(2, N - 1), kind = c.rng.below(6); Population P(N, n); fill(c, P, kind); distinct_bvs(c, P); TournamentSelection S(P); S.set_tournament_size(t); S.init(); c.desc(fmt("tournament of %d among %d, values %d", t, N, kind)); int m = N / t; auto before = P.bvs;
  for (int r = 0; r < 20; r++) { std::set<int> won; std::vector<double> w; for (int k = 0; k < m; k++) { const BV& x = S.select(); int i = index_of(P, x); MON_CHECK(c, i >= 0, "tournament-member", "selected bit vector is not in the population"); MON_CHECK(c, won.insert(i).second, "tournament-replacement", "an individual wins two tournaments of a round without replacement"); w.push_back(P.values[i]); } std::sort(w.begin(), w.end()); for (int k = 0; k < m; k++) { int le = 0; for (double v : P.values) le += v <= w[k]; MON_CHECK(c, le >= (k + 1) * t, "tournament-winner", "a winner of value %g has only %d individuals at most as good, %d tournaments of size %d need %d", w[k], le, k + 1, t, (k + 1) * t); } if (m * t == N) MON_CHECK(c, w.back() == *std::max_element(P.values.begin(), P.values.end()), "tournament-best", "the best individual took part but did not win"); c.count("tournaments", m); }
  MON_CHECK(c, P.bvs == before, "tournament-changes", "selection changes the population"); c.cover(c.description);
}
CASES(tournament_law, 480, 2000) { // probability that an individual of rank r wins a tournament of size t
  int N = c.rng.range(3, 14), t = c.rng.range(2, N - 1), n = 8; Population P(N, n); distinct_bvs(c, P); for (int i = 0; i < N; i++) P.values[i] = i; c.rng.shuffle(P.values); TournamentSelection S(P); S.set_tournament_size(t); S.init(); const int R = 6000; std::vector<long> won(N); c.desc(fmt("law of tournaments of %d among %d", t, N)); for (int k = 0; k < R; k++) won[int(P.values[index_of(P, S.select())])]++; auto C = [](int a, int b) { if (b > a || b < 0) return 0.; double r = 1; for (int i = 1; i <= b; i++) r = r * (a - b + i) / i; return r; };
  for (int v = 0; v < N; v++) { double p = C(v, t - 1) / C(N, t); MON_CHECK(c, p == 0 ? won[v] == 0 : mon::plausible_binomial(R, p, won[v]), "tournament-law", "the individual of rank %d wins %ld tournaments of %d, expected probability %g", v, won[v], R, p); } c.count("tournaments", R); c.cover(c.description);
}
CASES(random_selection, 600, 3000) {
  int which = c.idx % 3, N = c.rng.range(1, 14), n = 10; Population P(N, n); distinct_bvs(c, P); std::vector<double> p(N, 1. / N); std::shared_ptr<hnco::algorithm::RandomSelection> S; double beta = 0;
  for (auto& v : P.values) v = which == 1 ? c.rng.pick(std::vector<double>{.1, 1, 2, 7.5, 1e-3}) * (c.rng.chance(.15) ? 0 : 1) + (N == 1) : c.rng.gauss() * 3; if (which == 1) P.values[0] = 1;
  if (which == 0) S = std::make_shared<UniformSelection>(P); else if (which == 1) { S = std::make_shared<FitnessProportionateSelection>(P); double s = 0; for (double v : P.values) s += v; for (int i = 0; i < N; i++) p[i] = P.values[i] / s; } else { auto b = std::make_shared<BoltzmannSelection>(P); S = b; beta = 1; if (c.rng.chance(.8)) { beta = c.rng.pick(std::vector<double>{0, .1, 1, 3, -.5}); b->set_beta(beta); } if (beta < 0) { beta = .7; b->set_beta(beta); } if (c.rng.chance(.3)) for (auto& v : P.values) v = v * 100 + 1e4; double mx = *std::max_element(P.values.begin(), P.values.end()), s = 0; for (int i = 0; i < N; i++) s += p[i] = std::exp(beta * (P.values[i] - mx)); for (auto& x : p) x /= s; }
  c.desc(fmt("%s selection among %d beta=%g", which == 0 ? "uniform" : which == 1 ? "fitness proportionate" : "Boltzmann", N, beta)); S->init(); const int R = 4000; std::vector<long> k(N); long same = 0; int prev = -1; double p2 = 0; for (double x : p) p2 += x * x; for (int r = 0; r < R; r++) { int i = index_of(P, S->select()); if (r % 2) same += i == prev; prev = i; MON_CHECK(c, i >= 0, "selection-member", "selected bit vector is not in the population"); k[i]++; } for (int i = 0; i < N; i++) MON_CHECK(c, p[i] < 1e-300 ? k[i] == 0 : mon::plausible_binomial(R, p[i], k[i]), "selection-law", "individual %d (value %g) is selected %ld times of %d, expected probability %g", i, P.values[i], k[i], R, p[i]);
  MON_CHECK(c, mon::plausible_binomial(R / 2, std::min(1., p2), same), "selection-independent", "two successive selections are the same individual %ld times of %d, expected probability %g", same, R / 2, p2);
  // the population changes: a new init takes the new values
  if (which == 1 && N > 1) { for (auto& v : P.values) v = 0; P.values[N - 1] = 2; S->init(); for (int r = 0; r < 50; r++) MON_CHECK(c, index_of(P, S->select()) == N - 1, "selection-stale", "selection uses the values of a previous population"); } c.count("selections", R); c.cover(c.description);
}
// ---- crossover
CASES(crossover, 3200, 15000) {
  bool biased = c.rng.bit(); int n = c.rng.chance(.93) ? c.rng.range(1, 40) : c.rng.range(64, 300), R = 300; double bias = .5; BiasedCrossover B; UniformCrossover U; if (biased && c.rng.chance(.8)) { bias = c.rng.pick(std::vector<double>{.01, .1, .3, .5, .7, .95}); B.set_bias(bias); } BV p1 = fl::rbv(c.rng, n), p2 = fl::rbv(c.rng, n); if (c.rng.chance(.2)) p2 = p1; if (c.rng.chance(.3)) for (int i = 0; i < n; i++) p2[i] = !p1[i]; c.desc(fmt("%s crossover n=%d bias=%g", biased ? "biased" : "uniform", n, bias)); BV a = p1, b = p2, child(n); std::vector<long> from2(n); std::vector<long> pairs(4); hnco::algorithm::Crossover& X = biased ? static_cast<hnco::algorithm::Crossover&>(B) : U; int d1 = -1, d2 = -1; for (int i = 0; i < n; i++) if (p1[i] != p2[i]) { if (d1 < 0) d1 = i; else d2 = i; }
  for (int r = 0; r < R; r++) { child = fl::rbv(c.rng, n); X.recombine(p1, p2, child); MON_CHECK(c, p1 == a && p2 == b, "crossover-parents", "recombination changes a parent"); MON_CHECK(c, int(child.size()) == n, "crossover-size", "child of size %zu", child.size()); for (int i = 0; i < n; i++) { MON_CHECK(c, child[i] == p1[i] || child[i] == p2[i], "crossover-bit", "bit %d comes from neither parent", i); from2[i] += child[i] == p2[i]; } if (d2 >= 0) pairs[(child[d1] == p2[d1]) * 2 + (child[d2] == p2[d2])]++; }
  for (int i = 0; i < n; i++) if (p1[i] != p2[i]) MON_CHECK(c, mon::plausible_binomial(R, bias, from2[i]), "crossover-bias", "bit %d is taken from the second parent %ld times of %d, expected probability %g", i, from2[i], R, bias); if (d2 >= 0) for (int q = 0; q < 4; q++) { double p = (q & 2 ? bias : 1 - bias) * (q & 1 ? bias : 1 - bias); MON_CHECK(c, mon::plausible_binomial(R, p, pairs[q]), "crossover-independence", "bits %d and %d: outcome %d seen %ld times of %d, expected probability %g", d1, d2, q, pairs[q], R, p); } c.count("children", R); c.cover(c.description);
}
// ---- invalid arguments
CASES(invalid, 240, 240) {
  auto throws = [&](const char *w, std::function<void()> f) { bool t = false; try { f(); } catch (const std::exception&) { t = true; } MON_CHECK(c, t, fmt("accepted:%s", w), "%s is accepted", w); }; int bad = c.rng.range(-3, 0); c.desc(fmt("invalid arguments %d", bad)); throws("empty population", [&] { Population P(0, 3); }); throws("empty bit vectors", [&] { Population P(3, 0); });
  int mu = c.rng.range(2, 9); Population P(mu, 4), O(mu - 1, 4), Q(3, 5); throws("comma selection with too few offspring", [&] { CommaSelection s(P, O); }); throws("plus selection of different sizes", [&] { PlusSelection s(P, Q); }); Population T(c.rng.range(3, 9), 4); for (int t : {bad, 1, T.get_size() + 1}) throws("tournament size", [&] { TournamentSelection S(T); S.set_tournament_size(t); S.init(); }); c.count("rejections"); c.cover(c.description);
}
int main(int a, char **v) { return mon::main(a, v); }
