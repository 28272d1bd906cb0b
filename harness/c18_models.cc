// C18: probability models keep their invariants and sample the law they encode.
#include "alglib.hh"
#include <map>
using namespace al; using namespace hnco::algorithm::walsh_moment; using hnco::algorithm::pv_t;
struct Mart { double s = 0, v = 0, m = 0; long k = 0; void add(double x, double mean, double var, double bound) { s += x - mean; v += var; m = std::max(m, bound); k++; } bool far() const { double t = std::fabs(s); return t > 1e-9 && t * t / (2 * (v + m * t / 3)) > 29; } };
static int sg(int b) { return b ? -1 : 1; }
static bool eq(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
static pv_t rpv(mon::Ctx& c, int n) { pv_t p(n); for (auto& x : p) x = c.rng.chance(.2) ? c.rng.pick(std::vector<double>{0, 1, .5, 1e-12, 1 - 1e-12}) : c.rng.real(); return p; }

// ---- probability vectors
CASES(pv_operations, 6000, 60000) {
  int n = c.rng.chance(.95) ? c.rng.range(1, 40) : c.rng.range(64, 500), k = c.rng.range(1, 30); pv_t a = rpv(c, n), m(n, 7); std::vector<double> s(n, 0), w(n, 0); c.desc(fmt("pv operations n=%d, %d bit vectors", n, k)); hnco::algorithm::pv_init(m); pv_t mw(n, 3); hnco::algorithm::pv_init(mw); for (double x : m) MON_CHECK(c, x == 0, "pv-init", "pv_init gives %g", x);
  for (int t = 0; t < k; t++) { BV x = fl::rbv(c.rng, n); double q = c.rng.gauss(); hnco::algorithm::pv_add(m, x); hnco::algorithm::pv_add(mw, x, q); for (int i = 0; i < n; i++) { s[i] += x[i] ? 1 : 0; w[i] += q * (x[i] ? 1 : 0); } } for (int i = 0; i < n; i++) { MON_CHECK(c, m[i] == s[i], "pv-add", "component %d is %g after adding %d bit vectors, expected %g", i, m[i], k, s[i]); MON_CHECK(c, eq(mw[i], w[i]), "pv-add-weighted", "component %d is %g, expected %g", i, mw[i], w[i]); } hnco::algorithm::pv_average(m, k); for (int i = 0; i < n; i++) MON_CHECK(c, eq(m[i], s[i] / k), "pv-average", "component %d is %g, expected %g", i, m[i], s[i] / k);
  double r = c.rng.pick(std::vector<double>{0, 1e-6, .1, .5, 1}); pv_t b = a; hnco::algorithm::pv_update(b, m, r); for (int i = 0; i < n; i++) { MON_CHECK(c, eq(b[i], a[i] + r * (m[i] - a[i])), "pv-update", "component %d is %g, expected %g", i, b[i], a[i] + r * (m[i] - a[i])); MON_CHECK(c, b[i] >= -1e-15 && b[i] <= 1 + 1e-15, "pv-range", "component %d is %.17g", i, b[i]); } BV x = fl::rbv(c.rng, n); b = a; hnco::algorithm::pv_update(b, x, r); for (int i = 0; i < n; i++) MON_CHECK(c, eq(b[i], a[i] + r * ((x[i] ? 1. : 0.) - a[i])), "pv-update-bv", "component %d is %g", i, b[i]);
  pv_t y = rpv(c, n); b = a; hnco::algorithm::pv_update(b, m, y, r); for (int i = 0; i < n; i++) MON_CHECK(c, eq(b[i], a[i] + r * (m[i] - y[i])), "pv-update-two", "component %d is %g, expected %g", i, b[i], a[i] + r * (m[i] - y[i]));
  double lo = c.rng.real(0, .5), hi = c.rng.real(.5, 1); for (auto& z : b) if (c.rng.chance(.3)) z = c.rng.real(-2, 3); pv_t d = b; hnco::algorithm::pv_bound(d, lo, hi); for (int i = 0; i < n; i++) MON_CHECK(c, d[i] == std::clamp(b[i], lo, hi), "pv-bound", "component %g bounded to %g in [%g, %g]", b[i], d[i], lo, hi);
  double H = 0; for (double p : a) if (p > 0 && p < 1) H -= p * std::log(p) + (1 - p) * std::log1p(-p); MON_CHECK(c, std::fabs(hnco::algorithm::pv_entropy(a) - H) <= 1e-6 * (1 + H), "pv-entropy", "entropy %g, expected %g", hnco::algorithm::pv_entropy(a), H); hnco::algorithm::pv_uniform(b); for (double z : b) MON_CHECK(c, z == .5, "pv-uniform", "uniform component %g", z); c.cover(c.description + mon::show(a)); c.count("vectors");
}
CASES(pv_sampling, 500, 5000) {
  int n = c.rng.chance(.95) ? c.rng.range(1, 16) : c.rng.range(64, 140), R = 1500; pv_t p = rpv(c, n), q = p; std::vector<long> one(n); std::vector<long> joint(n * n); BV x(n); c.desc(fmt("pv sampling n=%d", n)); for (int r = 0; r < R; r++) { x = fl::rbv(c.rng, n); hnco::algorithm::pv_sample(p, x); for (int i = 0; i < n; i++) { MON_CHECK(c, x[i] == 0 || x[i] == 1, "sample-bit", "bit %d", int(x[i])); one[i] += x[i]; for (int j = 0; j < i; j++) joint[i * n + j] += x[i] && x[j]; } }
  MON_CHECK(c, p == q, "sample-changes", "sampling changes the vector"); for (int i = 0; i < n; i++) { MON_CHECK(c, p[i] == 0 ? one[i] == 0 : p[i] == 1 ? one[i] == R : mon::plausible_binomial(R, p[i], one[i]), "sample-law", "bit %d is one %ld times of %d, probability %g", i, one[i], R, p[i]); for (int j = 0; j < i; j++) MON_CHECK(c, mon::plausible_binomial(R, p[i] * p[j], joint[i * n + j]), "sample-independence", "bits %d and %d are both one %ld times of %d, expected probability %g", i, j, joint[i * n + j], R, p[i] * p[j]); } c.count("samples", R); c.cover(c.description + mon::show(p));
}
// ---- moments
template<class M> double& second(M& m, int i, int j) { return i > j ? m.second_moment[i][j] : m.second_moment[j][i]; }
struct Ref { int n; std::vector<double> f; std::vector<std::vector<double>> s; Ref(int n) : n(n), f(n), s(n, std::vector<double>(n)) {} void each(std::function<double(double, int, int)> g) { for (int i = 0; i < n; i++) { f[i] = g(f[i], i, i); for (int j = 0; j < i; j++) s[i][j] = g(s[i][j], i, j); } } double get(int i, int j) const { return i == j ? f[i] : s[std::max(i, j)][std::min(i, j)]; } void add(const BV& x) { each([&](double v, int i, int j) { return v + (i == j ? sg(x[i]) : sg(x[i]) * sg(x[j])); }); } };
template<class M> void same(mon::Ctx& c, M& m, const Ref& r, bool full, const char *op) { for (int i = 0; i < r.n; i++) { MON_CHECK(c, eq(m.first_moment[i], r.f[i]), fmt("moment-first:%s", op), "%s: first moment %d is %.17g, expected %.17g", op, i, m.first_moment[i], r.f[i]); for (int j = 0; j < i; j++) { MON_CHECK(c, eq(second(m, i, j), r.s[i][j]), fmt("moment-second:%s", op), "%s: second moment (%d,%d) is %.17g, expected %.17g", op, i, j, second(m, i, j), r.s[i][j]); if (full) MON_CHECK(c, m.second_moment[j][i] == m.second_moment[i][j], fmt("moment-symmetry:%s", op), "%s: the second moment is not symmetric at (%d,%d)", op, i, j); } } }
template<class M> void rnd(mon::Ctx& c, M& m, Ref& r, bool full) { m.init(); int k = c.rng.range(1, 6); for (int t = 0; t < k; t++) { BV x = fl::rbv(c.rng, r.n); m.add(x); r.add(x); } m.average(k); r.each([&](double v, int, int) { return v / k; }); (void)full; }
template<class M> void moments(mon::Ctx& c, bool full) {
  int n = c.rng.chance(.985) ? c.rng.range(1, 12) : c.rng.range(60, 140); M m(n); Ref r(n); c.desc(fmt("%s moments n=%d", full ? "full" : "triangular", n)); same(c, m, r, full, "constructor"); std::string trace; for (int step = 0, S = c.rng.range(3, 15); step < S; step++) { int op = c.rng.below(8); trace += fmt("%d", op);
    switch (op) {
    case 0: m.init(); r.each([](double, int, int) { return 0.; }); same(c, m, r, full, "init"); break;
    case 1: { m.init(); r.each([](double, int, int) { return 0.; }); int k = c.rng.range(1, 20); for (int t = 0; t < k; t++) { BV x = fl::rbv(c.rng, n); m.add(x); r.add(x); same(c, m, r, false, "add"); } m.average(k); r.each([&](double v, int, int) { return v / k; }); same(c, m, r, full, "average"); break; }
    case 2: { M t(n); Ref q(n); rnd(c, t, q, full); double rate = c.rng.pick(std::vector<double>{0, .01, .5, 1}); bool inside = true; r.each([&](double v, int, int) { inside &= std::fabs(v) <= 1; return v; }); if (!inside) { m.bound(0); r.each([](double v, int, int) { return std::clamp(v, -1., 1.); }); } m.update(t, rate); r.each([&](double v, int i, int j) { return v + rate * (q.get(i, j) - v); }); same(c, m, r, full, "update"); r.each([&](double v, int, int) { MON_CHECK(c, std::fabs(v) <= 1 + 1e-12, "moment-range", "moment %g", v); return v; }); break; }
    case 3: { M t(n), u(n); Ref q(n), w(n); rnd(c, t, q, full); rnd(c, u, w, full); double rate = c.rng.real(0, 2); m.update(t, u, rate); r.each([&](double v, int i, int j) { return v + rate * (q.get(i, j) - w.get(i, j)); }); same(c, m, r, full, "update from two"); break; }
    case 4: { M t(n), u(n); Ref q(n), w(n); rnd(c, t, q, full); rnd(c, u, w, full); double l = c.rng.range(0, 50); m.scaled_difference(l, t, u); r.each([&](double, int i, int j) { return l * q.get(i, j) - w.get(i, j); }); same(c, m, r, full, "scaled difference"); break; }
    case 5: { double g = c.rng.pick(std::vector<double>{0, .01, .3, 1. / n == 1 ? .5 : 1. / n, .9}); m.bound(g); r.each([&](double v, int, int) { return std::clamp(v, g - 1, 1 - g); }); same(c, m, r, full, "bound"); r.each([&](double v, int i, int j) { double z = i == j ? m.first_moment[i] : second(m, i, j); MON_CHECK(c, z >= g - 1 && z <= 1 - g, "moment-bound", "moment %.17g not within margin %g", z, g); return v; }); break; }
    case 6: { double a = 0, b = 0, x = 0; r.each([&](double v, int, int) { a += std::fabs(v); b += v * v; x = std::max(x, std::fabs(v)); return v; }); MON_CHECK(c, eq(m.norm_1(), a) && eq(m.norm_2(), std::sqrt(b)) && eq(m.norm_infinite(), x), "moment-norm", "norms %g %g %g, expected %g %g %g", m.norm_1(), m.norm_2(), m.norm_infinite(), a, std::sqrt(b), x); M t(n); Ref q(n); rnd(c, t, q, full); double d = 0; r.each([&](double v, int i, int j) { d += (v - q.get(i, j)) * (v - q.get(i, j)); return v; }); MON_CHECK(c, eq(m.distance(t), std::sqrt(d)) && eq(t.distance(m), std::sqrt(d)), "moment-distance", "distance %g, expected %g", m.distance(t), std::sqrt(d)); break; }
    default: { std::ostringstream o; m.display(o); std::istringstream in(o.str()); double v; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { MON_CHECK(c, bool(in >> v), "moment-display", "too few numbers displayed"); MON_CHECK(c, std::fabs(v - r.get(i, j)) <= 1e-5 * (1 + std::fabs(v)), "moment-display", "entry (%d,%d) displayed as %g, expected %g", i, j, v, r.get(i, j)); } MON_CHECK(c, !(in >> v), "moment-display", "too many numbers displayed"); } } }
  c.cover(c.description + trace); c.count(full ? "full" : "triangular");
}
CASES(moments, 5000, 50000) { if (c.idx % 2) moments<FullMoment>(c, true); else moments<TriangularMoment>(c, false); }
// ---- Gibbs sampling
template<class M> void params(mon::Ctx& c, M& m, int n, double sc, bool full) { for (int i = 0; i < n; i++) { m.first_moment[i] = c.rng.gauss() * sc; for (int j = 0; j < i; j++) { m.second_moment[i][j] = c.rng.gauss() * sc; if (full) m.second_moment[j][i] = m.second_moment[i][j]; } } }
template<class M> double prob1(M& m, const BV& s, int i) { double d = m.first_moment[i]; for (size_t j = 0; j < s.size(); j++) if (int(j) != i) d += second(m, i, int(j)) * sg(s[j]); d *= -2; return 1 / (1 + std::exp(-d)); }
template<class G> void gibbs(mon::Ctx& c, bool full) {
  int n = c.rng.range(1, 9); typename G::Moment m(n); m.init(); params(c, m, n, c.rng.pick(std::vector<double>{0, .1, .5, 2}), full); G g(n, m); g.init(); Mart law[4], sync[4], uni, infl[4]; auto influence = [&](const BV& x, int i, int y, double p) { double w[4] = {0, 0, 0, 0}; for (int j = 0; j < n; j++) if (j != i) w[2 * (j > i) + bool(x[j])] += second(m, i, j) > 0 ? 1 : -1; for (int k = 0; k < 4; k++) infl[k].add(w[k] * (y - p), 0, w[k] * w[k] * p * (1 - p), std::fabs(w[k])); }; bool s = c.rng.bit(); c.desc(fmt("Gibbs %s n=%d sync=%d", full ? "full" : "triangular", n, s)); auto slot = [](double p) { return p < .25 ? 0 : p < .5 ? 1 : p < .75 ? 2 : 3; };
  for (int r = 0; r < 100; r++) { g.init(); for (auto b : g.get_state()) { MON_CHECK(c, b == 0 || b == 1, "gibbs-bit", "bit"); uni.add(b, .5, .25, 1); } } MON_CHECK(c, !uni.far(), "gibbs-init", "the initial state is not uniform: excess %g over %ld", uni.s, uni.k);
  for (int r = 0; r < 2500; r++) { if (r % 5 == 0) g.init(); BV x = g.get_state(); if (r % 97 == 50) params(c, m, n, .7, full); // the sampler reads the current parameters
    if (s) { std::vector<double> p(n); for (int i = 0; i < n; i++) p[i] = prob1(m, x, i); g.update_sync(); BV y = g.get_state(); for (int i = 0; i < n; i++) { sync[slot(p[i])].add(y[i], p[i], p[i] * (1 - p[i]), 1); influence(x, i, y[i], p[i]); } }
    else { int i = c.rng.below(n); double p = prob1(m, x, i); g.update(i); BV y = g.get_state(); for (int j = 0; j < n; j++) if (j != i) MON_CHECK(c, x[j] == y[j], "gibbs-other", "updating bit %d changes bit %d", i, j); law[slot(p)].add(y[i], p, p * (1 - p), 1); influence(x, i, y[i], p); } }
  for (int k = 0; k < 4; k++) { MON_CHECK(c, !law[k].far(), "gibbs-law", "conditional law: excess %g over %ld updates (variance %g)", law[k].s, law[k].k, law[k].v); MON_CHECK(c, !sync[k].far(), "gibbs-sync", "synchronous law: excess %g over %ld (variance %g)", sync[k].s, sync[k].k, sync[k].v); MON_CHECK(c, !infl[k].far(), "gibbs-influence", "influence of %s bits equal to %d: excess %g over %ld updates (variance %g)", k < 2 ? "lower" : "higher", k % 2, infl[k].s, infl[k].k, infl[k].v); } c.count(s ? "synchronous" : "asynchronous", 2500); c.cover(c.description + mon::show(m.first_moment));
}
CASES(gibbs, 1000, 10000) { if (c.idx % 2) gibbs<FullMomentGibbsSampler>(c, true); else gibbs<TriangularMomentGibbsSampler>(c, false); }
// ---- herding: each sample is chosen greedily, bit after bit, against the accumulated error
struct Herd { int n; Ref count; long time = 0; Herd(int n) : n(n), count(n) {} void init() { time = 0; count = Ref(n); }
  // is x a greedy choice for the delta in some bit order? identity order if fixed
  bool greedy_fixed(const std::function<double(int, int)>& target, const BV& x, bool& tie) { for (int i = 0; i < n; i++) { double a = time * target(i, i) - count.f[i]; for (int j = 0; j < i; j++) a += sg(x[j]) * (time * target(i, j) - count.get(i, j)); if (std::fabs(a) < 1e-9) { tie = true; if (a != 0 || !x[i]) continue; } else if ((a > 0) != !x[i]) return false; } return true; }
  bool greedy_any(const std::function<double(int, int)>& target, const BV& x) { // search an order: a bit may come next if its greedy value is x
    std::vector<char> ok(1u << n); ok[0] = 1; for (unsigned S = 0; S + 1 < (1u << n); S++) if (ok[S]) for (int i = 0; i < n; i++) if (!(S >> i & 1)) { double a = time * target(i, i) - count.f[i]; for (int j = 0; j < n; j++) if (S >> j & 1) a += sg(x[j]) * (time * target(i, j) - count.get(i, j)); if (std::fabs(a) < 1e-9 || (a > 0) == !x[i]) ok[S | 1u << i] = 1; } return ok[(1u << n) - 1]; } };
template<class H> void herding(mon::Ctx& c, bool full) {
  int n = c.rng.range(1, 8); H h(n); bool rnd_order = c.rng.bit(); h.set_randomize_bit_order(rnd_order); typename H::Moment t(n); Ref tr(n); rnd(c, t, tr, full); double sc = c.rng.real(0, 1); t.bound(1 - std::max(.01, sc)); Herd ref(n); auto target = [&](int i, int j) { return i == j ? t.first_moment[i] : second(t, i, j); }; h.init(); ref.init(); c.desc(fmt("herding %s n=%d random order=%d", full ? "full" : "triangular", n, rnd_order)); BV x(n); int T = c.rng.range(10, 60);
  for (int k = 0; k < T; k++) { if (c.rng.chance(.05)) { h.init(); ref.init(); c.count("resets"); } if (c.rng.chance(.1)) { Ref d(n); rnd(c, t, d, full); t.bound(.1); } x = fl::rbv(c.rng, n); h.sample(t, x); ref.time++; for (auto b : x) MON_CHECK(c, b == 0 || b == 1, "herding-bit", "bit %d", int(b)); bool tie = false, ok = rnd_order ? ref.greedy_any(target, x) : ref.greedy_fixed(target, x, tie); MON_CHECK(c, ok, "herding-greedy", "sample %d is not a greedy choice against the accumulated error", k);
    auto& D = h.get_delta(); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double want = ref.time * target(i, j) - ref.count.get(i, j), got = i == j ? D.first_moment[i] : D.second_moment[i][j]; MON_CHECK(c, eq(got, want), "herding-delta", "delta (%d,%d) is %g, expected %g", i, j, got, want); } ref.count.add(x);
    double e = 0; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double d = ref.time * target(i, j) - ref.count.get(i, j); e += d * d; } MON_CHECK(c, std::fabs(h.error(t) - std::sqrt(e)) <= 1e-7 * (1 + std::sqrt(e)), "herding-error", "error %g, expected %g", h.error(t), std::sqrt(e)); c.count("samples"); }
  c.cover(c.description + mon::showbv(x));
}
CASES(herding, 1800, 20000) { if (c.idx % 2) herding<FullMomentHerding>(c, true); else herding<TriangularMomentHerding>(c, false); }
CASES(herding_moments, 200, 2000) { // the empirical moments of a herding sequence approach a feasible target
  bool full = c.idx % 2; int n = c.rng.range(2, 7), T = 600; auto go = [&](auto h) { typename decltype(h)::Moment t(n), e(n); Ref q(n); rnd(c, t, q, full); h.init(); e.init(); BV x(n); for (int k = 0; k < T; k++) { h.sample(t, x); e.add(x); } e.average(T); double d = e.distance(t); MON_CHECK(c, d < .35, "herding-convergence", "after %d samples the moments are at distance %g of the target", T, d); }; c.desc(fmt("herding convergence n=%d", n)); if (full) go(FullMomentHerding(n)); else go(TriangularMomentHerding(n)); c.count("sequences"); c.cover(c.description);
}
CASES(herding_order, 60, 600) { // with negative correlations, the first sample alternates along the bit order: it shows the order
  bool full = c.idx % 2; int n = c.rng.range(2, 5), T = 400; int mode = c.rng.below(3); c.desc(fmt("herding order %s n=%d mode=%d", full ? "full" : "triangular", n, mode)); auto go = [&](auto h) { typename decltype(h)::Moment t(n); t.init(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && (full || j < i)) t.second_moment[i][j] = -.25; if (mode) h.set_randomize_bit_order(mode == 2); std::vector<long> zero(n); BV x(n); for (int k = 0; k < T; k++) { h.init(); x = fl::rbv(c.rng, n); h.sample(t, x); int z = 0; for (int i = 0; i < n; i++) { z += !x[i]; zero[i] += !x[i]; } MON_CHECK(c, z == n / 2, "herding-order-greedy", "%d zeros instead of %d", z, n / 2); }
    for (int i = 0; i < n; i++) if (mode == 1) MON_CHECK(c, zero[i] == (i % 2 ? T : 0), "herding-order-fixed", "bit %d is zero %ld times of %d with the fixed order", i, zero[i], T); else MON_CHECK(c, mon::plausible_binomial(T, double(n / 2) / n, zero[i]), "herding-order-random", "bit %d is zero %ld times of %d with random order", i, zero[i], T); };
  if (full) go(FullMomentHerding(n)); else go(TriangularMomentHerding(n)); c.count("bit orders"); c.cover(c.description);
}
// ---- the algorithms built on the models, replayed from their traces
static std::vector<std::vector<double>> numbers(const std::string& s) { std::vector<std::vector<double>> v; std::istringstream in(s); std::string l; while (std::getline(in, l)) { std::istringstream q(l); double x; std::vector<double> w; while (q >> x) w.push_back(x); v.push_back(w); } return v; }
typedef std::vector<std::pair<BV, double>> Log; static Log ranked(Log v) { std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.second > b.second; }); return v; }
template<class H> void hea(mon::Ctx& c, bool full) {
  int n = c.rng.range(2, 10), pop = c.rng.range(2, 20), sel = c.rng.range(1, pop), iters = c.rng.range(1, 12), reset = c.rng.range(0, 3); double lr = c.rng.pick(std::vector<double>{.01, .2, 1}), margin = 1. / n; bool bound = c.rng.chance(.7), order = c.rng.bit() && n <= 7, sm = c.rng.chance(.3); Hea<H> a(n, pop); a.set_selection_size(sel); a.set_num_iterations(iters); a.set_reset_period(reset); a.set_learning_rate(lr); a.set_bound_moment(bound); a.set_randomize_bit_order(order); if (sm) { margin = c.rng.real(.01, .6); a.set_margin(margin); } bool tgt = c.rng.bit(); if (tgt) a.set_log_target(true); else { a.set_log_herding_error(true); a.set_log_target_norm(true); a.set_log_delta_norm(true); } Objective o(n, 0, c.rng.next()); c.desc(fmt("Hea %s n=%d pop=%d sel=%d iters=%d reset=%d lr=%g bound=%d margin=%g order=%d", full ? "full" : "triangular", n, pop, sel, iters, reset, lr, bound, margin, order)); std::string out; { mon::Capture cap(std::cout); a.maximize({&o}); out = cap.str(); } auto lg = numbers(out); MON_CHECK(c, int(lg.size()) == iters * (tgt ? n : 1), "hea-log", "%zu lines logged", lg.size()); const Log& L = o.log; MON_CHECK(c, int(L.size()) == 1 + pop * iters, "hea-count", "%zu evaluations", L.size());
  Ref t(n); Herd h(n); auto target = [&](int i, int j) { return t.get(i, j); }; bool ambiguous = false;
  for (int it = 0; it < iters && !ambiguous; it++) { if (reset > 0 && it % reset == 0) h.init(); Log g(L.begin() + 1 + it * pop, L.begin() + 1 + (it + 1) * pop); double dn = 0, tn = 0, er = 0; for (auto& e : g) { h.time++; bool tie = false, ok = order ? h.greedy_any(target, e.first) : h.greedy_fixed(target, e.first, tie); MON_CHECK(c, ok, "hea-herding", "iteration %d: a sampled bit vector is not the greedy choice of herding", it); dn = 0; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double d = h.time * t.get(i, j) - h.count.get(i, j); dn += d * d; } h.count.add(e.first); c.count("herding samples"); }
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { tn += t.get(i, j) * t.get(i, j); double d = h.time * t.get(i, j) - h.count.get(i, j); er += d * d; } if (!tgt) MON_CHECK(c, lg[it].size() == 3 && std::fabs(lg[it][0] - std::sqrt(er)) <= 1e-3 * (1 + std::sqrt(er)) && std::fabs(lg[it][1] - std::sqrt(tn)) <= 1e-3 * (1 + std::sqrt(tn)) && std::fabs(lg[it][2] - std::sqrt(dn)) <= 1e-3 * (1 + std::sqrt(dn)), "hea-norms", "iteration %d: logged %s, expected %g %g %g", it, mon::show(lg[it]).c_str(), std::sqrt(er), std::sqrt(tn), std::sqrt(dn));
    Log r = ranked(g); Ref s(n); for (int k = 0; k < sel; k++) s.add(r[k].first); t.each([&](double v, int i, int j) { v += lr * (s.get(i, j) / sel - v); return bound ? std::clamp(v, margin - 1, 1 - margin) : v; }); if (tgt) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) MON_CHECK(c, std::fabs(lg[it * n + i].at(j) - t.get(i, j)) < 1e-4, "hea-target", "iteration %d: target (%d,%d) is %g, expected %g", it, i, j, lg[it * n + i][j], t.get(i, j)); c.count("hea updates"); }
  c.cover(c.description);
}
CASES(hea, 1200, 12000) { if (c.idx % 2) hea<FullMomentHerding>(c, true); else hea<TriangularMomentHerding>(c, false); }
template<class G> void bm(mon::Ctx& c, bool full) {
  int n = c.rng.range(1, 10), pop = c.rng.range(2, 20), sel = c.rng.range(1, pop), iters = c.rng.range(1, 15), mode = c.rng.below(3), reset = c.rng.pick(std::vector<int>{0, 0, 1, 2}); double lr = c.rng.pick(std::vector<double>{.01, .2, 1}); bool np = c.rng.bit(), one = c.rng.bit(); BmPbil<G> a(n, pop); a.set_selection_size(sel); a.set_num_iterations(iters); a.set_learning_rate(lr); a.set_negative_positive_selection(np); a.set_sampling_mode(mode); a.set_reset_mode(reset); int steps = mode == 0 ? c.rng.pick(std::vector<int>{0, 1, 1, 20}) : 1, cyc = mode == 0 ? 1 : c.rng.pick(std::vector<int>{0, 1, 1, 3}); a.set_num_gs_steps(steps); a.set_num_gs_cycles(cyc); a.set_log_norm_infinite(true); a.set_log_norm_1(one); Objective o(n, 0, c.rng.next()); c.desc(fmt("BmPbil %s n=%d pop=%d sel=%d iters=%d mode=%d reset=%d lr=%g np=%d steps=%d cycles=%d", full ? "full" : "triangular", n, pop, sel, iters, mode, reset, lr, np, steps, cyc)); std::string out; { mon::Capture cap(std::cout); a.maximize({&o}); out = cap.str(); } auto lg = numbers(out); MON_CHECK(c, int(lg.size()) == iters, "bm-log", "%zu lines", lg.size()); const Log& L = o.log; MON_CHECK(c, int(L.size()) == 1 + pop * iters, "bm-count", "%zu evaluations", L.size());
  Ref m(n); auto p1 = [&](const BV& s, int i) { double d = m.f[i]; for (int j = 0; j < n; j++) if (j != i) d += m.get(i, j) * sg(s[j]); return 1 / (1 + std::exp(2 * d)); }; BV state; bool known = false; Mart sync, async, uni; bool frozen = (mode == 0 ? steps : cyc) == 0;
  for (int it = 0; it < iters; it++) { if (reset == 1) known = false; Log g(L.begin() + 1 + it * pop, L.begin() + 1 + (it + 1) * pop); for (auto& e : g) { if (reset == 2) known = false; if (known) { int d = dist(state, e.first); if (frozen) MON_CHECK(c, d == 0, "bm-frozen", "the state changes without sampling steps"); else if (mode == 2 && cyc == 1) for (int i = 0; i < n; i++) { double p = p1(state, i); sync.add(e.first[i], p, p * (1 - p), 1); } else if (mode == 0 && steps == 1) { MON_CHECK(c, d <= 1, "bm-steps", "one Gibbs step changes %d bits", d); double q = 0; for (int i = 0; i < n; i++) q += (state[i] ? 1 - p1(state, i) : p1(state, i)) / n; async.add(d, q, q * (1 - q), 1); } else if (mode == 0) MON_CHECK(c, d <= steps, "bm-steps", "%d Gibbs steps change %d bits", steps, d); c.count("transitions"); } else if (frozen) for (auto b : e.first) uni.add(b, .5, .25, 1); state = e.first; known = reset != 2; }
    Log r = ranked(g); Ref b(n), w(n); for (int k = 0; k < sel; k++) b.add(r[k].first); int cw = np ? sel : pop; for (int k = 0; k < cw; k++) w.add(r[pop - 1 - k].first); m.each([&](double v, int i, int j) { return v + lr * (b.get(i, j) / sel - w.get(i, j) / cw); }); double n1 = 0, ni = 0; m.each([&](double v, int, int) { n1 += std::fabs(v); ni = std::max(ni, std::fabs(v)); return v; }); MON_CHECK(c, int(lg[it].size()) == 1 + one && std::fabs(lg[it][0] - ni) <= 1e-4 * (1 + ni) && (!one || std::fabs(lg[it][1] - n1) <= 1e-4 * (1 + n1)), "bm-parameters", "iteration %d: norms %s, the trace implies %g %g", it, mon::show(lg[it]).c_str(), ni, n1); c.count("bm updates"); }
  MON_CHECK(c, !sync.far(), "bm-sync-law", "synchronous Gibbs sampling: excess %g over %ld (variance %g)", sync.s, sync.k, sync.v); MON_CHECK(c, !async.far(), "bm-async-law", "asynchronous Gibbs sampling: excess %g over %ld (variance %g)", async.s, async.k, async.v); MON_CHECK(c, !uni.far(), "bm-reset-law", "the reset state is not uniform"); c.cover(c.description);
}
CASES(bm_pbil, 1600, 16000) { if (c.idx % 2) bm<FullMomentGibbsSampler>(c, true); else bm<TriangularMomentGibbsSampler>(c, false); }
template<class G> void bmstart(mon::Ctx& c) { // without reset, the chain of each run still starts at random
  int n = c.rng.range(1, 12), pop = c.rng.range(2, 6); BmPbil<G> a(n, pop); a.set_selection_size(1); a.set_num_iterations(1); a.set_sampling_mode(0); a.set_reset_mode(0); a.set_num_gs_steps(0); Objective o(n, 0, c.rng.next()); c.desc(fmt("start of the Gibbs chain n=%d pop=%d", n, pop)); Mart bits, d; BV prev; for (int k = 0; k < 120; k++) { o.log.clear(); { mon::Capture cap(std::cout); a.maximize({&o}); } MON_CHECK(c, int(o.log.size()) == 1 + pop, "bm-count", "%zu evaluations", o.log.size()); BV x = o.log[1].first; for (auto b : x) bits.add(b, .5, .25, 1); if (!prev.empty()) d.add(dist(prev, x), n / 2., n / 4., n / 2. + .5); prev = x; } MON_CHECK(c, !bits.far() && !d.far(), "bm-start-law", "the chain does not start at random: ones exceed by %g over %ld, distances by %g over %ld", bits.s, bits.k, d.s, d.k); c.count("chain starts", 120); c.cover(c.description);
}
CASES(bm_start, 40, 400) { if (c.idx % 2) bmstart<FullMomentGibbsSampler>(c); else bmstart<TriangularMomentGibbsSampler>(c); }
int main(int a, char **v) { return mon::main(a, v); }
