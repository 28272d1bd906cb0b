// C14: Walsh transforms contain exactly the nonzero coefficients and rebuild the function; expansions are the sum of their terms.
#include "mon.hh"
#include "fnlib.hh"
#include "hnco/functions/all.hh"
#include <algorithm>
#include <memory>
using namespace hnco; using namespace hnco::function; using mon::fmt;
typedef bit_vector_t BV;
struct Table : Function { int n; std::vector<double> v; std::vector<int> calls; Table(int n) : n(n), v(size_t(1) << n), calls(size_t(1) << n) {} int get_bv_size() const override { return n; } double evaluate(const bit_vector_t& x) override { size_t u = 0; for (int i = 0; i < n; i++) if (x[i]) u |= size_t(1) << i; calls[u]++; return v[u]; } };
static BV bits(size_t u, int n) { BV x(n); for (int i = 0; i < n; i++) x[i] = u >> i & 1; return x; }
// own transform: sum over x of f(x) (-1)^{x.u}
static std::vector<long double> wht(std::vector<long double> a) { for (size_t h = 1; h < a.size(); h *= 2) for (size_t i = 0; i < a.size(); i += 2 * h) for (size_t j = i; j < i + h; j++) { long double x = a[j], y = a[j + h]; a[j] = x + y; a[j + h] = x - y; } return a; }
static std::vector<long double> table_of(Function& f) { int n = f.get_bv_size(); std::vector<long double> a(size_t(1) << n); for (size_t u = 0; u < a.size(); u++) a[u] = f.evaluate(bits(u, n)); return a; }
static std::vector<long double> spectrum(Function& f) { auto s = wht(table_of(f)); for (auto& x : s) x /= s.size(); return s; } // normalised
static size_t mask(const std::vector<bool>& f) { size_t u = 0; for (size_t i = 0; i < f.size(); i++) if (f[i]) u |= size_t(1) << i; return u; }
static void transform_case(mon::Ctx& c, Function& f, const std::vector<long double>& vals, bool exact, const std::string& k) {
  int n = f.get_bv_size(); auto want = wht(vals); long double scale = 0; for (auto v : vals) scale += fabsl(v); long double tol = exact ? 0 : 1e-12L * (scale + 1) * (n + 1);
  for (int fast = 0; fast < 2; fast++) { std::string kk = (fast ? "fast:" : "direct:") + k; std::vector<WalshTerm> terms; if (c.rng.bit()) terms.resize(c.rng.range(1, 5), WalshTerm{std::vector<bool>(n, true), 7.}); if (fast) compute_fast_walsh_transform(&f, terms); else compute_walsh_transform(&f, terms); std::map<size_t, double> m; for (auto& t : terms) { MON_CHECK(c, int(t.feature.size()) == n, "feature-size:" + kk, "feature of size %zu for %d bits", t.feature.size(), n); MON_CHECK(c, t.coefficient != 0, "zero-term:" + kk, "a term has a zero coefficient"); MON_CHECK(c, !m.count(mask(t.feature)), "duplicate:" + kk, "feature repeated"); m[mask(t.feature)] = t.coefficient; }
    for (size_t u = 0; u < want.size(); u++) { double g = m.count(u) ? m[u] : 0; MON_CHECK(c, fabsl(g - want[u]) <= tol, "coefficient:" + kk, "coefficient of feature %s is %.17g, expected %.17Lg", mon::showbv(bits(u, n)).c_str(), g, want[u]); }
    if (!terms.empty()) { WalshExpansion w; if (c.rng.bit()) w.random(c.rng.range(1, 6), 3); w.set_terms(terms); MON_CHECK(c, w.get_bv_size() == n, "expansion-size:" + kk, "size %d for %d bits", w.get_bv_size(), n); std::ostringstream o; w.display(o); for (size_t u = 0; u < want.size(); u++) { double g = w.evaluate(bits(u, n)) / want.size(); MON_CHECK(c, fabsl(g - vals[u]) <= tol + 1e-12L * scale, "rebuild:" + kk, "the expansion gives %.17g at %s, the function %.17Lg", g, mon::showbv(bits(u, n)).c_str(), vals[u]); } c.count("expansions rebuilt"); } else c.count("zero functions");
    c.count(fast ? "fast transforms" : "direct transforms"); c.count("nonzero coefficients", terms.size()); c.cover(kk + fmt("%d/%zu/%.6Lg", n, terms.size(), want[want.size() / 2])); }
}
CASES(tables, 1200, 20000) { // arbitrary tables of values
  auto& r = c.rng; int n = r.range(1, r.chance(.1) ? 10 : 7); Table f(n); int mode = r.below(6); static const char *mn[] = {"integers", "reals", "one-feature", "sparse", "zero", "few-features"}; bool exact = mode != 1; for (auto& v : f.v) v = 0;
  switch (mode) { case 0: for (auto& v : f.v) v = r.range(-50, 50); break; case 1: for (auto& v : f.v) v = r.gauss() * 10; break; case 2: { size_t m = r.below(f.v.size()); int a = r.range(1, 9); for (size_t u = 0; u < f.v.size(); u++) f.v[u] = __builtin_popcountll(u & m) % 2 ? -a : a; break; } case 3: for (int t = r.range(1, 4); t > 0; t--) f.v[r.below(f.v.size())] = r.range(-9, 9); break; case 4: break; default: { int t = r.range(2, 5); while (t--) { size_t m = r.below(f.v.size()); int a = r.range(-9, 9); for (size_t u = 0; u < f.v.size(); u++) f.v[u] += __builtin_popcountll(u & m) % 2 ? -a : a; } } }
  c.desc(fmt("table of %s on %d bits", mn[mode], n)); std::vector<long double> vals(f.v.begin(), f.v.end()); transform_case(c, f, vals, exact, "table"); long calls = 0; for (int t : f.calls) calls += t; c.count("evaluations by transforms", calls);
}
CASES(collection, 500, 6000) { // functions of the collection
  auto& r = c.rng; auto I = fl::make(c, c.idx % fl::K_COUNT, 10); if (!I.f || I.f->get_bv_size() > 10) { c.count("too large skipped"); return; } c.desc("Walsh transform of " + I.name); auto vals = table_of(*I.f); for (auto v : vals) if (!std::isfinite(double(v)) || fabsl(v) > 1e12) { c.count("not finite skipped"); return; } transform_case(c, *I.f, vals, false, I.name.substr(0, I.name.find_first_of("( "))); (void)r;
}
// generators which record what they return; distinct powers or reals
struct Gen { std::shared_ptr<std::vector<double>> rec = std::make_shared<std::vector<double>>(); mon::Rng *r; int mode; double operator()() { double v = mode == 0 ? r->gauss() : mode == 1 ? double(r->range(1, 1000)) : rec->size() % 3 ? 0. : 1.5; rec->push_back(v); return v; } };
static void same_multiset(mon::Ctx& c, std::vector<long double> got, std::vector<double> want, const std::string& key) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); bool ok = got.size() == want.size(); for (size_t i = 0; ok && i < got.size(); i++) ok = fabsl(got[i] - want[i]) <= 1e-9L * (1 + fabs(want[i])); std::string s; for (size_t i = 0; i < std::min<size_t>(got.size(), 10); i++) s += fmt("%.6Lg/%.6g ", got[i], i < want.size() ? want[i] : 0.); MON_CHECK(c, ok, key, "coefficients are not the generated ones: %zu instead of %zu (%s)", got.size(), want.size(), s.c_str()); }
CASES(generated, 1500, 20000) {
  auto& r = c.rng; int n = r.range(1, 9); Gen a, b; a.r = b.r = &r; a.mode = r.below(3); b.mode = r.below(3); int before = r.below(3); auto popc = [](size_t u) { return __builtin_popcountll(u); };
  switch (c.idx % 6) {
  case 0: { WalshExpansion1 f; for (int t = 0; t < before; t++) f.random(r.range(1, 12)); f.generate(n, a); c.desc(fmt("WalshExpansion1 n %d", n)); MON_CHECK(c, f.get_bv_size() == n, "size:W1", "size %d", f.get_bv_size()); auto s = spectrum(f); std::vector<long double> lin; for (size_t u = 0; u < s.size(); u++) if (popc(u) == 1) lin.push_back(s[u]); else MON_CHECK(c, fabsl(s[u]) < 1e-9, "degree:W1", "coefficient %Lg of degree %d", s[u], popc(u)); same_multiset(c, lin, *a.rec, "coefficients:W1"); break; }
  case 1: { WalshExpansion2 f; for (int t = 0; t < before; t++) f.random(r.range(1, 12)); f.generate(n, a, b); c.desc(fmt("WalshExpansion2 n %d", n)); MON_CHECK(c, f.get_bv_size() == n, "size:W2", "size %d", f.get_bv_size()); auto s = spectrum(f); std::vector<long double> lin, quad; for (size_t u = 0; u < s.size(); u++) if (popc(u) == 1) lin.push_back(s[u]); else if (popc(u) == 2) quad.push_back(s[u]); else MON_CHECK(c, fabsl(s[u]) < 1e-9, "degree:W2", "coefficient %Lg of degree %d", s[u], popc(u)); same_multiset(c, lin, *a.rec, "linear:W2"); same_multiset(c, quad, *b.rec, "quadratic:W2"); break; }
  case 2: { WalshExpansion f; for (int t = 0; t < before; t++) f.random(r.range(1, 12), r.range(1, 9)); int m = r.range(1, 12); auto rec = std::make_shared<int>(0); f.generate(n, m, [rec] { return double(1l << (*rec)++); }); c.desc(fmt("WalshExpansion n %d with %d features", n, m)); MON_CHECK(c, f.get_bv_size() == n, "size:W", "size %d", f.get_bv_size()); MON_CHECK(c, *rec == m, "terms:W", "%d coefficients generated for %d features", *rec, m); auto s = spectrum(f); long all = 0; for (size_t u = 0; u < s.size(); u++) { long v = lroundl(s[u]); MON_CHECK(c, fabsl(s[u] - v) < 1e-6 && v >= 0 && !(all & v), "terms:W", "coefficient %Lg is not a sum of generated ones", s[u]); all |= v; } MON_CHECK(c, all == (1l << m) - 1, "terms:W", "some generated coefficient is missing"); std::ostringstream o; f.display(o); MON_CHECK(c, o.str().find(fmt("%d", m)) != std::string::npos, "display:W", "%s", o.str().c_str()); break; }
  case 3: { WalshExpansion2 f; for (int t = 0; t < before; t++) f.random(r.range(1, 12)); double alpha = r.pick(std::vector<double>{0, .5, 1, 2, 3.3}); bool per = r.bit(); if (per) f.generate_ising1_long_range_periodic(n, alpha); else f.generate_ising1_long_range(n, alpha); c.desc(fmt("long range Ising n %d alpha %g %s", n, alpha, per ? "periodic" : "")); MON_CHECK(c, f.get_bv_size() == n, "size:LR", "size %d", f.get_bv_size()); auto s = spectrum(f); for (size_t u = 0; u < s.size(); u++) { long double w = 0; if (popc(u) == 2) { int i = __builtin_ctzll(u), j = 63 - __builtin_clzll(u), d = j - i; if (per) d = std::min(d, n - d); w = powl(d, -alpha); } MON_CHECK(c, fabsl(s[u] - w) < 1e-9, "coefficients:LR", "coefficient %Lg of %s, expected %Lg", s[u], mon::showbv(bits(u, n)).c_str(), w); } break; }
  case 4: { NearestNeighborIsingModel1 f; for (int t = 0; t < before; t++) f.random(r.range(1, 12)); bool per = r.bit(); f.set_periodic_boundary_conditions(per); f.generate(n, a, b); c.desc(fmt("Ising1 n %d %s", n, per ? "periodic" : "")); MON_CHECK(c, f.get_bv_size() == n, "size:I1", "size %d", f.get_bv_size()); auto s = spectrum(f); std::vector<long double> lin, nn; for (size_t u = 0; u < s.size(); u++) { int p = popc(u); bool edge = false; if (p == 2) { int i = __builtin_ctzll(u), j = 63 - __builtin_clzll(u); edge = j == i + 1 || (per && i == 0 && j == n - 1); } if (p == 1) lin.push_back(s[u]); else if (edge) nn.push_back(s[u]); else if (!(u == 0 && n == 1)) MON_CHECK(c, fabsl(s[u]) < 1e-9, "structure:I1", "coefficient %Lg of %s", s[u], mon::showbv(bits(u, n)).c_str()); } same_multiset(c, lin, *b.rec, "field:I1"); if (n > 2) { auto w = *a.rec; if (!per) { MON_CHECK(c, int(w.size()) >= n - 1, "coupling:I1", "%zu couplings generated", w.size()); w.resize(n - 1); } same_multiset(c, nn, w, "coupling:I1"); } break; }
  default: { int R = r.range(1, 3), C = r.range(1, 4); NearestNeighborIsingModel2 f; for (int t = 0; t < before; t++) f.random(r.range(1, 4), r.range(1, 4)); bool per = r.bit(); f.set_periodic_boundary_conditions(per); f.generate(R, C, a, b); n = R * C; c.desc(fmt("Ising2 %dx%d %s", R, C, per ? "periodic" : "")); MON_CHECK(c, f.get_bv_size() == n, "size:I2", "size %d", f.get_bv_size()); auto s = spectrum(f); std::vector<long double> lin, nn; for (size_t u = 0; u < s.size(); u++) { int p = popc(u); bool edge = false; if (p == 2) { int i = __builtin_ctzll(u), j = 63 - __builtin_clzll(u); int ri = i / C, ci = i % C, rj = j / C, cj = j % C; int dr = abs(ri - rj), dc = abs(ci - cj); if (per) { dr = std::min(dr, R - dr); dc = std::min(dc, C - dc); } edge = dr + dc == 1; } if (p == 1) lin.push_back(s[u]); else if (edge) nn.push_back(s[u]); else if (u) MON_CHECK(c, fabsl(s[u]) < 1e-9, "structure:I2", "coefficient %Lg of %s", s[u], mon::showbv(bits(u, n)).c_str()); } same_multiset(c, lin, *b.rec, "field:I2"); if (per && R > 2 && C > 2) same_multiset(c, nn, *a.rec, "coupling:I2"); long double sum = 0, want = 0; for (auto v : nn) sum += v; sum += s[0]; if (per) { for (double v : *a.rec) want += v; MON_CHECK(c, fabsl(sum - want) < 1e-6 * (1 + fabsl(want)), "coupling-sum:I2", "couplings sum to %Lg, %Lg generated", sum, want); } }
  }
  c.count(fmt("generator %ld", c.idx % 6)); c.cover(fmt("%ld/%d/%d/%.4g", c.idx % 6, n, before, a.rec->empty() ? 0. : (*a.rec)[0]));
}
CASES(random_laws, 48, 400) { // random instances: normal coefficients, uniform features
  auto& r = c.rng; random::Generator::set_seed(r.below(1 << 30)); std::vector<double> v; const int N = 2000; std::string k; auto e = [](int n, int i) { BV x(n); x[i] = 1; return x; };
  auto field = [&](auto& f, int n) { double z = f.evaluate(BV(n)) - f.evaluate(BV(n, 1)); for (int i = 0; i < n; i++) { BV x = e(n, i), y(n, 1); y[i] = 0; v.push_back((z - (f.evaluate(x) - f.evaluate(y))) / 4); } };
  switch (c.idx % 8) {
  case 4: { k = "W2-linear"; const int n = 500; WalshExpansion2 f; f.random(n); field(f, n); break; }
  case 5: { k = "I1-field"; NearestNeighborIsingModel1 f; f.random(N); field(f, N); break; }
  case 6: { k = "I2-field"; NearestNeighborIsingModel2 f; int R = r.range(1, 30), C = 900 / R; f.random(R, C); field(f, R * C); break; }
  case 7: { k = "I2"; NearestNeighborIsingModel2 f; int R = r.range(2, 30), C = 1 + 900 / R, n = R * C; f.random(R, C); double z = f.evaluate(BV(n)); for (int i = 0; i < n; i++) for (int w = 0; w < 2; w++) { int j = w ? i + 1 : i + C; if (w ? (i + 1) % C == 0 : j >= n) continue; BV x = e(n, i); x[j] = 1; v.push_back((z + f.evaluate(x) - f.evaluate(e(n, i)) - f.evaluate(e(n, j))) / 4); } break; }
  case 0: { k = "W1"; WalshExpansion1 f; f.random(N); double z = f.evaluate(BV(N)); for (int i = 0; i < N; i++) v.push_back((z - f.evaluate(e(N, i))) / 2); break; }
  case 1: { k = "W2"; const int n = 60; WalshExpansion2 f; f.random(n); double z = f.evaluate(BV(n)); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { BV x(n); x[i] = x[j] = 1; v.push_back((z + f.evaluate(x) - f.evaluate(e(n, i)) - f.evaluate(e(n, j))) / 4); } break; }
  case 2: { k = "W"; const int n = 40; std::vector<int> bit(n); int T = 2500; for (int t = 0; t < T; t++) { WalshExpansion f; f.random(n, 1); double z = f.evaluate(BV(n)); v.push_back(z); for (int i = 0; i < n; i++) bit[i] += f.evaluate(e(n, i)) != z; } for (int i = 0; i < n; i++) MON_CHECK(c, mon::plausible_binomial(T, .5, bit[i]), "features:W", "bit %d is in %d features out of %d", i, bit[i], T); break; }
  default: { k = "I1"; NearestNeighborIsingModel1 f; f.random(N); double z = f.evaluate(BV(N)); for (int i = 0; i + 1 < N; i++) { BV x(N); x[i] = x[i + 1] = 1; v.push_back((z + f.evaluate(x) - f.evaluate(e(N, i)) - f.evaluate(e(N, i + 1))) / 4); } } }
  c.desc("law of the coefficients of " + k); double m = 0, q = 0; int in = 0; for (double x : v) { m += x; q += x * x; in += fabs(x) < 0.6744897501960817; } m /= v.size(); q /= v.size(); double s = 1 / sqrt(v.size()); MON_CHECK(c, fabs(m) < 7 * s, "mean:" + k, "mean %g over %zu coefficients", m, v.size()); MON_CHECK(c, fabs(q - 1) < 7 * s * 1.5, "variance:" + k, "mean square %g over %zu coefficients", q, v.size()); MON_CHECK(c, mon::plausible_binomial(v.size(), .5, in), "median:" + k, "%d of %zu coefficients in the central half", in, v.size()); c.count("laws"); c.count("coefficients observed", v.size()); c.cover(k + fmt("%.6g", m));
}
int main(int a, char **v) { return mon::main(a, v); }
