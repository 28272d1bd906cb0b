// C12: representations decode every bit vector into their domain, cover it, with the smallest size; decoding is local and memoryless.
#include "mon.hh"
#include "hnco/representations/all.hh"
#include "hnco/random.hh"
#include <climits>
#include <cfloat>
#include <map>
#include <memory>
#include <set>
using namespace hnco; using namespace hnco::representation; using mon::fmt;
typedef bit_vector_t BV;
static BV rv(mon::Rng& r, int n) { BV x(n); int mode = r.below(5); for (auto& b : x) b = mode == 0 ? r.chance(.1) : mode == 1 ? r.chance(.9) : mode == 2 ? (r.bit()) : mode == 3 ? 1 : r.bit(); if (n && r.chance(.2)) x[r.below(n)] ^= 1; return x; }
template<class T> static BV bits(T u, int n) { BV x(n); for (int i = 0; i < n; i++) x[i] = (unsigned long long)(u) >> i & 1; return x; }
static BV embed(mon::Rng& r, const BV& x, int& start) { start = r.below(6); BV y = rv(r, start); y.insert(y.end(), x.begin(), x.end()); BV z = rv(r, r.below(6)); y.insert(y.end(), z.begin(), z.end()); return y; }
// Decode x in two different surroundings, with a copy of the representation which decoded other things: same value
template<class R> static typename R::domain_type decode(mon::Ctx& c, R& rep, const BV& x, const std::string& k) { int s1, s2; BV a = embed(c.rng, x, s1), b = embed(c.rng, x, s2), a0 = a; auto v = rep.unpack(a, s1); R other(rep); other.unpack(rv(c.rng, x.size()), 0); auto w = other.unpack(b, s2); MON_CHECK(c, v == w, "local:" + k, "%s: %s decoded to different values depending on its surroundings or on previous decodings", k.c_str(), mon::showbv(x).c_str()); MON_CHECK(c, a == a0, "const:" + k, "decoding changed the bit vector"); MON_CHECK(c, rep.size() == int(x.size()), "size-changed:" + k, "size changed by decoding"); return v; }
static int width(__int128 range) { int s = 1; while ((range >> s) > 0) s++; return s; } // bits for 0..range
template<class T> static void integer(mon::Ctx& c, const char *tn) {
  auto& r = c.rng; typedef __int128 I; I lo, hi; const I MAX = std::numeric_limits<T>::max(), MIN = std::numeric_limits<T>::min();
  switch (r.below(6)) { case 0: lo = r.range(-20, 20); hi = lo + r.below(40); break; case 1: lo = 0; hi = (I(1) << r.below(sizeof(T) * 8 - 1)) - r.below(2); if (hi > MAX) hi = MAX; if (hi < lo) hi = lo; break; case 2: lo = MIN; hi = lo + I(r.next() % 100000); break; case 3: hi = MAX; lo = hi - I(r.next() % 100000); break; case 4: { int e = r.below(sizeof(T) * 8 - 1); I len = (I(1) << e) + r.range(-2, 2); if (len < 0) len = 0; if (len > MAX) len = MAX; lo = r.bit() ? -(len / 2) : -I(r.below(1000)); hi = lo + len; if (hi > MAX) { hi = MAX; } break; } default: { lo = I(T(r.next())) / 2; hi = lo + I(r.next() % (unsigned long long)MAX); if (hi > MAX) hi = MAX; } }
  if (hi - lo > MAX) hi = lo + MAX; if (hi < lo) hi = lo; int exact = width(hi - lo); int form = r.below(4); std::string k = fmt("DyadicInteger<%s>", tn); int size = exact; long prec = 0; typedef DyadicIntegerRepresentation<T> R; std::unique_ptr<R> rep;
  if (form == 1) { size = r.range(1, sizeof(T) * 8 - 1); rep.reset(new R(T(lo), T(hi), size)); if (size > exact) size = exact; } else if (form == 2) { prec = r.bit() ? 1l << r.below(20) : r.range(1, 5000); rep.reset(new R(T(lo), T(hi), typename R::Precision(prec))); int lg = 0; while ((2l << lg) <= prec) lg++; size = std::max(1, exact - lg); } else if (form == 3 && hi - lo < MAX) { hi -= lo; lo = 0; rep.reset(new R(T(hi + 1))); } else rep.reset(new R(T(lo), T(hi)));
  c.desc(k + fmt("[%lld..%lld] form %d size %d precision %ld", (long long)lo, (long long)hi, form, size, prec)); MON_CHECK(c, rep->size() == size, "size:" + k, "size %d, expected %d", rep->size(), size); int shift = exact - size;
  auto test = [&](unsigned long long u) { BV x = bits(u, size); T v = decode(c, *rep, x, k); I want = I(u) << shift; if (want > hi - lo) want = hi - lo; want += lo; MON_CHECK(c, I(v) >= lo && I(v) <= hi, "domain:" + k, "%s decoded to %lld outside of the interval", mon::showbv(x).c_str(), (long long)v); MON_CHECK(c, I(v) == want, "value:" + k, "%s decoded to %lld, expected %lld", mon::showbv(x).c_str(), (long long)v, (long long)want); };
  unsigned long long top = size >= 64 ? ~0ull : (1ull << size) - 1; test(0); test(top); if (size <= 8) { std::set<T> seen; for (unsigned long long u = 0; u <= top; u++) { test(u); seen.insert(rep->unpack(bits(u, size), 0)); } if (shift == 0) MON_CHECK(c, I(seen.size()) == hi - lo + 1, "onto:" + k, "%zu values out of %lld are decoded", seen.size(), (long long)(hi - lo + 1)); c.count("exhaustive integers"); } else for (int t = 0; t < 20; t++) test((r.bit() ? r.next() : (unsigned long long)(hi - lo) + r.range(-2, 2)) & top);
  if (shift == 0) { T v = decode(c, *rep, bits((unsigned long long)(hi - lo), size), k); MON_CHECK(c, I(v) == hi, "upper:" + k, "the upper bound is not decoded (%lld)", (long long)v); } if (prec) MON_CHECK(c, (1l << shift) <= std::max(prec, 1l) || size == 1, "precision:" + k, "step %ld for precision %ld", 1l << shift, prec); c.cover(k + fmt("%d/%d/%lld", exact, size, (long long)lo)); c.count(k);
}
CASES(integers, 9000, 50000) { if (c.idx % 2) integer<int>(c, "int"); else integer<long>(c, "long"); }
template<class T> static void flt(mon::Ctx& c, const char *tn) {
  auto& r = c.rng; typedef DyadicFloatRepresentation<T> R; T lo, hi; switch (r.below(4)) { case 0: lo = r.range(-10, 10); hi = lo + r.range(1, 20); break; case 1: lo = T(r.real() * 200 - 100); hi = lo + T(r.real() * 50 + .01); break; case 2: lo = T(-1e30 * r.real()); hi = T(1e30 * (r.real() + .1)); break; default: lo = 0; hi = T(ldexp(1, r.range(-30, 30))); } bool bysize = r.bit(); int size; std::unique_ptr<R> rep; std::string k = fmt("DyadicFloat<%s>", tn); T prec = 0; int maxs = 60;
  if (bysize) { size = r.range(1, maxs); rep.reset(new R(lo, hi, size)); c.desc(k + fmt("[%g,%g) size %d", double(lo), double(hi), size)); MON_CHECK(c, rep->size() == size, "size:" + k, "size %d, expected %d", rep->size(), size); }
  else { prec = r.bit() ? T((hi - lo) * ldexp(1, -int(r.below(25)))) : T((hi - lo) * (r.real() * .9 + 1e-6)); if (r.chance(.1)) prec = (hi - lo) * 3; c.desc(k + fmt("[%g,%g) precision %g", double(lo), double(hi), double(prec))); rep.reset(new R(lo, hi, prec)); size = rep->size(); double ratio = double(T(hi - lo)) / double(prec), eps = 1e-4; int a = std::max(1, int(ceil(log2(ratio) - eps))), b = std::max(1, int(ceil(log2(ratio) + eps))); MON_CHECK(c, size >= a && size <= b, "size:" + k, "size %d for precision %g on a length %g, expected %d..%d", size, double(prec), double(hi - lo), a, b); }
  auto test = [&](const BV& x) { double v = decode(c, *rep, x, k); long double u = 0; for (int i = 0; i < size; i++) if (x[i]) u += ldexpl(1, -i - 1); long double want = (long double)lo + (long double)(T(hi - lo)) * u; double tol = 8 * std::numeric_limits<T>::epsilon() * (fabs(double(lo)) + fabs(double(hi))); MON_CHECK(c, v >= double(lo) && v <= double(hi) + tol, "domain:" + k, "%s decoded to %.17g outside of [%.17g,%.17g)", mon::showbv(x).c_str(), v, double(lo), double(hi)); MON_CHECK(c, fabsl(v - want) <= tol, "value:" + k, "%s decoded to %.17g, expected %.17Lg", mon::showbv(x).c_str(), v, want); if (sizeof(T) == 8 && size < 40 && lo > -1e6 && hi < 1e6 && T(hi - lo) > 1e-6) MON_CHECK(c, v < double(hi), "domain:" + k, "%s decoded to the excluded upper bound", mon::showbv(x).c_str()); };
  BV z(size, 0); MON_CHECK(c, rep->unpack(z, 0) == lo, "lower:" + k, "zeros are not decoded to the lower bound"); test(BV(size, 1)); if (size <= 7) { std::set<T> s; for (int u = 0; u < (1 << size); u++) { test(bits(u, size)); s.insert(rep->unpack(bits(u, size), 0)); } if (sizeof(T) == 8) MON_CHECK(c, s.size() == size_t(1) << size, "distinct:" + k, "%zu distinct values out of %d", s.size(), 1 << size); T prev = 0; bool first = true; for (T v : s) { if (!first && prec > 0) MON_CHECK(c, v - prev <= prec * 1.001, "precision:" + k, "step %g for precision %g", double(v - prev), double(prec)); prev = v; first = false; } } else for (int t = 0; t < 15; t++) test(rv(r, size)); c.cover(k + fmt("%d/%g", size, double(lo))); c.count(k);
}
CASES(floats, 6000, 30000) { if (c.idx % 4 == 0) flt<float>(c, "float"); else flt<double>(c, "double"); }
CASES(value_sets, 3600, 16000) {
  auto& r = c.rng; int n = r.chance(.1) ? r.range(1, 300) : r.range(1, 20); std::set<double> s; while (int(s.size()) < n) s.insert(r.range(-1000, 1000) / 8.); std::vector<double> v(s.begin(), s.end()), sorted = v; for (int i = n - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]); c.desc(fmt("ValueSet of %d values", n)); ValueSetRepresentation<double> rep(v); std::string k = "ValueSet"; int size = width(n - 1); MON_CHECK(c, rep.size() == size, "size:" + k, "size %d for %d values, expected %d", rep.size(), n, size); std::set<double> seen; for (int u = 0; u < (1 << size); u++) { double x = decode(c, rep, bits(u, size), k); MON_CHECK(c, s.count(x), "domain:" + k, "%g is not in the set", x); MON_CHECK(c, x == sorted[std::min(u, n - 1)], "value:" + k, "index %d decoded to %g, expected %g", u, x, sorted[std::min(u, n - 1)]); seen.insert(x); } MON_CHECK(c, seen.size() == s.size(), "onto:" + k, "%zu of %zu values are decoded", seen.size(), s.size()); c.count(k); c.cover(fmt("%d/%g", n, sorted[0])); std::ostringstream o; rep.display(o);
}
CASES(categories, 3000, 12000) {
  auto& r = c.rng; if (c.idx == 3) { IntegerCategoricalRepresentation one(1); MON_CHECK(c, one.size() == 0, "size:IntegerCategorical", "size %d for a single category", one.size()); } if (c.idx % 2) { int n = c.idx % 50 == 1 ? r.range(60000, 140000) : r.chance(.2) ? r.range(2, 1000) : r.range(2, 40); c.desc(fmt("IntegerCategorical(%d)", n)); IntegerCategoricalRepresentation rep(n); std::string k = "IntegerCategorical"; int size = width(n - 1); MON_CHECK(c, rep.size() == size, "size:" + k, "size %d for %d categories, expected %d", rep.size(), n, size); std::set<size_t> seen; for (int u = 0; u < (1 << size); u++) { size_t v = decode(c, rep, bits(u, size), k); MON_CHECK(c, v < size_t(n), "domain:" + k, "category %zu of %d", v, n); MON_CHECK(c, v == size_t(u % n), "value:" + k, "code %d gives category %zu", u, v); seen.insert(v); } MON_CHECK(c, int(seen.size()) == n, "onto:" + k, "%zu categories of %d", seen.size(), n); c.count(k); c.cover(fmt("i%d", n)); }
  else { int n = r.chance(.2) ? r.range(2, 200) : r.range(2, 20); c.desc(fmt("LinearCategorical(%d)", n)); LinearCategoricalRepresentation rep(n); std::string k = "LinearCategorical"; int rows = width(n - 1), size = (1 << rows) - 1; MON_CHECK(c, rep.size() == size, "size:" + k, "size %d for %d categories, expected %d", rep.size(), n, size); std::set<size_t> seen; auto lin = [&](const BV& x) { size_t y = 0; for (int j = 0; j < size; j++) if (x[j]) y ^= j + 1; return y % n; }; for (int j = -1; j < size; j++) { BV x(size, 0); if (j >= 0) x[j] = 1; size_t v = decode(c, rep, x, k); MON_CHECK(c, v == lin(x), "value:" + k, "unit vector %d gives category %zu, expected %zu", j, v, lin(x)); seen.insert(v); } for (int t = 0; t < 12; t++) { BV x = rv(r, size); size_t v = decode(c, rep, x, k); MON_CHECK(c, v < size_t(n), "domain:" + k, "category %zu of %d", v, n); MON_CHECK(c, v == lin(x), "value:" + k, "%s gives category %zu, expected %zu", mon::showbv(x).c_str(), v, lin(x)); } MON_CHECK(c, int(seen.size()) == n, "onto:" + k, "%zu categories of %d", seen.size(), n); c.count(k); c.cover(fmt("l%d", n)); }
}
CASES(complexes, 1800, 8000) {
  auto& r = c.rng; typedef DyadicFloatRepresentation<double> F; F a(-2., 3., int(r.range(1, 20))), b(0., 1., int(r.range(1, 20))); bool same = r.bit(); ComplexRepresentation<F> rep = same ? ComplexRepresentation<F>(a) : ComplexRepresentation<F>(a, b); F& im = same ? a : b; c.desc(fmt("Complex %d+%d", a.size(), im.size())); std::string k = "Complex"; MON_CHECK(c, rep.size() == a.size() + im.size(), "size:" + k, "size %d", rep.size()); for (int t = 0; t < 10; t++) { BV x = rv(r, rep.size()); auto v = decode(c, rep, x, k); MON_CHECK(c, v.real() == a.unpack(x, 0) && v.imag() == im.unpack(x, a.size()), "value:" + k, "%s decoded to (%g,%g)", mon::showbv(x).c_str(), v.real(), v.imag()); } c.count(k); c.cover(fmt("%d/%d/%d", a.size(), im.size(), same));
}
CASES(permutations, 4500, 20000) {
  auto& r = c.rng; random::Generator::set_seed(r.below(1 << 30)); int n = r.chance(.1) ? r.range(2, 100) : r.range(1, 12), add = r.range(1, 4); c.desc(fmt("Permutation(%d,%d)", n, add)); PermutationRepresentation rep(n, add); std::string k = "Permutation"; int es = (n == 1 ? 0 : width(n - 1)) + add; MON_CHECK(c, rep.size() == n * es, "size:" + k, "size %d for %d elements and %d additional bits, expected %d", rep.size(), n, add, n * es); MON_CHECK(c, rep.get_num_elements() == n, "size:" + k, "%d elements", rep.get_num_elements());
  for (int t = 0; t < 8; t++) { std::vector<int> val(n); BV x; bool distinct = r.bit(); if (distinct) { for (int i = 0; i < n; i++) val[i] = i; for (int i = n - 1; i > 0; i--) std::swap(val[i], val[r.below(i + 1)]); int off = r.below((1 << es) - n + 1); for (auto& v : val) v += off; } else for (auto& v : val) v = r.bit() ? r.below(1 << es) : r.below(std::min(1 << es, 3)); for (int v : val) { BV b = bits(v, es); x.insert(x.end(), b.begin(), b.end()); } int start; BV y = embed(r, x, start); permutation_t p(n, 77); rep.unpack(y, start, p); std::set<int> s(p.begin(), p.end()); MON_CHECK(c, int(s.size()) == n && *s.begin() == 0 && *s.rbegin() == n - 1, "domain:" + k, "not a permutation: %s", mon::show(p).c_str()); for (int i = 1; i < n; i++) MON_CHECK(c, val[p[i - 1]] <= val[p[i]], "order:" + k, "elements are not sorted by their values"); if (std::set<int>(val.begin(), val.end()).size() == size_t(n)) { permutation_t q(n); rep.unpack(y, start, q); MON_CHECK(c, p == q, "repeat:" + k, "different permutations for the same bits without ties"); } }
  c.count(k); c.cover(fmt("%d/%d", n, add));
}
CASES(permutation_ties, 18, 40) { // ties are broken uniformly
  auto& r = c.rng; random::Generator::set_seed(r.below(1 << 30)); int n = r.range(2, 4); c.desc(fmt("ties of Permutation(%d,1)", n)); PermutationRepresentation rep(n, 1); BV x(rep.size(), r.bit()); std::map<permutation_t, int> h; const int N = 30000; for (int t = 0; t < N; t++) { permutation_t p(n); rep.unpack(x, 0, p); h[p]++; } double f = 1; for (int i = 2; i <= n; i++) f *= i; MON_CHECK(c, h.size() == size_t(f), "ties", "%zu permutations out of %g", h.size(), f); for (auto& q : h) MON_CHECK(c, mon::plausible_binomial(N, 1 / f, q.second), "ties", "a permutation was drawn %d times in %d", q.second, N); c.cover(fmt("%d", n));
}
int main(int a, char **v) { return mon::main(a, v); }
