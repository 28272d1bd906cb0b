// C23: bit vector, sparse bit vector, permutation, iterator, random and numeric utilities against reference implementations.
#include "mon.hh"
#include "hnco/bit-vector.hh"
#include "hnco/sparse-bit-vector.hh"
#include "hnco/permutation.hh"
#include "hnco/random.hh"
#include "hnco/iterator.hh"
#include "hnco/util.hh"
#include "hnco/stop-watch.hh"
#include "hnco/exception.hh"
#include "hnco/algorithms/walsh-moment/matrix.hh"
#include "hnco/functions/converter.hh"
#include "hnco/logging/logger.hh"
#include <numeric>
#include <list>
using namespace hnco; using mon::fmt; using mon::showbv;
typedef bit_vector_t BV; typedef random::Generator G;

static BV rv(mon::Rng& r, int n) { BV x(n); int mode = r.below(6); double p = mode == 0 ? .05 : mode == 1 ? .95 : mode == 2 ? 0 : mode == 3 ? 1 : .5; for (auto& b : x) b = r.chance(p); return x; }
static int rsize(mon::Rng& r) { switch (r.below(6)) { case 0: return r.range(0, 4); case 1: return r.pick(std::vector<int>{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513}); case 2: return r.range(200, 3000); default: return r.range(1, 80); } }
static std::string str(const BV& x) { std::string s; for (auto b : x) s += char('0' + (b != 0)); return s; }
static bool even(const std::string& s) { (void)s; return true; }

// Operations on pairs of bit vectors ----------------------------------------------------------
static void ops(mon::Ctx& c, const BV& x, const BV& y) {
  int n = x.size(); std::vector<bool> xb(x.begin(), x.end()), yb(y.begin(), y.end()); int wx = 0, wy = 0, d = 0, dot = 0; BV sum(n);
  for (int i = 0; i < n; i++) { wx += x[i]; wy += y[i]; d += x[i] != y[i]; dot += x[i] & y[i]; sum[i] = x[i] != y[i]; }
  std::string sx = showbv(x, 200), sy = showbv(y, 200);
  MON_CHECK(c, bv_hamming_weight(x) == wx && bv_hamming_weight(y) == wy, "weight", "weight of %s is %d, expected %d", sx.c_str(), bv_hamming_weight(x), wx);
  MON_CHECK(c, bv_hamming_weight(xb) == wx, "weight-bool", "weight of %s is %d, expected %d", sx.c_str(), bv_hamming_weight(xb), wx);
  MON_CHECK(c, bv_hamming_distance(x, y) == d && bv_hamming_distance(y, x) == d && bv_hamming_distance(x, x) == 0, "distance", "distance of %s and %s is %d, expected %d", sx.c_str(), sy.c_str(), bv_hamming_distance(x, y), d);
  MON_CHECK(c, bv_dot_product(x, y) == (dot & 1), "dot", "dot product of %s and %s is %d, expected %d", sx.c_str(), sy.c_str(), int(bv_dot_product(x, y)), dot & 1);
  MON_CHECK(c, bv_dot_product(x, yb) == (dot & 1), "dot-bool", "dot product of %s and (bool) %s is %d, expected %d", sx.c_str(), sy.c_str(), int(bv_dot_product(x, yb)), dot & 1);
  { BV z = x; bv_add(z, y); MON_CHECK(c, z == sum, "add", "%s + %s gives %s", sx.c_str(), sy.c_str(), showbv(z, 200).c_str()); bv_add(z, y); MON_CHECK(c, z == x, "add-twice", "adding %s twice to %s gives %s", sy.c_str(), sx.c_str(), showbv(z, 200).c_str()); z = x; bv_add(z, z); MON_CHECK(c, z == BV(n, 0), "add-self", "%s + itself gives %s", sx.c_str(), showbv(z, 200).c_str()); }
  { BV z = rv(c.rng, n); bv_add(z, x, y); MON_CHECK(c, z == sum, "add3", "%s + %s gives %s", sx.c_str(), sy.c_str(), showbv(z, 200).c_str()); BV a = x; bv_add(a, a, y); MON_CHECK(c, a == sum, "add3-alias", "x = x + y with x = %s, y = %s gives %s", sx.c_str(), sy.c_str(), showbv(a, 200).c_str()); BV b = y; bv_add(b, x, b); MON_CHECK(c, b == sum, "add3-alias", "y = x + y gives %s", showbv(b, 200).c_str()); }
  MON_CHECK(c, bv_is_zero(x) == (wx == 0), "is-zero", "%s", sx.c_str()); MON_CHECK(c, bv_is_valid(x), "is-valid", "%s", sx.c_str());
  { BV z = x; bv_clear(z); MON_CHECK(c, z == BV(n, 0), "clear", "clear of %s gives %s", sx.c_str(), showbv(z, 200).c_str()); }
  { std::vector<bool> b(n); for (int i = 0; i < n; i++) b[i] = c.rng.bit(); bv_to_vector_bool(b, x); MON_CHECK(c, b == xb, "to-bool", "%s", sx.c_str()); BV z = rv(c.rng, n); bv_from_vector_bool(z, xb); MON_CHECK(c, z == x, "from-bool", "%s gives %s", sx.c_str(), showbv(z, 200).c_str()); }
  { std::ostringstream o; bv_display(x, o); MON_CHECK(c, o.str() == str(x), "display", "%s displayed as %s", sx.c_str(), o.str().c_str()); MON_CHECK(c, bv_from_string(o.str()) == x, "from-string", "%s", sx.c_str()); std::istringstream in(o.str() + (c.rng.bit() ? "\n" + str(y) + (c.rng.bit() ? "\n" : "") : "")); bool two = in.str().size() > o.str().size(); MON_CHECK(c, bv_from_stream(in) == x, "from-stream", "%s", sx.c_str()); if (two) MON_CHECK(c, bv_from_stream(in) == y, "from-stream", "second line %s", sy.c_str()); MON_CHECK(c, bv_from_stream(in) == BV(), "from-stream", "a vector read at the end of the stream"); }
  MON_CHECK(c, bv_domain(x).find(std::to_string(n)) != std::string::npos, "domain", "bv_domain of %d bits is %s", n, bv_domain(x).c_str());
  if (n) { BV z = x; int i = c.rng.below(n); bv_flip(z, i); int dd = 0; for (int k = 0; k < n; k++) dd += z[k] != x[k]; MON_CHECK(c, dd == 1 && z[i] != x[i] && bv_is_valid(z), "flip", "flip %d of %s gives %s", i, sx.c_str(), showbv(z, 200).c_str()); }
  { sparse_bit_vector_t s; for (int i = 0; i < n; i++) if (y[i]) s.push_back(i); BV z = x; bv_flip(z, s); MON_CHECK(c, z == sum, "flip-sparse", "flip of %s by %s gives %s", sx.c_str(), sy.c_str(), showbv(z, 200).c_str());
    MON_CHECK(c, sbv_is_valid(s) && sbv_is_valid(s, n) && sbv_is_valid(s, n + 7), "sbv-valid", "%s in dimension %d", mon::show(s).c_str(), n);
    if (!s.empty()) { MON_CHECK(c, !sbv_is_valid(s, s.back()), "sbv-dimension", "%s accepted in dimension %d", mon::show(s).c_str(), s.back()); auto t = s; t[0] = -1 - int(c.rng.below(5)); MON_CHECK(c, !sbv_is_valid(t) && !sbv_is_valid(t, n), "sbv-negative", "%s accepted", mon::show(t).c_str()); }
    if (s.size() > 1) { auto t = s; int i = c.rng.below(s.size() - 1), j = i + 1 + c.rng.below(s.size() - 1 - i); std::swap(t[i], t[j]); MON_CHECK(c, !sbv_is_valid(t) && !sbv_is_valid(t, n), "sbv-order", "%s accepted", mon::show(t).c_str()); }
    std::ostringstream o; sbv_display(s, o); std::istringstream in(o.str()); std::vector<int> back; int v; while (in >> v) back.push_back(v); MON_CHECK(c, in.eof() && back == s, "sbv-display", "%s displayed as '%s'", mon::show(s).c_str(), o.str().c_str()); }
  if (n) { BV z = x; z[c.rng.below(n)] = 2 + c.rng.below(254); MON_CHECK(c, !bv_is_valid(z) && !bv_is_zero(z), "invalid", "a component %s accepted", mon::show(z).c_str()); }
  c.cover(fmt("%d/%d/%d/%d", n, wx, wy, dot));
}
CASES(pairs_small, 1365, 1365) { long k = c.idx; for (int n = 0; n <= 5; n++) { long N = 1l << 2 * n; if (k < N) { BV x(n), y(n); for (int i = 0; i < n; i++) { x[i] = k >> i & 1; y[i] = k >> (n + i) & 1; } c.desc("all pairs " + str(x) + " " + str(y)); ops(c, x, y); return; } k -= N; } }
CASES(pairs, 12000, 60000) { int n = rsize(c.rng); BV x = rv(c.rng, n), y = rv(c.rng, n); if (c.rng.chance(.1)) y = x; c.desc(fmt("n=%d x=%s y=%s", n, showbv(x, 300).c_str(), showbv(y, 300).c_str())); ops(c, x, y); c.sample(c.description); }
CASES(bits, 4, 4) { c.desc("single bits"); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { MON_CHECK(c, bit_add(a, b) == (a ^ b), "bit-add", "%d+%d=%d", a, b, int(bit_add(a, b))); bit_t z = a; bit_flip(z, b); MON_CHECK(c, z == (a ^ b), "bit-flip", "%d flipped if %d gives %d", a, b, int(z)); } for (int a = 0; a < 2; a++) { bit_t z = a; bit_flip(z); MON_CHECK(c, z == 1 - a, "bit-flip", "%d gives %d", a, int(z)); } c.cover("bits"); }

// Conversion with unsigned integers -----------------------------------------------------------
CASES(integers, 8000, 40000) {
  auto& r = c.rng; int n = r.chance(.3) ? r.pick(std::vector<int>{0, 1, 31, 32, 33, 62, 63, 64}) : r.range(0, 64); BV x = rv(r, n); c.desc("integer " + str(x)); unsigned __int128 want = 0; for (int i = 0; i < n; i++) if (x[i]) want += (unsigned __int128)(1) << i;
  MON_CHECK(c, bv_to_size_type(x) == size_t(want), "to-integer", "%s gives %zu, expected %zu", str(x).c_str(), bv_to_size_type(x), size_t(want)); BV z = rv(r, n); bv_from_size_type(z, size_t(want)); MON_CHECK(c, z == x, "from-integer", "%zu on %d bits gives %s", size_t(want), n, str(z).c_str());
  size_t u = r.pick(std::vector<size_t>{0, 1, ~size_t(0), size_t(1) << 63, size_t(1) << 31, size_t(1) << 32, r.next(), r.next(), r.next() >> 20}); BV y = rv(r, n); bv_from_size_type(y, u); for (int i = 0; i < n; i++) MON_CHECK(c, y[i] == (u >> i & 1), "from-integer", "bit %d of %zu on %d bits is %d", i, u, n, int(y[i]));
  int m = r.chance(.5) ? r.range(1, 64) : r.range(1, 300); BV w = rv(r, m); int a = r.below(m), b = std::min(m, a + (r.chance(.2) ? 64 : 1 + int(r.below(64)))); if (r.chance(.1)) b = std::min(m, a + 1); size_t v = 0; for (int i = b - 1; i >= a; i--) v = v * 2 + w[i]; c.more(fmt("slice [%d,%d) of %s", a, b, str(w).c_str())); MON_CHECK(c, bv_to_size_type(w, a, b) == v, "slice", "gives %zu, expected %zu", bv_to_size_type(w, a, b), v); if (m <= 64) MON_CHECK(c, bv_to_size_type(w, 0, m) == bv_to_size_type(w), "slice", "whole vector");
  c.cover(fmt("%d/%d/%d", n, m, b - a)); c.sample(c.description);
}

// Iterators -----------------------------------------------------------------------------------
CASES(iterators, 34, 38) {
  int n = c.idx / 2; bool ext = c.idx % 2; c.desc(fmt("iterator n=%d ext=%d", n, ext)); std::unique_ptr<Iterator> it; if (ext) it.reset(new ExtendedHypercubeIterator(n)); else it.reset(new HypercubeIterator(n));
  for (int pass = 0; pass < 3; pass++) { it->init(); std::vector<char> seen(size_t(1) << n, 0); long k = 0, stop = pass == 1 ? long((size_t(1) << n) * c.rng.real()) : -1; while (it->has_next()) { if (k == stop) break; const BV& x = it->next(); MON_CHECK(c, int(x.size()) == n && bv_is_valid(x), "iterator-vector", "vector %s", showbv(x).c_str()); size_t u = 0; for (int i = n - 1; i >= 0; i--) u = 2 * u + x[i]; MON_CHECK(c, !seen[u], "iterator-twice", "%s visited twice in pass %d", showbv(x).c_str(), pass); seen[u] = 1; k++; if (n < 6) MON_CHECK(c, it->has_next() == it->has_next(), "has-next", "has_next changes the state"); }
    long want = n == 0 && !ext ? 0 : 1l << n; if (stop < 0) MON_CHECK(c, k == want, "iterator-count", "%ld vectors visited, expected %ld (pass %d)", k, want, pass); } c.cover(fmt("%d/%d", n, ext));
}

// Permutations --------------------------------------------------------------------------------
static bool isperm(const std::vector<int>& p) { std::vector<int> q = p; std::sort(q.begin(), q.end()); for (size_t i = 0; i < q.size(); i++) if (q[i] != int(i)) return false; return true; }
CASES(permutations, 6000, 30000) {
  auto& r = c.rng; int n = r.chance(.3) ? r.range(0, 5) : r.range(1, 300); permutation_t p(n); for (auto& v : p) v = r.range(-5, 400); c.desc(fmt("permutation n=%d", n));
  MON_CHECK(c, perm_is_valid(p) == isperm(p), "perm-valid", "%s", mon::show(p).c_str()); perm_identity(p); for (int i = 0; i < n; i++) MON_CHECK(c, p[i] == i, "perm-identity", "%s", mon::show(p).c_str()); MON_CHECK(c, perm_is_valid(p) && int(p.size()) == n, "perm-valid", "identity rejected");
  for (auto& v : p) v = r.range(-5, 400); perm_random(p); MON_CHECK(c, int(p.size()) == n && isperm(p) && perm_is_valid(p), "perm-random", "%s", mon::show(p).c_str()); auto q = p; perm_shuffle(q); MON_CHECK(c, isperm(q) && perm_is_valid(q), "perm-shuffle", "%s", mon::show(q).c_str());
  std::ostringstream o; perm_display(p, o); std::string t = o.str(); for (auto& ch : t) if (ch == ',') ch = ' '; std::istringstream in(t); std::vector<int> back; int v; while (in >> v) back.push_back(v); MON_CHECK(c, back == p, "perm-display", "%s displayed as %s", mon::show(p).c_str(), o.str().c_str());
  std::vector<int> e(n); for (auto& v : e) v = r.range(0, 1000); auto s0 = e; std::sort(s0.begin(), s0.end()); perm_shuffle(e); std::sort(e.begin(), e.end()); MON_CHECK(c, e == s0, "perm-shuffle", "shuffle changed the elements");
  if (n) { auto bad = p; int i = r.below(n); switch (r.below(4)) { case 0: bad[i] = -1; break; case 1: bad[i] = n; break; case 2: bad[i] = r.pick(std::vector<int>{INT32_MIN, INT32_MAX, n + 1, -n}); break; default: if (n > 1) bad[i] = bad[(i + 1 + r.below(n - 1)) % n]; else bad[i] = 1; } MON_CHECK(c, perm_is_valid(bad) == isperm(bad) && !perm_is_valid(bad), "perm-invalid", "%s accepted", mon::show(bad).c_str()); }
  c.cover(fmt("%d/%d", n, n ? p[0] : 0));
}
CASES(permutation_law, 16, 60) { // all permutations of n <= 5 equally frequent
  auto& r = c.rng; int n = 2 + c.idx % 4; bool shuf = c.idx / 4 % 2; c.desc(fmt("law of permutations n=%d", n)); G::set_seed(r.below(1u << 30)); std::map<std::vector<int>, long> h; long N = 40000; permutation_t p(n); std::vector<int> start(n); for (int i = 0; i < n; i++) start[i] = n - 1 - i; for (long t = 0; t < N; t++) { if (shuf) { p = start; perm_shuffle(p); } else perm_random(p); h[p]++; } long f = 1; for (int i = 2; i <= n; i++) f *= i; MON_CHECK(c, long(h.size()) == f, "perm-support", "%zu permutations seen in %ld draws, expected %ld", h.size(), N, f); for (auto& e : h) MON_CHECK(c, mon::plausible_binomial(N, 1. / f, e.second), "perm-uniform", "%s drawn %ld times in %ld", mon::show(e.first).c_str(), e.second, N); c.cover(fmt("%d/%d", n, shuf)); }

// Random numbers ------------------------------------------------------------------------------
CASES(weight_k, 3000, 20000) { auto& r = c.rng; int n = rsize(r), k = r.chance(.3) ? r.pick(std::vector<int>{0, n, n ? 1 : 0, n ? n - 1 : 0}) : r.range(0, n); c.desc(fmt("bv_random(n=%d, k=%d)", n, k)); for (int t = 0; t < 5; t++) { BV x = rv(r, n); bv_random(x, k); int w = 0; for (auto b : x) w += b; MON_CHECK(c, int(x.size()) == n && bv_is_valid(x) && w == k, "random-weight", "weight %d", w); } BV y = rv(r, n); for (auto& b : y) b = 7; bv_random(y); MON_CHECK(c, bv_is_valid(y) && int(y.size()) == n, "random-bits", "%s", mon::show(y).c_str()); c.cover(fmt("%d/%d", n, k)); }
CASES(vector_law, 20, 80) { // subsets of size k equally frequent; bits of a random vector independent and fair
  auto& r = c.rng; int n = r.range(2, 6), k = r.range(1, n - 1); c.desc(fmt("law of bv_random n=%d k=%d", n, k)); G::set_seed(r.below(1u << 30)); long N = 40000; std::map<BV, long> h, g; BV x(n); for (long t = 0; t < N; t++) { bv_random(x, k); h[x]++; bv_random(x); g[x]++; } double f = std::round(std::tgamma(n + 1) / std::tgamma(k + 1) / std::tgamma(n - k + 1)); MON_CHECK(c, double(h.size()) == f, "subset-support", "%zu subsets seen, expected %g", h.size(), f); for (auto& e : h) MON_CHECK(c, mon::plausible_binomial(N, 1 / f, e.second), "subset-uniform", "%s drawn %ld times in %ld", showbv(e.first).c_str(), e.second, N); MON_CHECK(c, g.size() == size_t(1) << n, "vector-support", "%zu vectors seen", g.size()); for (auto& e : g) MON_CHECK(c, mon::plausible_binomial(N, std::pow(.5, n), e.second), "vector-uniform", "%s drawn %ld times in %ld", showbv(e.first).c_str(), e.second, N); c.cover(fmt("%d/%d", n, k)); }
CASES(number_law, 20, 80) {
  auto& r = c.rng; unsigned seed = r.chance(.2) ? r.pick(std::vector<unsigned>{0, 1, ~0u}) : unsigned(r.next()); c.desc(fmt("random numbers, seed %u", seed)); G::set_seed(seed); const long N = 50000; long dec[20] = {0}, lag = 0, ones = 0, both = 0, up = 0; double prev = .5; bool pb = false; double s1 = 0, s2 = 0, s3 = 0, s4 = 0; long tails = 0, cover1 = 0;
  for (long t = 0; t < N; t++) { double u = G::uniform(); MON_CHECK(c, u >= 0 && u < 1, "uniform-range", "%.17g", u); dec[int(u * 20)]++; lag += (u < .5) && (prev < .5); up += u > prev; prev = u; bool b = G::bernoulli(); ones += b; both += b && pb; pb = b; double z = G::normal(); MON_CHECK(c, std::isfinite(z), "normal-finite", "%g", z); s1 += z; s2 += z * z; s3 += z * z * z; s4 += z * z * z * z; tails += std::fabs(z) > 1.959964; cover1 += std::fabs(z) < 1; }
  for (int i = 0; i < 20; i++) MON_CHECK(c, mon::plausible_binomial(N, .05, dec[i]), "uniform-law", "bin %d of 20 hit %ld times in %ld", i, dec[i], N); MON_CHECK(c, mon::plausible_binomial(N, .25, lag, 9), "uniform-independence", "consecutive draws both below 1/2 %ld times in %ld", lag, N); MON_CHECK(c, mon::plausible_binomial(N, .5, ones), "bernoulli-law", "%ld ones in %ld", ones, N); MON_CHECK(c, mon::plausible_binomial(N, .25, both, 9), "bernoulli-independence", "two ones in a row %ld times in %ld", both, N);
  double sq = std::sqrt(double(N)); MON_CHECK(c, std::fabs(s1 / N) < 7 / sq && std::fabs(s2 / N - 1) < 7 * std::sqrt(2.) / sq && std::fabs(s3 / N) < 7 * std::sqrt(15.) / sq && std::fabs(s4 / N - 3) < 7 * std::sqrt(96.) / sq, "normal-law", "moments %g %g %g %g", s1 / N, s2 / N, s3 / N, s4 / N); MON_CHECK(c, mon::plausible_binomial(N, .05, tails) && mon::plausible_binomial(N, .6826895, cover1), "normal-law", "%ld beyond 1.96, %ld within 1, of %ld", tails, cover1, N); (void)up;
  double p = r.pick(std::vector<double>{0, 1, .5, .01, .99, .3, 1e-3}); long k = 0; for (long t = 0; t < N; t++) { int b = bit_random(p); MON_CHECK(c, b == 0 || b == 1, "bit-random", "%d", b); k += b; } MON_CHECK(c, p == 0 ? k == 0 : p == 1 ? k == N : mon::plausible_binomial(N, p, k), "bit-random-law", "bit_random(%g) is one %ld times in %ld", p, k, N); c.cover(fmt("%u", seed)); }
// Seeds: equal seeds give equal streams whatever was drawn before; reset restarts the stream of the current seed.
CASES(seeds, 4000, 20000) {
  auto& r = c.rng; unsigned s = r.chance(.3) ? r.pick(std::vector<unsigned>{0, 1, 2, ~0u, 1u << 31, 5489u}) : unsigned(r.next()); c.desc(fmt("seed %u", s)); uint64_t plan = r.next(); int len = r.range(1, 60);
  auto draw = [&](int len) { std::vector<double> o; mon::Rng q(plan); BV x(9); permutation_t p(7); for (int i = 0; i < len; i++) switch (q.below(6)) { case 0: o.push_back(G::uniform()); break; case 1: o.push_back(G::normal()); break; case 2: o.push_back(G::bernoulli()); break; case 3: bv_random(x); o.push_back(bv_to_size_type(x)); break; case 4: bv_random(x, q.below(10)); o.push_back(bv_to_size_type(x)); break; default: perm_random(p); o.push_back(p[0] * 7 + p[1]); } return o; };
  G::set_seed(s); MON_CHECK(c, G::seed == s, "seed-recorded", "seed recorded as %u", G::seed); auto a = draw(len); G::set_seed(s); auto b = draw(len); MON_CHECK(c, a == b, "seed-repeat", "two streams of the same seed differ"); draw(int(r.below(20))); if (r.bit()) { G::normal(); } G::reset(); MON_CHECK(c, draw(len) == a, "reset", "reset does not restart the stream"); MON_CHECK(c, G::seed == s, "seed-recorded", "seed changed by reset");
  // the seed is the one of the standard engine: an engine seeded by the recorded seed gives the same raw stream
  G::set_seed(s); std::vector<uint32_t> raw; for (int i = 0; i < 5; i++) raw.push_back(G::engine()); unsigned s2 = s ^ (1u << r.below(32)); G::set_seed(s2); std::vector<uint32_t> raw2; for (int i = 0; i < 5; i++) raw2.push_back(G::engine()); MON_CHECK(c, raw != raw2, "seed-ignored", "seeds %u and %u give the same stream", s, s2);
  if (c.idx % 50 == 0) { G::set_seed(); unsigned t = G::seed; auto u = draw(len); G::reset(); MON_CHECK(c, draw(len) == u, "clock-seed", "reset does not restart the stream of a clock seed"); G::set_seed(t); MON_CHECK(c, draw(len) == u, "clock-seed", "the recorded seed does not reproduce the stream"); c.count("clock seeds"); }
  c.cover(fmt("%u", s)); }

// Numeric helpers -----------------------------------------------------------------------------
CASES(helpers, 6000, 30000) {
  auto& r = c.rng; auto in = [&]() { return r.chance(.2) ? r.pick(std::vector<int>{INT32_MIN, INT32_MAX, 0, -1, 1}) : r.range(-6, 6); }; int i = in(), a = in(), b = in(); c.desc(fmt("i=%d a=%d b=%d", i, a, b)); bool w = a <= i && i < b; MON_CHECK(c, is_in_range(i, a, b) == w, "range", "is_in_range(%d,%d,%d)=%d", i, a, b, int(is_in_range(i, a, b))); MON_CHECK(c, is_in_range(i, b) == (i >= 0 && i < b), "range", "is_in_range(%d,%d)=%d", i, b, int(is_in_range(i, b)));
  auto re = [&]() { return r.chance(.2) ? r.pick(std::vector<double>{-INFINITY, INFINITY, NAN, 0., -0., 1e300, 5e-324}) : r.chance(.5) ? double(r.range(-3, 3)) : r.real(-3, 3); }; double x = re(), u = re(), v = re(); MON_CHECK(c, is_in_interval(x, u, v) == (u <= x && x <= v), "interval", "is_in_interval(%g,%g,%g)", x, u, v);
  double y = r.chance(.2) ? r.pick(std::vector<double>{0., -0., 800., -800., 36., -36., 710., -710., -745., -1000., 1e300, -1e300, INFINITY, -INFINITY}) : r.real(-40, 40); double L = logistic(y), want = double(y >= 0 ? 1 / (1 + std::exp(-(long double)(y))) : std::exp((long double)(y)) / (1 + std::exp((long double)(y)))); MON_CHECK(c, mon::near(L, want, 1e-12, 1e-300) && L >= 0 && L <= 1, "logistic", "logistic(%g)=%.17g, expected %.17g", y, L, want); if (std::isfinite(y)) MON_CHECK(c, mon::near(L + logistic(-y), 1, 1e-12, 1e-12), "logistic", "logistic(%g)+logistic(-x) != 1", y); double y2 = y + r.real(0, 2); MON_CHECK(c, logistic(y2) >= L, "logistic", "not monotone between %g and %g", y, y2);
  int q = r.range(-46340, 46340); MON_CHECK(c, square(q) == q * q && square(double(q) / 7) == double(q) / 7 * (double(q) / 7) && square(size_t(3000000000u)) == size_t(9000000000000000000u), "square", "square(%d)", q);
  std::vector<int> e; std::vector<std::string> parts; int len = r.below(7); for (int k = 0; k < len; k++) e.push_back(r.range(-99, 99)); std::string sep = r.pick(std::vector<std::string>{"", ",", ", ", " ", "--"}), js; for (int k = 0; k < len; k++) js += (k ? sep : "") + std::to_string(e[k]); MON_CHECK(c, join(e.begin(), e.end(), sep) == js, "join", "'%s', expected '%s'", join(e.begin(), e.end(), sep).c_str(), js.c_str()); std::list<std::string> ls; std::string j2; for (int k = 0; k < len; k++) { ls.push_back(std::string(r.below(4), char('a' + k))); j2 += (k ? sep : "") + ls.back(); } MON_CHECK(c, join(ls.begin(), ls.end(), sep) == j2, "join", "strings");
  std::vector<int> A(r.below(5)); std::string B(r.below(5), 'x'); MON_CHECK(c, have_same_size(A, B) == (A.size() == B.size()), "same-size", "%zu %zu", A.size(), B.size());
  bool ok = r.bit(), thrown = false; std::string what; try { ensure(ok, "message " + js); } catch (const std::runtime_error& x) { thrown = true; what = x.what(); } MON_CHECK(c, thrown == !ok && (ok || what.find("message " + js) != std::string::npos), "ensure", "ensure(%d): thrown %d '%s'", ok, thrown, what.c_str()); thrown = false; try { fail_with("code: ", i); } catch (const std::runtime_error& x) { thrown = true; what = x.what(); } MON_CHECK(c, thrown && what.find("code: ") != std::string::npos && what.find(std::to_string(i)) != std::string::npos, "fail-with", "'%s'", what.c_str());
  // converters of scalars
  double s = re(); if (!std::isnan(s)) { using namespace hnco::function; MON_CHECK(c, ScalarToDouble<double>()(s) == s && AbsoluteValue<double>()(s) == std::fabs(s) && OppositeAbsoluteValue<double>()(s) == -std::fabs(s), "converter", "%g", s); long z = r.range(-1000, 1000); MON_CHECK(c, ScalarToDouble<long>()(z) == double(z) && AbsoluteValue<long>()(z) == double(z < 0 ? -z : z) && OppositeAbsoluteValue<int>()(int(z)) == -double(z < 0 ? -z : z), "converter", "%ld", z); double p = r.range(-30, 30), m = r.range(-30, 30); MON_CHECK(c, SquaredMagnitude<double>()({p, m}) == p * p + m * m && OppositeSquaredMagnitude<double>()({p, m}) == -(p * p + m * m), "converter", "%g+i%g", p, m); }
  // predicates on matrices
  { using namespace hnco::algorithm; int n = r.range(0, 5); std::vector<std::vector<double>> M(n, std::vector<double>(n, 0)); int kind = r.below(4); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M[i][j] = kind == 0 ? r.range(-2, 2) : kind == 1 ? (j < i ? r.range(-2, 2) : 0) : kind == 2 ? (j < i ? M[i][j] = r.range(-2, 2) : i == j ? 1 : 0) : 0; if (kind == 2) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) M[i][j] = M[j][i]; if (n && r.chance(.3)) M[r.below(n)][r.below(n)] += 1; bool sy = true, lo = true, di = true, rg = true; double d0 = r.range(0, 1); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { sy &= M[i][j] == M[j][i]; if (j >= i) lo &= M[i][j] == 0; if (i == j) di &= M[i][j] == d0; if (j < i) rg &= M[i][j] >= -1 && M[i][j] <= 1; } std::string t; for (auto& row : M) t += mon::show(row) + ";"; MON_CHECK(c, matrix_is_symmetric(M) == sy && matrix_is_strictly_lower_triangular(M) == lo && matrix_has_diagonal(M, d0) == di && matrix_has_range(M, -1., 1.) == rg, "matrix-predicates", "%s", t.c_str()); }
  c.cover(fmt("%d/%d/%d/%g", i, a, b, y)); }
// A logger writes one line holding everything sent to it, in order.
CASES(logger, 600, 3000) {
  auto& r = c.rng; std::string want; mon::Capture cap(std::cout); struct Ctxt : logging::LogContext { std::string s; std::string to_string() override { return s; } } lc; lc.s = "ctx " + std::to_string(r.below(1000)); int lines = r.range(1, 4); std::vector<std::vector<std::string>> exp; for (int l = 0; l < lines; l++) { int use = r.below(3); std::vector<std::string> e; if (use == 1) { e.push_back("ctx"); e.push_back(lc.s.substr(4)); } { std::unique_ptr<logging::Logger> L(use == 0 ? new logging::Logger() : use == 1 ? new logging::Logger(&lc) : new logging::Logger(static_cast<logging::LogContext *>(nullptr))); int k = r.below(6); for (int i = 0; i < k; i++) { if (r.bit()) { int v = r.range(-99, 99); *L << v; e.push_back(std::to_string(v)); } else { *L << "tok"; e.push_back("tok"); } } } exp.push_back(e); }
  std::istringstream in(cap.str()); std::string line; std::vector<std::vector<std::string>> got; while (std::getline(in, line)) { std::istringstream l(line); std::vector<std::string> e; std::string t; while (l >> t) e.push_back(t); got.push_back(e); } MON_CHECK(c, got == exp, "logger", "%d lines expected, output '%s'", lines, cap.str().c_str()); c.cover(cap.str()); }
// A stop watch adds the processor time between starts and stops.
CASES(stop_watch, 6, 30) {
  StopWatch w; c.desc("stop watch"); MON_CHECK(c, w.get_total_time() == 0, "stop-watch", "initial time"); auto burn = [&](double s) { clock_t a = clock(); volatile unsigned long k = 0; while (double(clock() - a) / CLOCKS_PER_SEC < s) k = k + 1; }; double total = 0; for (int i = 0; i < 3; i++) { double s = .005 * c.rng.range(1, 4); clock_t a = clock(); w.start(); clock_t b = clock(); burn(s); clock_t d = clock(); w.stop(); clock_t e = clock(); double lo = double(d - b) / CLOCKS_PER_SEC, hi = double(e - a) / CLOCKS_PER_SEC, inc = w.get_total_time() - total; MON_CHECK(c, inc >= lo - 1e-9 && inc <= hi + 1e-9, "stop-watch", "%g s measured, between %g and %g elapsed", inc, lo, hi); total = w.get_total_time(); burn(.003); MON_CHECK(c, w.get_total_time() == total, "stop-watch", "time runs while stopped"); } w.reset(); MON_CHECK(c, w.get_total_time() == 0, "stop-watch", "reset"); c.cover(fmt("%g", total)); }
int main(int a, char **v) { (void)even; return mon::main(a, v); }
