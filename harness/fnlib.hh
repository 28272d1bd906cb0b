// Generator of function instances together with independent reference models written from the
// published definitions (not from the implementation).
#ifndef FNLIB_HH
#define FNLIB_HH

#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <numeric>
#include <gmpxx.h>

#include "hnco/functions/all.hh"
#include "hnco/functions/collection/all.hh"
#include "hnco/functions/collection/factorization.hh"
#include "mon.hh"

namespace fl {

using namespace hnco;
using namespace hnco::function;
using mon::Ctx;
using mon::fmt;
using BV = bit_vector_t;

struct Inst {
  std::string name;
  std::shared_ptr<Function> f;
  std::function<double(const BV&)> ref;
  double tol = 0;                       // absolute tolerance (0: exact)
  std::vector<BV> hints;                // interesting points
  bool known_max = false; double max = 0;
  bool incremental = false;
};

inline BV rbv(mon::Rng& r, int n, double p = 0.5) { BV x(n); for (auto& b : x) b = r.chance(p); return x; }
inline int wt(const BV& x) { int w = 0; for (auto b : x) w += b ? 1 : 0; return w; }
inline BV pre(int n, int ones) { BV x(n, 0); for (int i = 0; i < ones && i < n; i++) x[i] = 1; return x; }
inline BV suf(int n, int ones) { BV x(n, 0); for (int i = 0; i < ones && i < n; i++) x[n - 1 - i] = 1; return x; }

inline int pick_size(mon::Rng& r, bool big = true) {
  switch (r.below(8)) {
  case 0: return r.range(1, 4);
  case 1: case 2: case 3: return r.range(1, 16);
  case 4: return r.range(2, 40);
  case 5: return r.pick(std::vector<int>{31, 32, 33, 63, 64, 65});
  case 6: return big ? r.range(60, 140) : r.range(2, 30);
  default: return big ? r.pick(std::vector<int>{127, 128, 129, 255, 256, 257, 300, 511, 513, 1025, 2000}) : r.range(3, 24);
  }
}

// A weight drawn from a deliberately varied set of distributions.
struct WeightGen {
  mon::Rng& r; int kind; std::vector<double> rec;
  WeightGen(mon::Rng& rr) : r(rr), kind(rr.below(7)) {}
  double draw() {
    switch (kind) {
    case 0: return r.gauss();
    case 1: return r.range(-5, 5);
    case 2: return r.range(0, 9);
    case 3: return -double(r.range(1, 9));
    case 4: return std::ldexp(1.0, r.range(0, 20));
    case 5: return r.chance(0.5) ? 0.0 : r.gauss() * 1000;
    default: return double(r.lrange(-1000000000LL, 1000000000LL));
    }
  }
  double operator()() { double w = draw(); rec.push_back(w); return w; }
};

// Long path of dimension n and prefix length k: explicit list of points (small n).
inline std::vector<BV> long_path(int n, int k) {
  std::vector<BV> p{BV(0)};
  for (int d = k; d <= n; d += k) {
    std::vector<BV> q;
    for (auto& x : p) { BV y(k, 0); y.insert(y.end(), x.begin(), x.end()); q.push_back(y); }
    for (int i = 1; i < k; i++) { BV y(k, 0); for (int j = k - i; j < k; j++) y[j] = 1; y.insert(y.end(), p.back().begin(), p.back().end()); q.push_back(y); }
    for (auto it = p.rbegin(); it != p.rend(); ++it) { BV y(k, 1); y.insert(y.end(), it->begin(), it->end()); q.push_back(y); }
    p.swap(q);
  }
  return p;
}
inline double lp_len(int m, int k) { double l = 1; for (int d = k; d <= m; d += k) l = 2 * l + (k - 1); return l; }
// Point number t (0-based) of the path, without building the path.
inline BV lp_point(int n, int k, double t) {
  BV x; bool rev = false; (void)rev;
  while (n > 0) {
    double l = lp_len(n - k, k);
    if (t < l) { x.insert(x.end(), k, 0); }
    else if (t < l + k - 1) { int i = int(t - l) + 1; for (int j = 0; j < k; j++) x.push_back(j >= k - i); t = l - 1; }
    else { x.insert(x.end(), k, 1); t = (l - 1) - (t - l - (k - 1)); }
    n -= k;
  }
  return x;
}
inline double lp_index(const BV& x, int k) {
  // walk the prefixes from the last one: index of the suffix in the path of its dimension, or -1
  int n = x.size(); double idx = 0, len = 1;
  for (int s = n - k; s >= 0; s -= k) {
    int ones = 0, firstone = k; for (int j = 0; j < k; j++) if (x[s + j]) { ones++; if (firstone == k) firstone = j; }
    if (ones == 0) { /* front */ }
    else if (ones == k) { if (idx >= 0) idx = len + (k - 1) + (len - 1 - idx); }
    else if (firstone + ones == k) { idx = (idx == len - 1) ? len + ones - 1 : -1; }
    else idx = -1;
    len = 2 * len + (k - 1);
  }
  return idx;
}

inline std::vector<std::vector<int>> rand_cnf(mon::Rng& r, int n, int c, int fixed_k) {
  std::vector<std::vector<int>> e;
  for (int i = 0; i < c; i++) {
    int k = fixed_k ? fixed_k : r.chance(.05) ? r.range(1, 40) : r.range(1, std::min(n + 1, 6)); std::vector<int> cl;
    for (int j = 0; j < k; j++) { int v = r.chance(0.1) ? n : r.chance(0.1) ? 1 : r.range(1, n); cl.push_back(r.bit() ? v : -v); }
    e.push_back(cl);
  }
  return e;
}
inline std::string cnf_text(mon::Rng& r, int n, const std::vector<std::vector<int>>& e, bool style = true) {
  std::ostringstream o;
  if (style && r.bit()) o << "c a comment p cnf 3 3\n";
  o << "p cnf " << n << " " << e.size() << "\n";
  for (auto& cl : e) {
    if (style && r.chance(0.1)) o << "c comment inside\n";
    if (style && r.chance(0.05)) o << "\n";
    for (size_t j = 0; j < cl.size(); j++) o << cl[j] << (style && r.chance(0.2) ? "  " : (style && r.chance(0.1) ? "\t" : " "));
    o << "0\n";
  }
  return o.str();
}
inline bool lit_true(int l, const BV& x) { return l > 0 ? x[l - 1] == 1 : x[-l - 1] == 0; }

enum Kind { K_ONEMAX, K_LINEAR, K_LO, K_NEEDLE, K_HIFF, K_RIDGE, K_PLATEAU, K_TRAP, K_JUMP, K_DJUMP, K_FOUR, K_SIX, K_LABS, K_LABSMF,
  K_CANCEL, K_SINCANCEL, K_LONGPATH, K_EQPROD, K_PARTITION, K_FACTOR, K_NK, K_QUBO, K_MAXSAT, K_MAXSATR, K_NAE, K_ISING1, K_ISING2, K_W1, K_W2, K_WALSH, K_W2LR, K_W2LRP, K_COUNT };

inline Inst make(Ctx& c, int kind, int maxn = 100000) {
  mon::Rng& r = c.rng; Inst I;
  int n = std::min(pick_size(r), maxn);
  auto hint = [&](const BV& x) { I.hints.push_back(x); };
  auto std_hints = [&](int m) { for (int j = 0; j <= m && j < 40; j++) { int t = m <= 40 ? j : r.range(0, m); hint(pre(m, t)); hint(suf(m, t)); BV z = pre(m, t); for (auto& b : z) b = !b; if (r.chance(.3)) hint(z); } hint(pre(m, m)); hint(pre(m, 0)); hint(pre(m, m - 1)); };
  switch (kind) {
  case K_ONEMAX: { I.name = fmt("OneMax(%d)", n); I.f = std::make_shared<OneMax>(n); I.ref = [](const BV& x) { return double(wt(x)); }; I.known_max = true; I.max = n; I.incremental = true; std_hints(n); break; }
  case K_LINEAR: { auto f = std::make_shared<LinearFunction>(); WeightGen g(r); std::vector<double> w; auto* gp = &g;
    f->generate(n, [gp]() { return (*gp)(); }); w = g.rec; I.f = f; I.name = fmt("Linear(%d,kind %d: %s)", n, g.kind, mon::show(w, 12).c_str());
    double s = 0, m = 0; for (double v : w) { s += std::fabs(v); if (v > 0) m += v; } I.tol = g.kind == 0 || g.kind == 5 ? 1e-12 * (s + 1) : 0;
    I.ref = [w](const BV& x) { double t = 0; for (size_t i = 0; i < w.size(); i++) if (x[i]) t += w[i]; return t; }; I.known_max = true; I.max = m; I.incremental = true;
    { BV b(n); for (int i = 0; i < n; i++) b[i] = w[i] > 0; hint(b); } break; }
  case K_LO: { I.name = fmt("LeadingOnes(%d)", n); I.f = std::make_shared<LeadingOnes>(n); I.ref = [](const BV& x) { int k = 0; while (k < int(x.size()) && x[k]) k++; return double(k); }; I.known_max = true; I.max = n; std_hints(n);
    for (int j = 0; j < 20; j++) { BV x = rbv(r, n, 0.9); hint(x); } break; }
  case K_NEEDLE: { I.name = fmt("Needle(%d)", n); I.f = std::make_shared<Needle>(n); I.ref = [](const BV& x) { return wt(x) == int(x.size()) ? 1.0 : 0.0; }; I.known_max = true; I.max = 1; std_hints(n); for (int j = 0; j < n && j < 64; j++) { BV x = pre(n, n); x[n - 1 - j] = 0; hint(x); } break; }
  case K_HIFF: { int d = r.chance(.1) ? r.range(9, 11) : r.range(0, 8); while ((1 << d) > maxn) d--; n = 1 << d; I.name = fmt("Hiff(%d)", n); I.f = std::make_shared<Hiff>(n);
    I.ref = [](const BV& x) { // Watson: every block of the hierarchy whose bits all agree contributes its size
      std::function<double(int, int)> rec = [&](int a, int b) -> double { int w = 0; for (int i = a; i < b; i++) w += x[i]; double v = (w == 0 || w == b - a) ? b - a : 0; if (b - a > 1) { int m = (a + b) / 2; v += rec(a, m) + rec(m, b); } return v; }; return rec(0, x.size()); };
    I.known_max = true; I.max = (d + 1.0) * n; std_hints(n);
    for (int j = 0; j < 30; j++) { BV x(n); int bs = 1 << r.range(0, d); for (int i = 0; i < n; i += bs) { bool b = r.bit(); for (int k = i; k < i + bs; k++) x[k] = b; } if (r.bit()) x[r.below(n)] ^= 1; hint(x); } break; }
  case K_RIDGE: { I.name = fmt("Ridge(%d)", n); I.f = std::make_shared<Ridge>(n); I.ref = [](const BV& x) { int n = x.size(), k = 0; while (k < n && x[k]) k++; return k == wt(x) ? double(n + k) : double(n - wt(x)); }; I.known_max = true; I.max = 2 * n; std_hints(n); for (int j = 0; j < 20; j++) { BV x = pre(n, r.range(0, n)); x[r.below(n)] ^= 1; hint(x); } break; }
  case K_PLATEAU: { I.name = fmt("Plateau(%d)", n); I.f = std::make_shared<Plateau>(n); I.ref = [](const BV& x) { int n = x.size(), k = 0; while (k < n && x[k]) k++; return k == n ? double(n + 2) : k == wt(x) ? double(n + 1) : double(n - wt(x)); }; I.known_max = true; I.max = n + 2; std_hints(n); for (int j = 0; j < 20; j++) { BV x = pre(n, r.range(0, n)); x[r.below(n)] ^= 1; hint(x); } break; }
  case K_TRAP: { int t = r.range(1, 8), s = r.chance(.2) ? r.range(9, 70) : r.range(1, 8); if (t * s > maxn) t = 1, s = std::min(s, maxn); n = t * s; I.name = fmt("Trap(%d,%d)", n, t); I.f = std::make_shared<Trap>(n, t);
    I.ref = [t, s](const BV& x) { double v = 0; for (int b = 0; b < t; b++) { int w = 0; for (int j = 0; j < s; j++) w += x[b * s + j]; v += w == s ? s : s - 1 - w; } return v; }; I.known_max = true; I.max = n; std_hints(n);
    for (int j = 0; j < 30; j++) { BV x; for (int b = 0; b < t; b++) { BV y = r.chance(.5) ? pre(s, s) : rbv(r, s, r.bit() ? .2 : .8); x.insert(x.end(), y.begin(), y.end()); } hint(x); } break; }
  case K_JUMP: { int g = r.range(1, n + 1); I.name = fmt("Jump(%d,%d)", n, g); I.f = std::make_shared<Jump>(n, g); I.ref = [g](const BV& x) { int n = x.size(), w = wt(x); return w == n || w <= n - g ? double(w) : 0.0; }; I.known_max = true; I.max = n; std_hints(n); for (int d = -2; d <= 2; d++) { int w = n - g + d; if (w >= 0 && w <= n) { BV x = pre(n, w); r.shuffle(x); hint(x); } } break; }
  case K_DJUMP: { int g = r.range(1, n); I.name = fmt("DeceptiveJump(%d,%d)", n, g); I.f = std::make_shared<DeceptiveJump>(n, g); I.ref = [g](const BV& x) { int n = x.size(), w = wt(x); return n - g < w && w < n ? double(n - w) : double(g + w); }; I.known_max = true; I.max = n + g; std_hints(n); for (int d = -2; d <= 2; d++) { int w = n - g + d; if (w >= 0 && w <= n) { BV x = pre(n, w); r.shuffle(x); hint(x); } } break; }
  case K_FOUR: case K_SIX: { n = std::max(n, 2); int t = r.range(0, n / 2 - 1); bool six = kind == K_SIX; I.name = fmt("%s(%d,%d)", six ? "SixPeaks" : "FourPeaks", n, t);
    if (six) I.f = std::make_shared<SixPeaks>(n, t); else I.f = std::make_shared<FourPeaks>(n, t);
    I.ref = [t, six](const BV& x) { int n = x.size(); auto head = [&](int b) { int k = 0; while (k < n && x[k] == b) k++; return k; }; auto tail = [&](int b) { int k = 0; while (k < n && x[n - 1 - k] == b) k++; return k; };
      int h1 = head(1), t0 = tail(0), h0 = head(0), t1 = tail(1); int v = std::max(h1, t0); bool rew = h1 > t && t0 > t; if (six) { v = std::max({v, h0, t1}); rew = rew || (h0 > t && t1 > t); } return double(v + (rew ? n : 0)); };
    I.known_max = true; I.max = 2 * n - t - 1; std_hints(n);
    for (int j = 0; j < 40; j++) { int a = std::min(n, std::max(0, t + r.range(-1, 2))), b = std::min(n - a, std::max(0, t + r.range(-1, 2))); BV x = rbv(r, n); for (int i = 0; i < a; i++) x[i] = 1; for (int i = 0; i < b; i++) x[n - 1 - i] = 0; if (r.bit()) for (int i = a; i < n - b; i++) x[i] = r.bit(); hint(x); if (six) { for (auto& v : x) v = !v; hint(x); } } break; }
  case K_LABS: case K_LABSMF: { bool mf = kind == K_LABSMF; n = std::max(n, 2); auto f = std::make_shared<Labs>(n); if (mf || r.bit()) f->set_merit_factor_flag(mf); I.f = f; I.name = fmt("Labs(%d,mf=%d)", n, mf);
    I.ref = [mf](const BV& x) { int n = x.size(); double E = 0; for (int k = 1; k < n; k++) { long C = 0; for (int i = 0; i + k < n; i++) C += x[i] == x[i + k] ? 1 : -1; E += double(C) * C; } return mf ? double(n) * n / (2 * E) : -E; }; I.tol = mf ? 1e-9 * n : 0; std_hints(n); break; }
  case K_CANCEL: case K_SINCANCEL: { int m = r.chance(.1) ? r.range(13, 60) : r.range(1, 12); while (m > 1 && 9 * m > maxn) m--; n = 9 * m; bool s = kind == K_SINCANCEL; I.name = fmt("%sCancellation(%d)", s ? "Sinus" : "", n);
    if (s) I.f = std::make_shared<SinusSummationCancellation>(n); else I.f = std::make_shared<SummationCancellation>(n);
    I.ref = [s](const BV& x) { int m = x.size() / 9; double tot = 0, prev = 0; for (int i = 0; i < m; i++) { int v = 0; for (int j = 0; j < 8; j++) v += x[9 * i + 1 + j] << j; if (x[9 * i]) v -= 256; double u = v / 100.0; prev = i == 0 ? u : s ? u + std::sin(prev) : u + prev; tot += std::fabs(prev); } return -tot; };
    I.tol = 1e-9; I.known_max = true; I.max = 0; std_hints(n); break; }
  case K_LONGPATH: { int k = r.chance(.2) ? r.range(6, 20) : r.range(2, 5); int m = r.range(1, r.bit() ? 3 : r.chance(.3) ? 40 : 12); while (m > 1 && k * m > maxn) m--; n = k * m; I.name = fmt("LongPath(%d,%d)", n, k); I.f = std::make_shared<LongPath>(n, k);
    I.ref = [k](const BV& x) { double i = lp_index(x, k); if (i >= 0) return i + 1; double a = 0, b = 0; for (size_t j = 0; j < x.size(); j++) (int(j) < k ? a : b) += x[j]; return -(double(x.size()) * a + b); };
    I.known_max = true; I.max = lp_len(n, k); double L = lp_len(n, k); for (int j = 0; j < 40; j++) { double t = j == 0 ? 0 : j == 1 ? L - 1 : std::floor(r.real() * L); BV x = lp_point(n, k, t); hint(x); x[r.below(n)] ^= 1; hint(x); } break; }
  case K_EQPROD: { auto f = std::make_shared<EqualProducts>(); std::vector<double> w; bool integer = r.bit(); n = std::min(n, integer ? 20 : n); auto* wp = &w; auto* rp = &r; f->generate(n, [=]() { double v = integer ? double(rp->range(1, 6)) : rp->real(0, 1.8); wp->push_back(v); return v; }); I.f = f; I.name = fmt("EqualProducts(%d:%s)", n, mon::show(w, 8).c_str());
    I.ref = [w](const BV& x) { long double a = 1, b = 1; for (size_t i = 0; i < w.size(); i++) (x[i] ? a : b) *= w[i]; return double(-fabsl(a - b)); }; I.tol = integer ? 0 : -1; break; }
  case K_PARTITION: { auto f = std::make_shared<Partition>(); std::vector<int> w; int hi = r.pick(std::vector<int>{1, 9, 100, 1000000, 2147483647}); auto* wp = &w; auto* rp = &r; f->generate(n, [=]() { int v = rp->range(1, hi); wp->push_back(v); return v; }); I.f = f; I.name = fmt("Partition(%d:%s)", n, mon::show(w, 8).c_str());
    I.ref = [w](const BV& x) { long long d = 0; for (size_t i = 0; i < w.size(); i++) d += x[i] ? w[i] : -(long long)w[i]; return -double(d < 0 ? -d : d); }; hint(pre(n, n)); hint(pre(n, 0)); break; }
  case K_FACTOR: { mpz_class N; int bits = r.range(2, maxn < 40 ? std::max(2, maxn / 2) : maxn > 1000 && r.chance(.25) ? 300 : 60); N = 1; for (int i = 1; i < bits; i++) N = 2 * N + int(r.bit()); I.f = std::make_shared<Factorization>(N.get_str()); n = I.f->get_bv_size(); I.name = "Factorization(" + N.get_str() + ")";
    int fs = (bits + 1) / 2, ss = bits - 1; if (n != fs + ss) c.fail("factorization-size", fmt("bit vector size is %d, expected %d for a %d-bit number", n, fs + ss, bits));
    I.ref = [N, fs, ss, bits](const BV& x) { mpz_class a = 0, b = 0; for (int i = 0; i < fs; i++) a = 2 * a + int(x[i]); for (int i = 0; i < ss; i++) b = 2 * b + int(x[fs + i]); mpz_class p = a * b; double v = 0; for (int i = 0; i < fs + ss + 2; i++) if (mpz_tstbit(p.get_mpz_t(), i) != mpz_tstbit(N.get_mpz_t(), i)) v += i + 1; return -v; };
    for (int j = 0; j < 10; j++) { mpz_class a = 1 + r.below(uint64_t(1) << std::min(fs, 20)); if (mpz_class(N % a) == 0) { mpz_class b = N / a; BV x(n, 0); for (int i = 0; i < fs; i++) x[fs - 1 - i] = mpz_tstbit(a.get_mpz_t(), i); for (int i = 0; i < ss; i++) x[fs + ss - 1 - i] = mpz_tstbit(b.get_mpz_t(), i); hint(x); } }
    std_hints(n); break; }
  case K_NK: { n = std::max(2, std::min(n, r.chance(.2) ? 300 : 70)); int k = r.range(1, std::min(n - 1, n <= 20 && r.chance(.2) ? 11 : 6)); auto f = std::make_shared<NkLandscape>(); WeightGen g(r); auto* gp = &g; if (r.bit()) f->generate(std::max(2, n / 2), 1, [gp]() { return gp->draw(); }); f->generate(n, k, [gp]() { return (*gp)(); }); I.f = f; I.name = fmt("NK(%d,%d)", n, k);
    std::ostringstream o; f->display(o); std::istringstream in(o.str()); std::string line; std::vector<std::vector<int>> nb; while (std::getline(in, line)) { auto p = line.find("->"); if (p == std::string::npos) continue; std::istringstream ls(line.substr(p + 2)); std::vector<int> v; int q; while (ls >> q) v.push_back(q); nb.push_back(v); }
    if (int(nb.size()) != n) c.fail("nk-structure", fmt("display lists %d sites, expected %d", int(nb.size()), n));
    for (int i = 0; i < n; i++) { std::set<int> s(nb[i].begin(), nb[i].end()); if (int(s.size()) != k + 1 || int(nb[i].size()) != k + 1 || !s.count(i) || *s.begin() < 0 || *s.rbegin() >= n) c.fail("nk-structure", fmt("site %d of NK(%d,%d) has neighbors {%s}", i, n, k, mon::show(nb[i]).c_str())); }
    auto w = g.rec; if (w.size() != size_t(n) << (k + 1)) c.fail("nk-structure", "wrong number of partial function values"); double s = 1; for (double v : w) s = std::max(s, std::fabs(v)); I.tol = 1e-10 * s;
    I.ref = [=](const BV& x) { double t = 0; for (int i = 0; i < n; i++) { int idx = 0; for (int j = 0; j <= k; j++) idx += int(x[nb[i][j]]) << j; t += w[(size_t(i) << (k + 1)) + idx]; } return t / n; }; break; }
  case K_QUBO: { n = std::min(n, r.chance(.15) ? 200 : 60); std::vector<std::vector<double>> q(n, std::vector<double>(n, 0.0)); std::vector<std::string> lines; int nd = 0, no = 0;
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (r.chance(i == j ? .7 : .3)) { int num = r.range(1, 4000) * (r.bit() ? 1 : -1); double v = r.bit() ? num : num / 8.0; q[i][j] = v; (i == j ? nd : no)++; std::ostringstream o; o << i << (r.chance(.1) ? "\t" : " ") << j << " " << v; lines.push_back(o.str()); }
    r.shuffle(lines); std::ostringstream o; if (r.bit()) o << "c comment\n"; o << "p qubo 0 " << n << " " << nd << " " << no << "\n"; for (auto& l : lines) { if (r.chance(.05)) o << "c x\n"; o << l << "\n"; }
    std::string p = mon::tmpfile("qubo"); mon::spit(p, o.str()); auto f = std::make_shared<Qubo>(); f->load(p); unlink(p.c_str()); I.f = f; I.name = fmt("Qubo(%d, %d+%d elements)", n, nd, no);
    I.ref = [q, n](const BV& x) { double t = 0; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (x[i] && x[j]) t -= q[i][j]; return t; }; break; }
  case K_MAXSAT: case K_NAE: { n = std::min(n, r.chance(.2) ? 2000 : 80); bool nae = kind == K_NAE; auto e = rand_cnf(r, n, r.chance(.1) ? r.range(60, 400) : r.range(1, 60), nae ? 3 : 0); std::string p = mon::tmpfile("cnf"); mon::spit(p, cnf_text(r, n, e));
    if (nae) { auto f = std::make_shared<MaxNae3Sat>(); f->load(p); I.f = f; } else { auto f = std::make_shared<MaxSat>(); f->load(p); I.f = f; } unlink(p.c_str()); I.name = fmt("%s(%d variables, %d clauses)", nae ? "MaxNae3Sat" : "MaxSat", n, int(e.size()));
    I.ref = [e, nae](const BV& x) { double t = 0; for (auto& cl : e) { int k = 0; for (int l : cl) k += lit_true(l, x); if (nae ? (k != 0 && k != 3) : k > 0) t++; } return t; }; hint(pre(n, n)); hint(pre(n, 0)); break; }
  case K_MAXSATR: { n = std::min(n, r.chance(.2) ? 500 : 60); int k = r.range(1, std::min(n, r.chance(.1) ? 12 : 5)), cl = r.chance(.1) ? r.range(40, 300) : r.range(1, 40); auto f = std::make_shared<MaxSat>(); BV sol = rbv(r, n); bool sat = r.bit(); if (sat) f->random(sol, k, cl); else f->random(n, k, cl); I.f = f; I.name = fmt("MaxSat::random(%d,%d,%d,sat=%d)", n, k, cl, sat);
    std::string p = mon::tmpfile("cnfr"); f->save(p); std::istringstream in(mon::slurp(p)); unlink(p.c_str()); std::string line; std::vector<std::vector<int>> e; int pn = -1, pc = -1; while (std::getline(in, line)) { if (line.empty() || line[0] == 'c') continue; std::istringstream ls(line); if (line[0] == 'p') { std::string a, b; ls >> a >> b >> pn >> pc; continue; } std::vector<int> v; int q; while (ls >> q && q) v.push_back(q); e.push_back(v); }
    if (pn != n || pc != cl || int(e.size()) != cl) c.fail("maxsat-random", fmt("saved instance has %d variables, %d (declared %d) clauses; expected %d, %d", pn, int(e.size()), pc, n, cl));
    for (auto& v : e) { std::set<int> s; for (int l : v) s.insert(std::abs(l)); if (int(v.size()) != k || int(s.size()) != k || *s.begin() < 1 || *s.rbegin() > n) c.fail("maxsat-random", fmt("clause %s is not made of %d distinct variables of 1..%d", mon::show(v).c_str(), k, n)); }
    I.ref = [e](const BV& x) { double t = 0; for (auto& cl : e) { int k = 0; for (int l : cl) k += lit_true(l, x); t += k > 0; } return t; }; if (sat) { hint(sol); if (I.ref(sol) != cl) c.fail("maxsat-planted", "the planted solution does not satisfy all clauses"); } break; }
  case K_ISING1: { bool per = r.bit(); auto f = std::make_shared<NearestNeighborIsingModel1>(); WeightGen a(r), b(r); auto *ap = &a, *bp = &b; if (r.chance(.3)) f->generate(r.range(1, 30), [ap]() { return ap->draw(); }, [bp]() { return bp->draw(); }); f->generate(n, [ap]() { return (*ap)(); }, [bp]() { return (*bp)(); }); if (per || r.bit()) f->set_periodic_boundary_conditions(per); I.f = f; I.incremental = true; I.name = fmt("Ising1(%d,periodic=%d)", n, per);
    auto J = a.rec, h = b.rec; double s = 1; for (double v : J) s += std::fabs(v); for (double v : h) s += std::fabs(v); I.tol = 1e-11 * s;
    I.ref = [=](const BV& x) { double t = 0; auto sg = [&](int i) { return 1 - 2 * int(x[i]); }; for (int i = 0; i < n; i++) { if (i + 1 < n || per) t += J[i] * sg(i) * sg((i + 1) % n); t += h[i] * sg(i); } return t; }; hint(pre(n, n)); break; }
  case K_ISING2: { bool lg = r.chance(.15); int R = r.range(1, lg ? 30 : 7), C = r.range(1, lg ? 30 : 7); while (R * C > maxn && R > 1) R--; while (R * C > maxn && C > 1) C--; n = R * C; bool per = r.bit(); auto f = std::make_shared<NearestNeighborIsingModel2>(); 
    WeightGen h(r); int jk = r.below(2); std::vector<double> jr; auto* hp = &h; auto* jp = &jr; auto* rp = &r; if (r.chance(.3)) f->generate(r.range(1, 5), r.range(1, 5), [rp]() { return rp->gauss(); }, [hp]() { return hp->draw(); });
    f->generate(R, C, [=]() { double v = jk ? rp->gauss() : double(rp->range(-9, 9)); jp->push_back(v); return v; }, [hp]() { return (*hp)(); }); if (per || r.bit()) f->set_periodic_boundary_conditions(per); I.f = f; I.incremental = true; I.name = fmt("Ising2(%dx%d,periodic=%d)", R, C, per);
    auto H = h.rec; if (jr.size() != 2u * n || H.size() != size_t(n)) c.fail("ising2-generate", "unexpected number of generated parameters"); double s = 1; for (double v : jr) s += std::fabs(v); for (double v : H) s += std::fabs(v); I.tol = 1e-11 * s;
    I.ref = [=](const BV& x) { double t = 0; auto sg = [&](int i, int j) { return 1 - 2 * int(x[(i % R) * C + (j % C)]); }; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { int k = i * C + j; if (j + 1 < C || per) t += jr[2 * k] * sg(i, j) * sg(i, j + 1); if (i + 1 < R || per) t += jr[2 * k + 1] * sg(i, j) * sg(i + 1, j); t += H[k] * sg(i, j); } return t; }; break; }
  case K_W1: { auto f = std::make_shared<WalshExpansion1>(); WeightGen g(r); auto* gp = &g; f->generate(n, [gp]() { return (*gp)(); }); I.f = f; auto w = g.rec; double s = 0; for (double v : w) s += std::fabs(v); I.tol = 1e-12 * (s + 1); I.name = fmt("WalshExpansion1(%d)", n); I.ref = [w](const BV& x) { double t = 0; for (size_t i = 0; i < w.size(); i++) t += w[i] * (1 - 2 * int(x[i])); return t; }; I.known_max = true; I.max = s; I.incremental = true; { BV b(n); for (int i = 0; i < n; i++) b[i] = w[i] < 0; hint(b); } break; }
  case K_W2: { n = std::min(n, r.chance(.15) ? 260 : 70); auto f = std::make_shared<WalshExpansion2>(); WeightGen a(r), b(r); auto *ap = &a, *bp = &b; if (r.chance(.3)) f->generate(r.range(1, 30), [ap]() { return ap->draw(); }, [bp]() { return bp->draw(); }); f->generate(n, [ap]() { return (*ap)(); }, [bp]() { return (*bp)(); }); I.f = f; I.name = fmt("WalshExpansion2(%d)", n); auto L = a.rec, Q = b.rec; if (int(L.size()) != n || int(Q.size()) != n * (n - 1) / 2) c.fail("walsh2-generate", "unexpected number of generated parameters"); double s = 1; for (double v : L) s += std::fabs(v); for (double v : Q) s += std::fabs(v); I.tol = 1e-11 * s;
    I.ref = [=](const BV& x) { double t = 0; size_t k = 0; auto sg = [&](int i) { return 1 - 2 * int(x[i]); }; for (int i = 0; i < n; i++) t += L[i] * sg(i); for (int i = 1; i < n; i++) for (int j = 0; j < i; j++) t += Q[k++] * sg(i) * sg(j); return t; }; break; }
  case K_WALSH: { auto f = std::make_shared<WalshExpansion>(); WeightGen g(r); std::vector<WalshTerm> ts; int m = r.chance(.1) ? r.range(40, 300) : r.range(1, 40); double s = 1; for (int k = 0; k < m; k++) { std::vector<bool> u(n); for (int i = 0; i < n; i++) u[i] = r.chance(k % 3 ? .5 : .1); double v = g.draw(); s += std::fabs(v); ts.push_back({u, v}); } f->set_terms(ts); I.f = f; I.tol = 1e-11 * s; I.name = fmt("WalshExpansion(%d,%d terms)", n, m);
    I.ref = [ts](const BV& x) { double t = 0; for (auto& a : ts) { int d = 0; for (size_t i = 0; i < x.size(); i++) d += x[i] && a.feature[i]; t += d % 2 ? -a.coefficient : a.coefficient; } return t; }; break; }
  case K_W2LR: case K_W2LRP: { n = std::min(n, 60); bool per = kind == K_W2LRP; double al = r.real(0.1, 4); auto f = std::make_shared<WalshExpansion2>(); if (r.bit()) f->random(r.range(1, n)); if (per) f->generate_ising1_long_range_periodic(n, al); else f->generate_ising1_long_range(n, al); I.f = f; I.tol = 1e-9 * n * n; I.name = fmt("Ising1LongRange(%d,alpha=%g,periodic=%d)", n, al, per);
    I.ref = [=](const BV& x) { double t = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { int d = j - i; if (per) d = std::min(d, n - d); t += std::pow(double(d), -al) * (x[i] == x[j] ? 1 : -1); } return t; }; hint(pre(n, n)); break; }
  }
  if (I.f->get_bv_size() <= 0) c.fail("bv-size", I.name + ": bit vector size is not positive");
  return I;
}

inline bool close(const Inst& I, double got, double want) {
  if (I.tol == 0) return got == want;
  if (I.tol < 0) return mon::near(got, want, 1e-9, 1e-9);
  return mon::near(got, want, 1e-12, I.tol);
}

// Points to evaluate: hints, random vectors of varied density, neighbors.
inline std::vector<BV> points(Ctx& c, const Inst& I, int count) {
  int n = I.f->get_bv_size(); std::vector<BV> ps = I.hints; mon::Rng& r = c.rng;
  if (int(ps.size()) > count) { r.shuffle(ps); ps.resize(count); }
  static const double dens[] = {.5, .5, .1, .9, .02, .98, .3};
  for (int i = 0; i < count; i++) ps.push_back(rbv(r, n, dens[r.below(7)]));
  return ps;
}

} // namespace fl
#endif
