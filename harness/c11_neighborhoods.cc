// C11: neighborhoods, mutations and iterators stay within their definition and follow their laws.
#include "mon.hh"
#include "hnco/neighborhoods/neighborhood.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"
#include "hnco/iterator.hh"
#include "hnco/random.hh"
#include <map>
#include <memory>
#include <set>
using namespace hnco; using namespace hnco::neighborhood; using mon::fmt; using hnco::random::Generator;
typedef bit_vector_t BV;
static BV rv(mon::Rng& r, int n) { BV x(n); int mode = r.below(4); for (auto& b : x) b = mode == 0 ? r.chance(.1) : mode == 1 ? r.chance(.9) : r.bit(); return x; }
static int hd(const BV& a, const BV& b) { int k = 0; for (size_t i = 0; i < a.size(); i++) k += a[i] != b[i]; return k; }
struct Nb { std::unique_ptr<Neighborhood> p; StandardBitMutation *sbm = nullptr; HammingSphere *sph = nullptr; int kind, n, lo, hi; double rate = 0; bool null = false; std::string name; };
static Nb make(mon::Rng& r, int kind, int n) { Nb b; b.kind = kind; b.n = n; switch (kind) {
  case 0: b.p.reset(new SingleBitFlip(n)); b.lo = b.hi = 1; b.name = fmt("SingleBitFlip(%d)", n); break;
  case 1: { int how = r.below(3); bool twice = r.chance(.3); b.rate = 1. / n; if (how == 0) b.p.reset(b.sbm = new StandardBitMutation(n)); else { double rates[] = {1. / n, .5, 1, 2. / n, r.real() * .9 + .05, std::min(1., 1 / sqrt(n)), std::min(1., .9 / sqrt(n))}; b.rate = std::min(1., rates[r.below(7)]); if (how == 1) b.p.reset(b.sbm = new StandardBitMutation(n, b.rate)); else { b.p.reset(b.sbm = new StandardBitMutation(n)); if (twice) for (int q = r.range(1, 3); q > 0; q--) b.sbm->set_mutation_rate(r.pick(std::vector<double>{.01, .5 / n, .9, .3, 1})); b.sbm->set_mutation_rate(b.rate); } } b.null = r.bit(); if (b.null || r.bit()) b.sbm->set_allow_no_mutation(b.null); b.lo = b.null ? 0 : 1; b.hi = n; b.name = fmt("StandardBitMutation(%d,%g%s%s)", n, b.rate, b.null ? ",null" : "", how == 2 ? ",set" : ""); break; }
  case 2: { int R = r.range(1, n); b.p.reset(new HammingBall(n, R)); b.lo = 1; b.hi = R; b.name = fmt("HammingBall(%d,%d)", n, R); break; }
  default: { int R = r.range(1, n), q = R; b.p.reset(b.sph = new HammingSphere(n, R)); if (r.chance(.4)) b.sph->set_radius(R = r.range(1, n)); b.lo = b.hi = R; b.name = fmt("HammingSphere(%d,%d%s)", n, R, q != R ? ",set" : ""); } } return b; }
// histories of set_origin/propose/keep/forget/mutate/map
CASES(histories, 12000, 60000) {
  auto& r = c.rng; Generator::set_seed(r.below(1u << 30)); int n = r.chance(.1) ? r.range(1, r.chance(.1) ? 2000 : 300) : r.range(1, 20); Nb b = make(r, c.idx % 4, n); std::string log = b.name; Neighborhood& N = *b.p; BV o = rv(r, n); N.set_origin(o); bool prop = false; BV cand = o; std::string k = b.name.substr(0, b.name.find('('));
  auto flips = [&](const BV& from, const BV& to, const char *what) { int d = hd(from, to); MON_CHECK(c, d >= b.lo && d <= b.hi, std::string("distance:") + k, "%s: %s at distance %d of its origin, documented range %d..%d", b.name.c_str(), what, d, b.lo, b.hi); auto& f = N.get_flipped_bits(); std::set<int> s(f.begin(), f.end()); MON_CHECK(c, s.size() == f.size(), "flipped-bits:" + k, "%s: repeated flipped bits", b.name.c_str()); for (int i = 0; i < n; i++) MON_CHECK(c, (from[i] != to[i]) == (s.count(i) > 0), "flipped-bits:" + k, "%s: get_flipped_bits() disagrees with the difference at bit %d", b.name.c_str(), i); c.count(fmt("distance %d", std::min(d, 9))); };
  for (int t = 0; t < 40; t++) { int a = r.below(8);
    if (prop && a < 3) { log += " keep"; c.desc(log); N.keep(); o = cand; prop = false; }
    else if (prop) { log += " forget"; c.desc(log); N.forget(); cand = o; prop = false; }
    else if (a < 5) { log += " propose"; c.desc(log); N.propose(); prop = true; cand = N.get_candidate(); MON_CHECK(c, int(cand.size()) == n, "size:" + k, "candidate has %zu bits", cand.size()); MON_CHECK(c, N.get_origin() == o, "origin:" + k, "%s: proposing changed the origin", b.name.c_str()); flips(o, cand, "candidate"); }
    else if (a == 5) { log += " mutate"; c.desc(log); BV x = rv(r, n), y = x; N.mutate(y); flips(x, y, "mutant"); }
    else if (a == 6) { log += " map"; c.desc(log); BV x = rv(r, n), x0 = x, y = rv(r, n); N.map(x, y); MON_CHECK(c, x == x0, "map-input:" + k, "map changed its input"); flips(x, y, "image"); }
    else { log += " set_origin"; o = rv(r, n); cand = o; N.set_origin(o); if (b.sph && r.bit()) { b.lo = b.hi = r.range(1, n); b.sph->set_radius(b.lo); } if (b.sbm && r.chance(.3)) { bool z = r.bit(); b.sbm->set_allow_no_mutation(z); b.lo = z ? 0 : 1; if (r.bit()) b.sbm->set_mutation_rate(r.real() * .95 + .05); } }
    MON_CHECK(c, N.get_origin() == o && N.get_candidate() == cand, "state:" + k, "%s: origin or candidate wrong", log.c_str()); if (!prop) MON_CHECK(c, N.get_origin() == N.get_candidate(), "state:" + k, "%s: origin and candidate differ after keep, forget or set_origin", log.c_str()); }
  c.count(k); c.cover(log);
}
// Laws: probability of every subset of flipped bits (small n), law of the distance and of each position (larger n)
static double binom(int n, int k) { return exp(lgamma(n + 1.) - lgamma(k + 1.) - lgamma(n - k + 1.)); }
static double wlaw(const Nb& b, int k) { switch (b.kind) { case 0: return k == 1; case 1: { double q = b.rate >= 1 ? (k == b.n) : binom(b.n, k) * pow(b.rate, k) * pow(1 - b.rate, b.n - k); if (b.null) return q; double z = pow(1 - b.rate, b.n); return k == 0 ? 0 : q / (1 - z); } case 2: return k >= 1 && k <= b.hi ? 1. / b.hi : 0; default: return k == b.lo; } }
CASES(laws, 192, 600) {
  auto& r = c.rng; Generator::set_seed(r.below(1u << 30)); bool small = c.idx % 8 < 4; int n = small ? r.range(1, 4) : r.bit() ? r.range(5, 12) : r.range(13, 40); Nb b = make(r, c.idx % 4, n); std::string k = b.name.substr(0, b.name.find('(')); int via = r.below(3); c.desc("law of " + b.name + fmt(" via %d", via)); const int N = 40000; std::vector<long> w(n + 1, 0), pos(n, 0); std::vector<long> sub(small ? 1 << n : 1, 0); long pairs = 0, again = 0; BV prev(n, 0); BV o = rv(r, n); b.p->set_origin(o); double ew = 0; for (int i = 0; i <= n; i++) ew += i * wlaw(b, i);
  for (int t = 0; t < N; t++) { BV y = o; if (via == 0) { b.p->propose(); y = b.p->get_candidate(); b.p->forget(); } else if (via == 1) b.p->mutate(y); else b.p->map(o, y); int d = 0, m = 0; for (int i = 0; i < n; i++) if (o[i] != y[i]) { d++; pos[i]++; if (small) m |= 1 << i; } w[d]++; int qi = t / 2 % n; if (t % 2) again += prev[qi] && o[qi] != y[qi]; else for (int i = 0; i < n; i++) prev[i] = o[i] != y[i]; if (small) sub[m]++; else if (o[0] != y[0] && o[n - 1] != y[n - 1]) pairs++; }
  for (int i = 0; i <= n; i++) MON_CHECK(c, mon::plausible_binomial(N, wlaw(b, i), w[i]), "law-distance:" + k, "%s: distance %d seen %ld times in %d, expected probability %g", b.name.c_str(), i, w[i], N, wlaw(b, i));
  for (int i = 0; i < n; i++) MON_CHECK(c, mon::plausible_binomial(N, std::min(1., ew / n), pos[i]), "law-position:" + k, "%s: bit %d flipped %ld times in %d, expected probability %g", b.name.c_str(), i, pos[i], N, ew / n);
  { double p = std::min(1., ew / n); MON_CHECK(c, mon::plausible_binomial(N / 2, p * p, again), "law-successive:" + k, "%s: the same bit flipped twice in a row %ld times in %d, expected probability %g", b.name.c_str(), again, N / 2, p * p); }
  if (small) for (int m = 0; m < (1 << n); m++) { int d = __builtin_popcount(m); double p = wlaw(b, d) / binom(n, d); MON_CHECK(c, mon::plausible_binomial(N, p, sub[m]), "law-subset:" + k, "%s: subset %x flipped %ld times in %d, expected probability %g", b.name.c_str(), m, sub[m], N, p); }
  else { double p = 0; for (int i = 2; i <= n; i++) p += wlaw(b, i) * i * (i - 1) / (double(n) * (n - 1)); MON_CHECK(c, mon::plausible_binomial(N, p, pairs), "law-pairs:" + k, "%s: first and last bit flipped together %ld times in %d, expected probability %g", b.name.c_str(), pairs, N, p); }
  c.cover(b.name); c.sample(b.name);
}
// Iterators
static double choose(int n, int k) { return round(binom(n, k)); }
CASES(iterators, 4500, 20000) {
  auto& r = c.rng; int kind = c.idx % 4; int n = kind < 2 ? r.range(0, 10) : kind == 2 ? r.range(1, 40) : r.range(1, 10); int R = kind == 3 ? r.range(1, n) : 1; const char *nm[] = {"HypercubeIterator", "ExtendedHypercubeIterator", "SingleBitFlipIterator", "HammingSphereIterator"}; std::string k = nm[kind]; c.desc(k + fmt("(%d,%d)", n, R));
  std::unique_ptr<Iterator> it; NeighborhoodIterator *ni = nullptr; switch (kind) { case 0: it.reset(new HypercubeIterator(n)); break; case 1: it.reset(new ExtendedHypercubeIterator(n)); break; case 2: it.reset(ni = new SingleBitFlipIterator(n)); break; default: it.reset(ni = new HammingSphereIterator(n, R)); }
  for (int pass = 0; pass < 3; pass++) { BV o(n, 0); if (pass > 0 || r.bit()) it->init(); if (ni) { o = rv(r, n); ni->set_origin(o); } double want = kind == 0 ? (n == 0 ? 0 : pow(2, n)) : kind == 1 ? pow(2, n) : kind == 2 ? n : choose(n, R); std::set<BV> seen; long count = 0; long stop = pass < 2 && r.chance(.4) ? long(want * r.real()) : -1;
    while (count != stop && it->has_next()) { bool again = it->has_next(); MON_CHECK(c, again, "has_next:" + k, "has_next() changes its mind"); BV x = it->next(); count++; MON_CHECK(c, int(x.size()) == n, "size:" + k, "%zu bits", x.size()); for (auto v : x) MON_CHECK(c, v == 0 || v == 1, "valid:" + k, "invalid bit"); MON_CHECK(c, seen.insert(x).second, "twice:" + k, "%s enumerated twice", mon::showbv(x).c_str()); if (ni) MON_CHECK(c, hd(x, o) == R, "distance:" + k, "%s(%d,%d): distance %d", k.c_str(), n, R, hd(x, o)); if (count > want) break; }
    if (count != stop) MON_CHECK(c, count == want, "count:" + k, "%s(%d,%d): %ld points instead of %g", k.c_str(), n, R, count, want); c.count(k, count); }
  c.cover(k + fmt("%d/%d", n, R));
}
int main(int a, char **v) { return mon::main(a, v); }
