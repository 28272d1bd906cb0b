// C07: save and load are inverse of each other; loading replaces previous contents; failed writes are reported.
#include "fnlib.hh"
#include "hnco/functions/collection/sudoku.hh"
#include "hnco/functions/collection/tsp.hh"
#include "hnco/maps/map.hh"
#include <cfloat>
#include <sys/resource.h>
using namespace fl;

static const double EXTREME[] = {DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, 4.9406564584124654e-324, 0.1, 1. / 3, 0.0, -0.0, 1e300, 1e-300, 1 + DBL_EPSILON, 123456789.123456789, -1e-5, 9007199254740993., 3.0000000000000004};

template<class T> static std::string disp(const T& f) { std::ostringstream o; f.display(o); return o.str(); }
// Save f, load it into g (whatever g held), compare their behaviour.
template<class T> static void trip(mon::Ctx& c, T& f, T& g, std::vector<BV> ps, const char *what, bool max_kept = true) {
  std::string p = mon::tmpfile("inst"); if (c.rng.chance(.2)) mon::spit(p, std::string(c.rng.range(1, 5000), '7')); std::string before = disp(f); std::vector<double> vf; for (auto& x : ps) vf.push_back(f.evaluate(x));
  f.save(p); g.load(p); std::string k = what; int n = f.get_bv_size();
  MON_CHECK(c, g.get_bv_size() == n, "size:" + k, "%s: saved with %d bits, loaded with %d", what, n, g.get_bv_size());
  for (size_t i = 0; i < ps.size(); i++) { double a = vf[i], b = g.evaluate(ps[i]); MON_CHECK(c, mon::same_double(a, b) , "value:" + k, "%s: value of %s is %.17g before saving, %.17g after loading", what, mon::showbv(ps[i]).c_str(), a, b); }
  for (size_t i = 0; i < ps.size() && i < 10; i++) MON_CHECK(c, mon::same_double(f.evaluate(ps[i]), vf[i]), "saved-changed:" + k, "%s: saving changed the instance", what);
  MON_CHECK(c, g.provides_incremental_evaluation() == f.provides_incremental_evaluation(), "incremental:" + k, "incremental claim changed");
  if (f.provides_incremental_evaluation()) for (int t = 0; t < 6; t++) { BV x = ps[c.rng.below(ps.size())], y = x; sparse_bit_vector_t s; std::set<int> q; int m = c.rng.range(0, std::min(n, 4)); while (int(q.size()) < m) q.insert(c.rng.below(n)); s.assign(q.begin(), q.end()); for (int i : s) y[i] ^= 1; double v = f.evaluate(x); MON_CHECK(c, mon::same_double(f.evaluate_incrementally(x, v, s), g.evaluate_incrementally(x, v, s)), "incremental:" + k, "%s: incremental values differ after loading", what); }
  if (max_kept) { MON_CHECK(c, g.has_known_maximum() == f.has_known_maximum(), "maximum:" + k, "known maximum changed"); if (f.has_known_maximum()) MON_CHECK(c, mon::same_double(f.get_maximum(), g.get_maximum()), "maximum:" + k, "maximum %.17g, after loading %.17g", f.get_maximum(), g.get_maximum()); }
  MON_CHECK(c, disp(g) == before, "display:" + k, "%s: display differs after loading", what);
  // a second trip gives the same file
  std::string t1 = mon::slurp(p); g.save(p); MON_CHECK(c, mon::slurp(p) == t1, "file:" + k, "%s: saving the loaded instance gives another file", what); unlink(p.c_str()); c.count(k); c.cover(k + before.substr(0, 300) + fmt("%d", n));
}
template<class T, class G> static void both(mon::Ctx& c, T *f, G junk, const std::vector<BV>& ps, const char *what, bool max_kept = true) { T g; if (c.rng.bit()) junk(g); trip(c, *f, g, ps, what, max_kept); }

CASES(functions, 6000, 40000) {
  static const int kinds[] = {K_LINEAR, K_EQPROD, K_PARTITION, K_NK, K_MAXSAT, K_MAXSATR, K_NAE, K_ISING1, K_ISING2, K_W1, K_W2, K_WALSH, K_W2LR, K_W2LRP}; int kind = kinds[c.idx % 14]; Inst I = make(c, kind, 80); c.desc(I.name); auto ps = points(c, I, 12); Function *f = I.f.get(); auto& r = c.rng; int m = r.range(1, 40);
  if (auto p = dynamic_cast<LinearFunction *>(f)) both(c, p, [&](auto& g) { g.random(m); }, ps, "LinearFunction");
  else if (auto p = dynamic_cast<EqualProducts *>(f)) both(c, p, [&](auto& g) { g.random(m); }, ps, "EqualProducts");
  else if (auto p = dynamic_cast<Partition *>(f)) both(c, p, [&](auto& g) { g.random(m, 9); }, ps, "Partition");
  else if (auto p = dynamic_cast<NkLandscape *>(f)) both(c, p, [&](auto& g) { g.random(m + 2, r.range(1, 3) < m + 1 ? 1 : 1); }, ps, "NkLandscape");
  else if (auto p = dynamic_cast<MaxNae3Sat *>(f)) both(c, p, [&](auto& g) { std::string q = mon::tmpfile("junk"); mon::spit(q, cnf_text(r, m, rand_cnf(r, m, 7, 3))); g.load(q); unlink(q.c_str()); }, ps, "MaxNae3Sat", false);
  else if (auto p = dynamic_cast<MaxSat *>(f)) both(c, p, [&](auto& g) { g.random(m, 1, r.range(1, 20)); }, ps, "MaxSat", false);
  else if (auto p = dynamic_cast<NearestNeighborIsingModel1 *>(f)) both(c, p, [&](auto& g) { g.random(m); g.set_periodic_boundary_conditions(r.bit()); }, ps, "Ising1");
  else if (auto p = dynamic_cast<NearestNeighborIsingModel2 *>(f)) both(c, p, [&](auto& g) { g.random(r.range(1, 5), r.range(1, 5)); g.set_periodic_boundary_conditions(r.bit()); }, ps, "Ising2");
  else if (auto p = dynamic_cast<WalshExpansion1 *>(f)) both(c, p, [&](auto& g) { g.random(m); }, ps, "WalshExpansion1");
  else if (auto p = dynamic_cast<WalshExpansion2 *>(f)) both(c, p, [&](auto& g) { g.random(m); }, ps, "WalshExpansion2");
  else if (auto p = dynamic_cast<WalshExpansion *>(f)) both(c, p, [&](auto& g) { g.random(m, r.range(1, 9)); }, ps, "WalshExpansion");
  else c.fail("harness", "unexpected type");
  c.sample(I.name);
}
// Weights at the edges of double precision survive exactly.
CASES(extreme_weights, 800, 6000) {
  auto& r = c.rng; int n = r.range(1, 24); std::vector<double> w; auto gen = [&]() { double v = EXTREME[r.below(16)]; if (r.chance(.3)) { uint64_t b = r.next(); memcpy(&v, &b, 8); if (!std::isfinite(v)) v = 1e-310; } w.push_back(v); return v; }; c.desc(fmt("extreme weights, n=%d", n));
  std::vector<BV> units; units.push_back(BV(n, 0)); for (int i = 0; i < n; i++) { BV e(n, 0); e[i] = 1; units.push_back(e); }
  switch (c.idx % 4) {
  case 0: { LinearFunction f; f.generate(n, gen); LinearFunction g; std::string p = mon::tmpfile("x"); f.save(p); g.load(p); unlink(p.c_str()); for (int i = 0; i < n; i++) MON_CHECK(c, g.evaluate(units[i + 1]) == w[i], "weight:LinearFunction", "weight %a loaded as %a", w[i], g.evaluate(units[i + 1])); break; }
  case 1: { NearestNeighborIsingModel1 f, g; f.generate(1, [] { return 0.; }, gen); std::string p = mon::tmpfile("x"); f.save(p); g.load(p); unlink(p.c_str()); MON_CHECK(c, g.evaluate(BV(1, 0)) == w[0], "weight:Ising1", "field %a loaded as %a", w[0], g.evaluate(BV(1, 0))); break; }
  case 2: { WalshExpansion f, g; std::vector<WalshTerm> ts; for (int i = 0; i < 1; i++) { std::vector<bool> u(n); u[0] = true; ts.push_back({u, gen()}); } f.set_terms(ts); std::string p = mon::tmpfile("x"); f.save(p); g.load(p); unlink(p.c_str()); MON_CHECK(c, g.evaluate(units[0]) == w[0], "weight:WalshExpansion", "coefficient %a loaded as %a", w[0], g.evaluate(units[0])); break; }
  default: { EqualProducts f, g; f.generate(1, gen); std::string p = mon::tmpfile("x"); f.save(p); g.load(p); unlink(p.c_str()); BV x(1, 1); MON_CHECK(c, mon::same_double(f.evaluate(x), g.evaluate(x)), "weight:EqualProducts", "number %a: %a before, %a after", w[0], f.evaluate(x), g.evaluate(x)); } }
  for (double v : w) c.cover(fmt("%a", v));
}
CASES(sudoku, 600, 4000) {
  auto& r = c.rng; Sudoku f, g; f.random(r.range(1, 81)); if (r.bit()) g.random(r.range(1, 81)); std::string p = mon::tmpfile("sud"); f.save(p); g.load(p); unlink(p.c_str()); int m = f.get_num_variables(); c.desc(fmt("Sudoku with %d variables", m));
  MON_CHECK(c, g.get_num_variables() == m, "size:Sudoku", "%d variables, %d after loading", m, g.get_num_variables()); MON_CHECK(c, disp(f) == disp(g), "display:Sudoku", "display differs after loading");
  for (int t = 0; t < 5; t++) { std::vector<std::size_t> x(m); for (auto& v : x) v = r.below(9); MON_CHECK(c, f.evaluate(x) == g.evaluate(x), "value:Sudoku", "value %g before, %g after", f.evaluate(x), g.evaluate(x)); c.cover(fmt("%d/%g", m, f.evaluate(x))); } c.count("Sudoku");
}
CASES(tsp, 80, 400) {
  auto& r = c.rng; int n = r.range(2, 9); Tsp f, g; f.random(n); std::string p = mon::tmpfile("tsp"); c.desc(fmt("Tsp with %d cities", n)); c.obs(); bool ok = true; std::string why;
  try { f.save(p); g.load(p); permutation_t t(n); std::iota(t.begin(), t.end(), 0); if (g.get_num_elements() != n) { ok = false; why = "number of cities"; } else if (std::fabs(g.evaluate(t) - f.evaluate(t)) > 1e-3 * (1 + std::fabs(f.evaluate(t)))) { ok = false; why = "value"; } } catch (const std::exception& e) { ok = false; why = e.what(); }
  unlink(p.c_str()); if (!ok) c.note("tsp-save", "a saved Tsp instance does not load back: " + why); c.cover(fmt("%d", n));
}
template<class M> static void mtrip(mon::Ctx& c, M& f, M& g, const char *what) {
  std::string p = mon::tmpfile("map"); if (c.rng.chance(.2)) mon::spit(p, std::string(c.rng.range(1, 5000), '1')); f.save(p); g.load(p); std::string k = what; int a = f.get_input_size(), b = f.get_output_size(); c.desc(fmt("%s %d -> %d", what, a, b));
  MON_CHECK(c, g.get_input_size() == a && g.get_output_size() == b, "size:" + k, "sizes %d -> %d, after loading %d -> %d", a, b, g.get_input_size(), g.get_output_size());
  for (int t = 0; t < a + 8; t++) { BV x(a, 0); if (t < a) x[t] = 1; else x = rbv(c.rng, a, c.rng.real()); BV y(b), z(b); f.map(x, y); g.map(x, z); MON_CHECK(c, y == z, "image:" + k, "%s: image of %s is %s, after loading %s", what, mon::showbv(x).c_str(), mon::showbv(y).c_str(), mon::showbv(z).c_str()); c.cover(k + mon::showbv(y)); }
  MON_CHECK(c, f.is_surjective() == g.is_surjective(), "surjective:" + k, "surjectivity changed"); MON_CHECK(c, disp(f) == disp(g), "display:" + k, "display differs after loading"); std::string t1 = mon::slurp(p); g.save(p); MON_CHECK(c, t1 == mon::slurp(p), "file:" + k, "saving the loaded map gives another file"); unlink(p.c_str()); c.count(k);
}
CASES(maps, 2400, 16000) {
  auto& r = c.rng; int n = r.chance(.2) ? r.range(1, 3) : r.range(1, 70), m = r.range(1, 40), j = r.range(1, 30);
  switch (c.idx % 5) {
  case 0: { map::Translation f, g; f.random(n); if (r.bit()) g.random(j); mtrip(c, f, g, "Translation"); break; }
  case 1: { map::Permutation f, g; f.random(n); if (r.bit()) g.random(j); mtrip(c, f, g, "Permutation"); break; }
  case 2: { map::LinearMap f, g; f.random(n, m, false); if (r.bit()) g.random(j, m, false); mtrip(c, f, g, "LinearMap"); break; }
  case 3: { map::AffineMap f, g; f.random(n, m, false); if (r.bit()) g.random(j, m, false); mtrip(c, f, g, "AffineMap"); break; }
  default: { map::TsAffineMap f, g; n = std::max(n, 2); int mode = r.below(6), t = r.range(0, mode == 0 || mode == 5 ? 60 : n / 2); f.random(n, t, mode); if (r.bit()) g.random(j + 1, r.range(0, 5), 0); mtrip(c, f, g, "TsAffineMap"); if (r.bit()) f.invert(); mtrip(c, f, g, "TsAffineMap"); } }
}
// A save that cannot be completed raises an error: full device, missing directory, directory, file size limit at byte k.
struct Limit { rlimit old; explicit Limit(long k) { getrlimit(RLIMIT_FSIZE, &old); rlimit n = old; n.rlim_cur = k; setrlimit(RLIMIT_FSIZE, &n); signal(SIGXFSZ, SIG_IGN); } ~Limit() { setrlimit(RLIMIT_FSIZE, &old); } };
template<class S> static void faults(mon::Ctx& c, S save, const char *what) {
  std::string k = what; auto expect = [&](const std::string& path, const std::string& how) { bool threw = false; try { save(path); } catch (const std::exception&) { threw = true; } MON_CHECK(c, threw, "write-failure:" + k, "%s::save returned normally although the data could not be written (%s)", what, how.c_str()); c.count("fault_" + how.substr(0, how.find(' '))); };
  std::string p = mon::tmpfile("fault"); save(p); long size = mon::slurp(p).size(); unlink(p.c_str()); c.desc(fmt("%s, file of %ld bytes", what, size));
  if (access("/dev/full", W_OK) == 0) expect("/dev/full", "full device"); expect(mon::tmpfile("nodir") + "/sub/file", "missing directory"); expect(mon::st().tmp, "directory");
  for (int t = 0; t < 3 && size > 1; t++) { long lim = t == 0 ? size - 1 : c.rng.range(0, int(size - 1)); { Limit l(lim); expect(p, fmt("limit at byte %ld of %ld", lim, size)); } unlink(p.c_str()); c.cover(fmt("%s limit %ld/%ld", what, lim, size)); }
  { Limit l(size); bool threw = false; try { save(p); } catch (const std::exception&) { threw = true; } MON_CHECK(c, !threw, "write-success:" + k, "%s::save failed although all data could be written", what); } unlink(p.c_str());
}
CASES(write_failures, 520, 3000) {
  auto& r = c.rng; int n = r.bit() ? r.range(2, 12) : r.range(60, 400);
  switch (c.idx % 17) {
  case 0: { LinearFunction f; f.random(n); faults(c, [&](std::string p) { f.save(p); }, "LinearFunction"); break; }
  case 1: { EqualProducts f; f.random(n); faults(c, [&](std::string p) { f.save(p); }, "EqualProducts"); break; }
  case 2: { Partition f; f.random(n, 100); faults(c, [&](std::string p) { f.save(p); }, "Partition"); break; }
  case 3: { NkLandscape f; f.random(n, 1); faults(c, [&](std::string p) { f.save(p); }, "NkLandscape"); break; }
  case 4: { MaxSat f; f.random(n, 2, n * 4); faults(c, [&](std::string p) { f.save(p); }, "MaxSat"); break; }
  case 5: { NearestNeighborIsingModel1 f; f.random(n); faults(c, [&](std::string p) { f.save(p); }, "Ising1"); break; }
  case 6: { NearestNeighborIsingModel2 f; f.random(r.range(1, 20), r.range(1, 20)); faults(c, [&](std::string p) { f.save(p); }, "Ising2"); break; }
  case 7: { WalshExpansion1 f; f.random(n); faults(c, [&](std::string p) { f.save(p); }, "WalshExpansion1"); break; }
  case 8: { WalshExpansion2 f; f.random(std::min(n, 40)); faults(c, [&](std::string p) { f.save(p); }, "WalshExpansion2"); break; }
  case 9: { WalshExpansion f; f.random(n, 20); faults(c, [&](std::string p) { f.save(p); }, "WalshExpansion"); break; }
  case 10: { Sudoku f; f.random(r.range(1, 81)); faults(c, [&](std::string p) { f.save(p); }, "Sudoku"); break; }
  case 11: { map::Translation f; f.random(n); faults(c, [&](std::string p) { f.save(p); }, "Translation"); break; }
  case 12: { map::Permutation f; f.random(n); faults(c, [&](std::string p) { f.save(p); }, "Permutation"); break; }
  case 13: { map::LinearMap f; f.random(n, 20, false); faults(c, [&](std::string p) { f.save(p); }, "LinearMap"); break; }
  case 14: { map::AffineMap f; f.random(n, 20, false); faults(c, [&](std::string p) { f.save(p); }, "AffineMap"); break; }
  case 15: { map::TsAffineMap f; f.random(n, 30, 0); faults(c, [&](std::string p) { f.save(p); }, "TsAffineMap"); break; }
  default: { MaxNae3Sat f; std::string q = mon::tmpfile("nae"); mon::spit(q, cnf_text(r, n, rand_cnf(r, n, 40, 3))); f.load(q); unlink(q.c_str()); faults(c, [&](std::string p) { f.save(p); }, "MaxNae3Sat"); } }
}
int main(int a, char **v) { return mon::main(a, v); }
