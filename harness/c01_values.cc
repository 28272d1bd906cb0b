// C01: values of the function collection agree with the published definitions.
#include "fnlib.hh"
#include "hnco/functions/collection/sudoku.hh"
#include "hnco/functions/collection/tsp.hh"
using namespace fl;

CASES(collection, 3200, 60000) {
  int kind = c.idx % K_COUNT;
  Inst I = make(c, kind);
  c.desc(I.name);
  auto ps = points(c, I, c.thorough ? 120 : 40);
  std::vector<double> first;
  for (auto& x : ps) {
    double got = I.f->evaluate(x), want = I.ref(x);
    if (!close(I, got, want)) c.fail("value:" + I.name.substr(0, I.name.find('(')), fmt("%s: value of %s is %.17g, published definition gives %.17g", I.name.c_str(), mon::showbv(x).c_str(), got, want));
    c.obs(); first.push_back(got);
    c.cover(I.name + "@" + std::to_string(got));
  }
  // the value depends on the bit vector only, not on what was evaluated before
  for (size_t i = ps.size(); i-- > 0;) {
    double again = I.f->evaluate(ps[i]);
    MON_CHECK(c, mon::same_double(again, first[i]), "history:" + I.name.substr(0, I.name.find('(')), "%s: value of %s was %.17g, later %.17g", I.name.c_str(), mon::showbv(ps[i]).c_str(), first[i], again);
  }
  // evaluate_safely is evaluate for plain functions
  for (int k = 0; k < 3; k++) { auto& x = ps[c.rng.below(ps.size())]; double a = I.f->evaluate(x), b = I.f->evaluate_safely(x); MON_CHECK(c, mon::same_double(a, b), "safely:" + I.name.substr(0, I.name.find('(')), "%s: evaluate %.17g, safe evaluation %.17g", I.name.c_str(), a, b); }
  c.count("kind:" + I.name.substr(0, I.name.find('(')));
  c.sample(I.name + " f(" + mon::showbv(ps[0]).substr(0, 60) + ")=" + std::to_string(first[0]));
}

// All points of small instances.
CASES(exhaustive, 256, 2560) {
  int kind = c.idx % K_COUNT;
  Inst I = make(c, kind, 10);
  int n = I.f->get_bv_size();
  c.desc(I.name);
  if (n > 14) { c.obs(); c.count("exhaustive_skipped"); return; }
  for (int u = 0; u < (1 << n); u++) {
    BV x(n); for (int i = 0; i < n; i++) x[i] = (u >> i) & 1;
    double got = I.f->evaluate(x), want = I.ref(x);
    MON_CHECK(c, close(I, got, want), "value:" + I.name.substr(0, I.name.find('(')), "%s: value of %s is %.17g, published definition gives %.17g", I.name.c_str(), mon::showbv(x).c_str(), got, want);
  }
  c.cover(I.name); c.count("exhaustive_instances");
}

// Random instance generators produce instances of the documented kind.
CASES(random_generators, 400, 4000) {
  auto& r = c.rng; int n = r.range(2, 40);
  auto agree = [&](Function& f, const char *what) {
    c.obs(); if (f.get_bv_size() != n) c.fail("random-size", fmt("%s::random: bit vector size %d instead of %d", what, f.get_bv_size(), n));
    BV x = rbv(r, n); double a = f.evaluate(x); if (!(a == a)) c.fail("random-nan", fmt("%s::random: value is not a number", what)); c.cover(fmt("%s %d", what, n));
  };
  switch (c.idx % 8) {
  case 0: { LinearFunction f; f.random(n); agree(f, "LinearFunction"); double s = f.evaluate(BV(n, 0)); MON_CHECK(c, s == 0, "linear-zero", "linear function of zero is %g", s); BV x = rbv(r, n); double t = 0; for (int i = 0; i < n; i++) if (x[i]) { BV e(n, 0); e[i] = 1; t += f.evaluate(e); } MON_CHECK(c, mon::near(t, f.evaluate(x), 1e-9, 1e-9), "linear-additive", "random linear function is not additive"); break; }
  case 1: { Partition f; int ub = r.range(1, 50); f.random(n, ub); agree(f, "Partition"); double all = -f.evaluate(BV(n, 1)); MON_CHECK(c, all >= n && all <= double(n) * ub, "partition-range", "sum of %d numbers of [1,%d] is %g", n, ub, all); for (int i = 0; i < n; i++) { BV e(n, 0); e[i] = 1; double w = (all - -f.evaluate(e)) / 2; /* valid when the rest dominates */ if (2 * w < all) MON_CHECK(c, w >= 1 && w <= ub && w == std::floor(w), "partition-range", "number %g not in [1,%d]", w, ub); } break; }
  case 2: { EqualProducts f; f.random(n); agree(f, "EqualProducts"); break; }
  case 3: { WalshExpansion1 f; f.random(n); agree(f, "WalshExpansion1"); BV x = rbv(r, n), y = x; for (auto& b : y) b = !b; MON_CHECK(c, mon::near(f.evaluate(x), -f.evaluate(y), 1e-9, 1e-9), "walsh1-odd", "WalshExpansion1 is not odd"); break; }
  case 4: { WalshExpansion2 f; f.random(n); agree(f, "WalshExpansion2"); break; }
  case 5: { WalshExpansion f; int m = r.range(1, 20); f.random(n, m); agree(f, "WalshExpansion"); break; }
  case 6: { NearestNeighborIsingModel1 f; f.random(n); agree(f, "Ising1"); break; }
  case 7: { int C = r.range(1, 8); n = n / C * C; if (n == 0) n = C; NearestNeighborIsingModel2 f; f.random(n / C, C); agree(f, "Ising2"); break; }
  }
}

// Sudoku: -(number of violated row, column and block constraints).
static double sudoku_ref(const std::vector<std::vector<int>>& b) {
  double t = 0;
  auto unit = [&](std::vector<int> v) { int cnt[10] = {0}; for (int d : v) cnt[d]++; for (int k = 1; k < 10; k++) t += std::abs(cnt[k] - 1); };
  for (int i = 0; i < 9; i++) { std::vector<int> row, col, blk; for (int j = 0; j < 9; j++) { row.push_back(b[i][j]); col.push_back(b[j][i]); blk.push_back(b[3 * (i / 3) + j / 3][3 * (i % 3) + j % 3]); } unit(row); unit(col); unit(blk); }
  return -t;
}
CASES(sudoku, 300, 4000) {
  auto& r = c.rng; Sudoku f; std::vector<std::string> rows(9, std::string(9, '.'));
  if (r.chance(.3)) { Sudoku junk; (void)junk; f.random(r.range(1, 81)); }      // object reuse
  bool rnd = r.chance(.4); int holes = 0;
  std::string path = mon::tmpfile("sudoku");
  if (rnd) {
    holes = r.range(1, 81); f.random(holes); f.save(path); std::istringstream in(mon::slurp(path)); for (auto& l : rows) { std::getline(in, l); if (l.size() != 9) c.fail("sudoku-save", "saved line does not have 9 characters"); }
    int dots = 0; for (auto& l : rows) dots += std::count(l.begin(), l.end(), '.'); MON_CHECK(c, dots == holes, "sudoku-random", "random(%d) has %d empty cells", holes, dots);
    for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) for (int k = 0; k < 9; k++) for (int l = 0; l < 9; l++) if ((i != k || j != l) && rows[i][j] != '.' && rows[i][j] == rows[k][l]) MON_CHECK(c, !(i == k || j == l || (i / 3 == k / 3 && j / 3 == l / 3)), "sudoku-random", "random instance is contradictory at (%d,%d) and (%d,%d)", i, j, k, l);
  } else {
    double p = r.real(); for (auto& l : rows) for (auto& ch : l) if (r.chance(p)) ch = '1' + r.below(9); else holes++;
    std::string t; for (auto& l : rows) t += l + (r.chance(.1) ? " " : "") + "\n"; mon::spit(path, t); f.load(path);
  }
  unlink(path.c_str());
  MON_CHECK(c, f.get_num_variables() == holes, "sudoku-variables", "%d empty cells, %d variables", holes, f.get_num_variables());
  for (int rep = 0; rep < 6; rep++) {
    std::vector<std::size_t> x(holes); for (auto& v : x) v = r.below(9);
    std::vector<std::vector<int>> b(9, std::vector<int>(9)); int k = 0; for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) b[i][j] = rows[i][j] == '.' ? int(x[k++]) + 1 : rows[i][j] - '0';
    double got = f.evaluate(x), want = sudoku_ref(b);
    MON_CHECK(c, got == want, "value:Sudoku", "Sudoku value is %g, constraints give %g", got, want);
    std::ostringstream o; f.describe(x, o); std::string s; for (char ch : o.str()) if (ch >= '1' && ch <= '9') s += ch; std::string e; for (auto& rw : b) for (int d : rw) e += char('0' + d);
    MON_CHECK(c, s == e, "describe:Sudoku", "described board %s, expected %s", s.c_str(), e.c_str());
    c.cover(fmt("%d holes %g", holes, got));
  }
}

// TSPLIB instances: -(length of the closed tour), with the TSPLIB rounding rules.
CASES(tsp, 400, 4000) {
  auto& r = c.rng; int n = r.range(1, 12); bool att = r.bit(); std::vector<double> X(n), Y(n); std::ostringstream o;
  o << "NAME" << (r.bit() ? ": " : " : ") << "inst\n"; if (r.bit()) o << "COMMENT : some text: with colon\n"; o << "TYPE : TSP\nDIMENSION : " << n << "\nEDGE_WEIGHT_TYPE : " << (att ? "ATT" : "EUC_2D") << "\nNODE_COORD_SECTION\n";
  std::vector<int> ord(n); std::iota(ord.begin(), ord.end(), 0); r.shuffle(ord); double sc = r.bit() ? 100 : 4000;
  for (int i = 0; i < n; i++) { X[i] = r.range(-int(sc), int(sc)); Y[i] = r.range(0, int(sc)); }
  for (int i : ord) o << (i + 1) << " " << X[i] << " " << Y[i] << "\n"; if (r.bit()) o << "EOF\n";
  std::string p = mon::tmpfile("tsp"); mon::spit(p, o.str()); Tsp f; if (r.chance(.2)) f.random(r.range(1, 15)); f.load(p); unlink(p.c_str());
  MON_CHECK(c, f.get_num_elements() == n, "tsp-size", "%d cities instead of %d", f.get_num_elements(), n);
  auto dist = [&](int a, int b) -> double { double dx = X[a] - X[b], dy = Y[a] - Y[b]; if (att) { double rij = std::sqrt((dx * dx + dy * dy) / 10.0); double t = std::floor(rij + 0.5); return t < rij ? t + 1 : t; } return std::floor(std::sqrt(dx * dx + dy * dy) + 0.5); };
  // skip the rare distances where single and double precision round differently
  auto shaky = [&](int a, int b) { double dx = X[a] - X[b], dy = Y[a] - Y[b]; double d = att ? std::sqrt((dx * dx + dy * dy) / 10) : std::sqrt(dx * dx + dy * dy); double fr = d - std::floor(d); double u = 2e-3; return (std::fabs(fr - .5) < u) || (att && (fr < u || fr > 1 - u) && fr != 0); };
  for (int rep = 0; rep < 8; rep++) {
    permutation_t t(n); std::iota(t.begin(), t.end(), 0); for (int i = n; i > 1; i--) std::swap(t[i - 1], t[r.below(i)]);
    double want = 0; bool sk = false; for (int i = 0; i < n; i++) { int a = t[i], b = t[(i + 1) % n]; if (n > 1) { want -= dist(a, b); sk = sk || shaky(a, b); } }
    double got = f.evaluate(t); if (sk) { c.obs(); continue; }
    MON_CHECK(c, got == want, "value:Tsp", "tour %s of %d cities (%s) has value %g, TSPLIB gives %g", mon::show(t).c_str(), n, att ? "ATT" : "EUC_2D", got, want);
    std::ostringstream d; f.describe(t, d); std::string s = d.str(); for (auto& ch : s) if (!isdigit(ch)) ch = ' '; std::istringstream is(s); std::vector<int> cs; int q; while (is >> q) cs.push_back(q - 1); 
    MON_CHECK(c, cs.size() == t.size() && std::equal(cs.begin(), cs.end(), t.begin()), "describe:Tsp", "described tour differs from the evaluated one");
    c.cover(fmt("%d %d %g", n, att, got));
  }
  // random symmetric instances: closed tours, reversal and rotation invariance
  { Tsp g; int m = r.range(2, 10); std::vector<double> rec; g.generate(m, [&]() { double v = r.range(1, 1000); rec.push_back(v); return v; }); std::vector<std::vector<double>> D(m, std::vector<double>(m, 0)); size_t k = 0; for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) D[i][j] = D[j][i] = rec[k++];
    MON_CHECK(c, g.get_num_elements() == m, "tsp-size", "generated instance has %d cities instead of %d", g.get_num_elements(), m);
    permutation_t t(m); std::iota(t.begin(), t.end(), 0); for (int i = m; i > 1; i--) std::swap(t[i - 1], t[r.below(i)]); double want = 0; for (int i = 0; i < m; i++) want -= D[t[i]][t[(i + 1) % m]]; MON_CHECK(c, g.evaluate(t) == want, "value:Tsp", "generated instance: %g instead of %g", g.evaluate(t), want); std::rotate(t.begin(), t.begin() + 1, t.end()); MON_CHECK(c, g.evaluate(t) == want, "value:Tsp", "value changes under rotation of the tour"); }
}

// Descriptions of solutions are truthful.
CASES(describe, 300, 3000) {
  auto& r = c.rng;
  if (c.idx % 2) {
    Inst I = make(c, K_FACTOR, 60); int n = I.f->get_bv_size(); BV x = rbv(r, n); std::ostringstream o; I.f->describe(x, o); c.desc(I.name);
    int bits = (2 * (n + 1) + 2) / 3; (void)bits; std::istringstream is(o.str()); std::string w; std::string a, b, p, N; is >> w >> a >> w >> w >> b >> w >> w >> p >> w >> w >> N;
    MON_CHECK(c, mpz_class(a) * mpz_class(b) == mpz_class(p), "describe:Factorization", "%s x %s described as %s", a.c_str(), b.c_str(), p.c_str()); MON_CHECK(c, "Factorization(" + N + ")" == I.name, "describe:Factorization", "expected number %s for %s", N.c_str(), I.name.c_str());
    MON_CHECK(c, (I.ref(x) == 0) == (p == N), "describe:Factorization", "value 0 and product equal to the number disagree"); c.cover(I.name);
  } else {
    std::vector<int> w; int n = r.range(1, 20); Partition f; f.generate(n, [&]() { w.push_back(r.range(1, 99)); return w.back(); }); BV x = rbv(r, n); std::ostringstream o; f.describe(x, o); std::string s = o.str(); auto grab = [&](const char *key) { auto p = s.find(key); std::multiset<int> m; if (p == std::string::npos) return m; p = s.find('{', p); auto q = s.find('}', p); std::string t = s.substr(p + 1, q - p - 1); for (auto& ch : t) if (ch == ',') ch = ' '; std::istringstream is(t); int v; while (is >> v) m.insert(v); return m; };
    std::multiset<int> A, B; for (int i = 0; i < n; i++) (x[i] ? A : B).insert(w[i]); MON_CHECK(c, grab("A = ") == A && grab("B = ") == B, "describe:Partition", "described sets differ from the encoded ones: %s", s.c_str()); c.cover(mon::show(w));
  }
}

// Random symmetric instances of the travelling salesman problem: n cities, one independent distance per pair.
CASES(tsp_random, 120, 2000) {
  auto& r = c.rng; int n = r.range(1, 24); Tsp f; if (r.chance(.3)) f.random(r.range(1, 30)); f.random(n); c.desc(fmt("Tsp::random(%d)", n)); MON_CHECK(c, f.get_num_elements() == n, "tsp-random-size", "%d cities instead of %d", f.get_num_elements(), n); std::string p = mon::tmpfile("tspr"); std::set<double> seen; permutation_t id(n); std::iota(id.begin(), id.end(), 0); std::set<double> vals; int tours = 0;
  for (int t = 0; t < 12; t++) { permutation_t q = id; for (int i = n; i > 1; i--) std::swap(q[i - 1], q[r.below(i)]); double v = f.evaluate(q); permutation_t w = q; std::rotate(w.begin(), w.begin() + r.below(n), w.end()); if (r.bit()) std::reverse(w.begin(), w.end()); double u = f.evaluate(w); MON_CHECK(c, std::isfinite(v) && fabs(u - v) <= 1e-4 * (n + fabs(v)), "tsp-random-symmetry", "the same closed tour is worth %g and %g", v, u); vals.insert(v); tours++; c.cover(fmt("%d %a", n, v)); }
  if (n >= 8) MON_CHECK(c, vals.size() > 6, "tsp-random-degenerate", "%d random tours of %d cities have %zu different lengths", tours, n, vals.size());
}
// Instances drawn at random follow the documented distributions.
static void normal_law(mon::Ctx& c, const std::string& k, const std::vector<double>& v) { double m = 0, q = 0; int in = 0; for (double x : v) { m += x; q += x * x; in += fabs(x) < 0.6744897501960817; } m /= v.size(); q /= v.size(); double s = 1 / sqrt(double(v.size())); MON_CHECK(c, fabs(m) < 7 * s, "law-mean:" + k, "mean %g over %zu numbers", m, v.size()); MON_CHECK(c, fabs(q - 1) < 10.5 * s, "law-variance:" + k, "mean square %g over %zu numbers", q, v.size()); MON_CHECK(c, mon::plausible_binomial(v.size(), .5, in), "law-median:" + k, "%d of %zu numbers in the central half", in, v.size()); c.cover(k + fmt("%.6g", m)); c.count("numbers observed", v.size()); }
CASES(instance_laws, 60, 800) {
  auto& r = c.rng; random::Generator::set_seed(r.below(1 << 30)); std::vector<double> v; int kind = c.idx % 6; auto e = [](int n, int i) { BV x(n); x[i] = 1; return x; };
  switch (kind) {
  case 0: { c.desc("law of LinearFunction::random"); LinearFunction f; f.random(2000); for (int i = 0; i < 2000; i++) v.push_back(f.evaluate(e(2000, i))); normal_law(c, "LinearFunction", v); break; }
  case 1: { int ub = r.range(1, 9), N = 3000; c.desc(fmt("law of Partition::random(%d, %d)", N, ub)); Partition f; f.random(N, ub); std::vector<long> h(ub + 1); long prev = -long(f.evaluate(BV(N, 0))); BV x(N); long S = prev; for (int i = 0; i < N; i++) { x[i] = 1; long d = -long(f.evaluate(x)); long w = (prev - d) / 2; if (prev <= d || d < 2 * ub || prev < 2 * ub) break; MON_CHECK(c, w >= 1 && w <= ub, "law-range:Partition", "number %ld", w); h[w]++; S -= w; prev = d; } long n = 0; for (long q : h) n += q; MON_CHECK(c, n > N / 3, "law:Partition", "only %ld numbers recovered", n); for (int w = 1; w <= ub; w++) MON_CHECK(c, mon::plausible_binomial(n, 1. / ub, h[w]), "law:Partition", "%d is drawn %ld times out of %ld, bound %d", w, h[w], n, ub); c.cover(c.description + mon::show(h)); break; }
  case 2: { c.desc("law of EqualProducts::random"); long q[4] = {0, 0, 0, 0}; int T = 2000; for (int t = 0; t < T; t++) { EqualProducts f; f.random(1); double w = 1 + f.evaluate(BV(1, r.bit())); MON_CHECK(c, w >= 0 && w < 1, "law-range:EqualProducts", "number %g", w); q[int(w * 4)]++; } for (long k : q) MON_CHECK(c, mon::plausible_binomial(T, .25, k), "law:EqualProducts", "%ld of %d numbers in a quarter of the interval", k, T); c.cover(fmt("%ld", q[0])); break; }
  case 3: { int n = r.range(2, 7), k = r.range(1, n - 1), T = 600; c.desc(fmt("law of NkLandscape::random(%d, %d)", n, k)); std::vector<std::vector<long>> h(n, std::vector<long>(n)); for (int t = 0; t < T; t++) { NkLandscape f; f.random(n, k); BV x = rbv(r, n); v.push_back(f.evaluate(x) * sqrt(double(n))); /* n independent normal numbers */ std::ostringstream o; f.display(o); std::istringstream in(o.str()); std::string l; while (std::getline(in, l)) { size_t a = l.find(" -> "); if (a == std::string::npos) continue; int i = std::stoi(l); std::istringstream q(l.substr(a + 4)); int j; std::set<int> s; while (q >> j) { MON_CHECK(c, j >= 0 && j < n && s.insert(j).second, "law-neighbors:NK", "bit %d: %s", i, l.c_str()); h[i][j]++; } MON_CHECK(c, int(s.size()) == k + 1 && s.count(i), "law-neighbors:NK", "bit %d: %s", i, l.c_str()); } } normal_law(c, "NK", v); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) MON_CHECK(c, mon::plausible_binomial(T, double(k) / (n - 1), h[i][j]), "law-structure:NK", "bit %d is a neighbour of %d in %ld instances of %d", j, i, h[i][j], T); break; }
  default: { bool planted = kind == 5; int n = r.range(2, 9), k = r.range(1, n), C = 2500; BV sol = rbv(r, n); MaxSat f; if (planted) f.random(sol, k, C); else f.random(n, k, C); c.desc(fmt("law of MaxSat::random, %d variables, %d literals%s", n, k, planted ? ", satisfiable" : "")); std::string p = mon::tmpfile("sat"); f.save(p); std::istringstream in(mon::slurp(p)); unlink(p.c_str()); std::string l; std::vector<long> var(n), pos(n); long clauses = 0, agree = 0; while (std::getline(in, l)) { if (l.empty() || l[0] == 'c' || l[0] == 'p') continue; std::istringstream q(l); int x; std::set<int> s; int ok = 0; while (q >> x && x) { int j = std::abs(x) - 1; MON_CHECK(c, j < n && s.insert(j).second, "law-clause:MaxSat", "clause %s", l.c_str()); var[j]++; pos[j] += x > 0; ok += (x > 0) == bool(sol[j]); } MON_CHECK(c, int(s.size()) == k, "law-clause:MaxSat", "clause %s instead of %d literals", l.c_str(), k); if (planted) MON_CHECK(c, ok > 0, "law-planted:MaxSat", "the solution does not satisfy %s", l.c_str()); agree += ok; clauses++; }
    MON_CHECK(c, clauses == C && f.evaluate(sol) <= C, "law-clauses:MaxSat", "%ld clauses instead of %d", clauses, C); for (int j = 0; j < n; j++) { MON_CHECK(c, mon::plausible_binomial(C, double(k) / n, var[j]), "law-variables:MaxSat", "variable %d is in %ld clauses of %d", j + 1, var[j], C); if (!planted) MON_CHECK(c, mon::plausible_binomial(var[j], .5, pos[j]), "law-signs:MaxSat", "variable %d is positive %ld times out of %ld", j + 1, pos[j], var[j]); } double mean = C * (k / 2. + (planted ? std::pow(.5, k) : 0)), sd = std::sqrt(C * k / 4.); MON_CHECK(c, fabs(agree - mean) < 7 * sd + 5, "law-agreement:MaxSat", "%ld literals agree with the solution, expected about %g", agree, mean); c.cover(c.description + mon::show(var)); c.count("clauses observed", clauses); } }
  c.count("laws");
}
int main(int argc, char **argv) { return mon::main(argc, argv); }
