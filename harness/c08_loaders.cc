// C08: loaders reject malformed files by exception, without memory errors; a valid text in an unusual layout gives that very instance.
#include "fnlib.hh"
#include "hnco/functions/collection/sudoku.hh"
#include "hnco/functions/collection/tsp.hh"
#include "hnco/functions/collection/qubo.hh"
#include "hnco/functions/collection/factorization.hh"
#include "hnco/maps/map.hh"
#include <new>
using namespace fl;
typedef std::string S;
namespace hm = hnco::map;

static S ws(mon::Rng& r) { S s; do s += r.chance(.8) ? ' ' : '\t'; while (r.chance(.25)); return s; }
// ---- valid texts, with the instance they describe
struct Cnf { int n; std::vector<std::vector<int>> cl; };
static Cnf rcnf(mon::Rng& r, int maxlen) { Cnf c; c.n = r.range(1, 12); int m = r.range(1, 12); for (int i = 0; i < m; i++) { std::vector<int> v(r.range(1, maxlen)); for (auto& x : v) x = (1 + r.below(c.n)) * (r.bit() ? 1 : -1); c.cl.push_back(v); } return c; }
static Cnf rcnf3(mon::Rng& r) { Cnf c; c.n = r.range(3, 12); int m = r.range(1, 12); for (int i = 0; i < m; i++) { std::set<int> v; while (v.size() < 3) v.insert(1 + r.below(c.n)); std::vector<int> w; for (int x : v) w.push_back(r.bit() ? x : -x); c.cl.push_back(w); } return c; }
static S text(mon::Rng& r, const Cnf& c, bool wild) { S s; auto noise = [&]() { if (wild) while (r.chance(.25)) s += r.bit() ? S("\n") : S("c") + (r.bit() ? " comment 1 2 0 p cnf 9 9" : r.bit() ? "" : "nf 3 0") + "\n"; }; noise(); s += "p" + (wild ? ws(r) : S(" ")) + "cnf" + (wild ? ws(r) : S(" ")) + std::to_string(c.n) + (wild ? ws(r) : S(" ")) + std::to_string(c.cl.size()) + (wild && r.chance(.3) ? ws(r) : S()) + "\n"; for (size_t i = 0; i < c.cl.size(); i++) { noise(); if (wild && r.chance(.2)) s += ws(r); for (int x : c.cl[i]) s += std::to_string(x) + (wild ? ws(r) : S(" ")); s += "0"; if (wild && r.chance(.2)) s += ws(r); if (i + 1 < c.cl.size() || !wild || r.bit()) s += "\n"; } return s; }
static double ref_sat(const Cnf& c, const BV& x) { int k = 0; for (auto& cl : c.cl) { bool t = false; for (int l : cl) t = t || (x[abs(l) - 1] == (l > 0)); k += t; } return k; }
static double ref_nae(const Cnf& c, const BV& x) { int k = 0; for (auto& cl : c.cl) { int a = 0, b = 0; for (int l : cl) (x[abs(l) - 1] == (l > 0) ? a : b)++; k += a && b; } return k; }
struct Qb { int n; std::map<std::pair<int, int>, double> q; };
static Qb rqubo(mon::Rng& r) { Qb q; q.n = r.range(1, 10); int m = r.below(15); for (int i = 0; i < m; i++) { int a = r.below(q.n), b = r.below(q.n); if (a > b) std::swap(a, b); double v = r.range(-40, 40) / 4.; if (v == 0) v = 1; q.q[{a, b}] = v; } return q; }
static S num(double v) { std::ostringstream o; o << v; return o.str(); }
static S text(mon::Rng& r, const Qb& q, bool wild) { S s; auto noise = [&]() { if (wild) while (r.chance(.25)) s += r.bit() ? "\n" : "c 1 1 p qubo 0 9 9 9\n"; }; int d = 0, o = 0; for (auto& e : q.q) (e.first.first == e.first.second ? d : o)++; noise(); auto w = [&]() { return wild ? ws(r) : S(" "); }; s += "p" + w() + "qubo" + w() + "0" + w() + std::to_string(q.n) + w() + std::to_string(d) + w() + std::to_string(o) + "\n"; std::vector<std::pair<std::pair<int, int>, double>> es(q.q.begin(), q.q.end()); if (wild) for (int i = int(es.size()) - 1; i > 0; i--) std::swap(es[i], es[r.below(i + 1)]); for (size_t i = 0; i < es.size(); i++) { noise(); s += std::to_string(es[i].first.first) + w() + std::to_string(es[i].first.second) + w() + num(es[i].second); if (i + 1 < es.size() || !wild || r.bit()) s += "\n"; } return s; }
static double ref_qubo(const Qb& q, const BV& x) { double v = 0; for (auto& e : q.q) if (x[e.first.first] && x[e.first.second]) v -= e.second; return v; }
struct Ts { S type; std::vector<double> x, y; };
static Ts rtsp(mon::Rng& r) { Ts t; t.type = r.bit() ? "EUC_2D" : "ATT"; int n = r.range(1, 9); for (int i = 0; i < n; i++) { t.x.push_back(r.range(0, 400) / 4.); t.y.push_back(r.range(-400, 400) / 4.); } return t; }
static S text(mon::Rng& r, const Ts& t, bool wild) { int n = t.x.size(); auto col = [&]() { return wild ? S(r.bit() ? " : " : r.bit() ? ": " : ":") : S(": "); }; std::vector<S> head = {"NAME" + col() + "foo", "COMMENT" + col() + "some: comment", "TYPE" + col() + "TSP", "DIMENSION" + col() + std::to_string(n), "EDGE_WEIGHT_TYPE" + col() + t.type}; if (wild) for (int i = 4; i > 0; i--) std::swap(head[i], head[r.below(i + 1)]); S s; for (auto& h : head) { s += h + "\n"; if (wild && r.chance(.2)) s += "\n"; } s += "NODE_COORD_SECTION\n"; std::vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i; if (wild) for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]); for (int i : ord) s += (wild && r.bit() ? ws(r) : S()) + std::to_string(i + 1) + (wild ? ws(r) : S(" ")) + num(t.x[i]) + (wild ? ws(r) : S(" ")) + num(t.y[i]) + "\n"; if (!wild || r.bit()) s += "EOF\n"; return s; }
static double dist(const Ts& t, int i, int j) { if (i == j) return 0; double dx = t.x[i] - t.x[j], dy = t.y[i] - t.y[j]; if (t.type == "EUC_2D") return floor(sqrt(dx * dx + dy * dy) + .5); return ceil(sqrt((dx * dx + dy * dy) / 10.)); }
static S sudoku_text(mon::Rng& r, std::vector<S>& g) { S s; double p = r.real(); for (int i = 0; i < 9; i++) { S l; for (int j = 0; j < 9; j++) l += r.chance(p) ? '.' : char('1' + r.below(9)); g.push_back(l); s += l; if (r.chance(.1)) s += " trailing"; if (i < 8 || r.bit()) s += "\n"; } if (r.chance(.1)) s += "more\n"; return s; }
// Every layout of a valid text gives the instance
CASES(layouts, 6000, 80000) {
  auto& r = c.rng; S p = mon::tmpfile("lay"); bool wild = r.chance(.8); bool junk = r.bit();
  auto bad = [&](const std::exception& e, const S& k, const S& t) { c.fail("valid-rejected:" + k, "valid text rejected (" + S(e.what()) + "): " + t); };
  switch (c.idx % 6) {
  case 0: { Cnf q = rcnf(r, 5); S t = text(r, q, wild); c.desc("cnf " + t); mon::spit(p, t); MaxSat f; if (junk) f.random(7, 2, 9); try { f.load(p); } catch (std::exception& e) { bad(e, "cnf", t); } MON_CHECK(c, f.get_bv_size() == q.n, "size:cnf", "%d variables instead of %d", f.get_bv_size(), q.n); for (int i = 0; i < 12; i++) { BV x = rbv(r, q.n); double v = f.evaluate(x), w = ref_sat(q, x); MON_CHECK(c, v == w, "value:cnf", "%g satisfied clauses instead of %g at %s", v, w, mon::showbv(x).c_str()); } c.cover(t); break; }
  case 1: { Cnf q = rcnf3(r); S t = text(r, q, wild); c.desc("nae " + t); mon::spit(p, t); MaxNae3Sat f; try { f.load(p); } catch (std::exception& e) { bad(e, "nae", t); } MON_CHECK(c, f.get_bv_size() == q.n, "size:nae", "%d variables instead of %d", f.get_bv_size(), q.n); for (int i = 0; i < 12; i++) { BV x = rbv(r, q.n); double v = f.evaluate(x), w = ref_nae(q, x); MON_CHECK(c, v == w, "value:nae", "%g instead of %g at %s", v, w, mon::showbv(x).c_str()); } c.cover(t); break; }
  case 2: { Qb q = rqubo(r); S t = text(r, q, wild); c.desc("qubo " + t); mon::spit(p, t); Qubo f; if (junk) { S p2 = mon::tmpfile("junk"); mon::spit(p2, text(r, rqubo(r), false)); f.load(p2); unlink(p2.c_str()); } try { f.load(p); } catch (std::exception& e) { bad(e, "qubo", t); } MON_CHECK(c, f.get_bv_size() == q.n, "size:qubo", "%d instead of %d", f.get_bv_size(), q.n); for (int i = 0; i < 12; i++) { BV x = rbv(r, q.n); double v = f.evaluate(x), w = ref_qubo(q, x); MON_CHECK(c, mon::near(v, w), "value:qubo", "%g instead of %g at %s", v, w, mon::showbv(x).c_str()); } c.cover(t); break; }
  case 3: { Ts q = rtsp(r); S t = text(r, q, wild); int n = q.x.size(); c.desc("tsp " + t); mon::spit(p, t); Tsp f; if (junk) { S p2 = mon::tmpfile("junk"); mon::spit(p2, text(r, rtsp(r), false)); f.load(p2); unlink(p2.c_str()); } try { f.load(p); } catch (std::exception& e) { bad(e, "tsp", t); } MON_CHECK(c, int(f.get_num_elements()) == n, "size:tsp", "%d cities instead of %d", int(f.get_num_elements()), n); for (int i = 0; i < 8; i++) { permutation_t s(n); for (int j = 0; j < n; j++) s[j] = j; for (int j = n - 1; j > 0; j--) std::swap(s[j], s[r.below(j + 1)]); double w = 0; for (int j = 0; j < n; j++) w += dist(q, s[j], s[(j + 1) % n]); double v = f.evaluate(s); MON_CHECK(c, fabs(fabs(v) - w) <= 1e-3 * (1 + w), "value:tsp", "tour %g instead of %g", v, w); } c.cover(t); break; }
  case 4: { std::vector<S> g; S t = sudoku_text(r, g); c.desc("sudoku " + t); mon::spit(p, t); Sudoku f; if (junk) f.random(20); try { f.load(p); } catch (std::exception& e) { bad(e, "sudoku", t); } int m = 0; for (auto& l : g) m += std::count(l.begin(), l.end(), '.'); MON_CHECK(c, f.get_num_variables() == m, "size:sudoku", "%d variables instead of %d", f.get_num_variables(), m); std::vector<std::size_t> x(m); for (auto& v : x) v = r.below(9); f.evaluate(x); c.cover(t); break; }
  default: { S t; int d = r.range(1, 30); t += char('1' + r.below(9)); for (int i = 1; i < d; i++) t += char('0' + r.below(10)); if (t.size() < 2) t += "5"; S file = (wild && r.bit() ? ws(r) : S()) + t + (r.bit() ? "\n" : ""); c.desc("number " + file); mon::spit(p, file); Factorization f, g(t); try { f.load(p); } catch (std::exception& e) { bad(e, "number", file); } MON_CHECK(c, f.get_bv_size() == g.get_bv_size() && f.get_bv_size() > 0, "size:number", "%d instead of %d", f.get_bv_size(), g.get_bv_size()); for (int i = 0; i < 6; i++) { BV x = rbv(r, f.get_bv_size()); MON_CHECK(c, f.evaluate(x) == g.evaluate(x), "value:number", "loaded number %s evaluates differently", t.c_str()); } c.cover(t); } }
  c.count(fmt("layout%ld", c.idx % 6)); unlink(p.c_str());
}
static const char *TOK[] = {"0", "-1", "1", "p", "c", "cnf", "qubo", "p cnf 3 2", "p qubo 0 3 1 1", "99999999999999999999", "-99999999999", "2147483647", "-2147483648", "1e400", "nan", "inf", "-inf", "1e38", "1.5", "x", ":", "DIMENSION: 5", "DIMENSION:", "DIMENSION: -3", "DIMENSION: 0", "NODE_COORD_SECTION", "EDGE_WEIGHT_TYPE: ATT", "EDGE_WEIGHT_TYPE: GEO", "TYPE: TSP", "TYPE: ATSP", "EOF", "NAME", ".", "\n", "\n\n", " ", "\t", "\r\n", "%", "22 serialization::archive 19 0 0", "4", "12"};
static void mutate(mon::Rng& r, S& t) { int k = r.chance(.2) ? r.range(4, 20) : r.range(1, 3); while (k-- > 0) { size_t n = t.size(); switch (r.below(9)) { case 0: if (n) t[r.below(n)] = char(r.next()); break; case 1: if (n) t.erase(r.below(n), r.range(1, 4)); break; case 2: t.insert(r.below(n + 1), TOK[r.below(sizeof TOK / sizeof *TOK)]); break; case 3: t.resize(r.below(n + 1)); break; case 4: { if (!n) break; size_t a = r.below(n), l = r.below(20); S u = t.substr(a, l); t.insert(r.below(t.size() + 1), u); break; } case 5: { std::vector<S> ls; std::istringstream i(t); S l; while (getline(i, l)) ls.push_back(l); if (ls.size() < 2) break; size_t a = r.below(ls.size()), b = r.below(ls.size()); if (r.bit()) std::swap(ls[a], ls[b]); else if (r.bit()) ls[a] = ls[b]; else ls.erase(ls.begin() + a); t.clear(); for (auto& x : ls) t += x + "\n"; break; } case 6: { // replace a number or word
        if (!n) break; size_t a = r.below(n); while (a < n && isspace((unsigned char)t[a])) a++; size_t b = a; while (b < n && !isspace((unsigned char)t[b])) b++; size_t s = a; while (s > 0 && !isspace((unsigned char)t[s - 1])) s--; t.replace(s, b - s, TOK[r.below(sizeof TOK / sizeof *TOK)]); break; } case 7: if (n) t[r.below(n)] = "0123456789-+.: \n"[r.below(16)]; break; default: t += S(r.range(1, 3), char(r.next())); } if (t.size() > 3000) t.resize(3000); } }
// Declared dimensions are clipped, since absurd but well-formed sizes only exhaust memory (out of scope): digit runs of 4 to 10 digits on size lines
static void clip(S& t) { S out; std::istringstream i(t); S l; bool nl = !t.empty() && t.back() == '\n'; std::vector<S> ls; while (getline(i, l)) { if ((!l.empty() && l[0] == 'p') || l.find("DIMENSION") != S::npos) { S m; for (size_t a = 0; a < l.size();) { size_t b = a; while (b < l.size() && isdigit((unsigned char)l[b])) b++; if (b - a > 3 && b - a < 12) m += l.substr(a, 2); else m += l.substr(a, std::max<size_t>(b - a, 1)); a = std::max(b, a + 1); } l = m; } ls.push_back(l); } for (size_t k = 0; k < ls.size(); k++) out += ls[k] + (k + 1 < ls.size() || nl ? "\n" : ""); t = out; }
template<class F> static bool attempt(mon::Ctx& c, const char *k, F f) { bool ok = false; try { f(); ok = true; } catch (std::exception& e) { c.count(S("rejected ") + k); } catch (mon::Stop&) { throw; } catch (...) { c.fail(S("exception:") + k, "something which is not a std::exception was thrown"); } if (ok) c.count(S("accepted ") + k); c.obs(); return ok; }
template<class T> static void use(mon::Ctx& c, T& f, const S& k) { int n = f.get_bv_size(); MON_CHECK(c, n > 0, "accepted-empty:" + k, "%s accepted a file but has %d bits", k.c_str(), n); std::ostringstream o; f.display(o); for (int i = 0; i < 4; i++) { BV x = i == 0 ? BV(n, 0) : i == 1 ? BV(n, 1) : rbv(c.rng, n); f.evaluate(x); f.describe(x, o); if (f.provides_incremental_evaluation()) { sparse_bit_vector_t s = {int(c.rng.below(n))}; f.evaluate_incrementally(x, f.evaluate(x), s); } if (f.has_known_maximum()) f.get_maximum(); } }
// Hostile texts: mutated valid texts of every format, fed to every loader
CASES(hostile, 100000, 400000) {
  auto& r = c.rng; S t; std::vector<S> g; int from = r.below(8), to = r.chance(.85) && from < 6 ? from : r.below(6);
  switch (from) { case 0: t = text(r, rcnf(r, 5), r.bit()); break; case 1: t = text(r, rcnf3(r), r.bit()); break; case 2: t = text(r, rqubo(r), r.bit()); break; case 3: t = text(r, rtsp(r), r.bit()); break; case 4: t = sudoku_text(r, g); break; case 5: t = std::to_string(r.next()); break; case 6: break; default: for (int i = r.below(200); i-- > 0;) t += char(r.next()); }
  if (from == to ? r.chance(.97) : r.bit()) mutate(r, t); clip(t); S p = mon::tmpfile("hos"); mon::spit(p, t); c.desc(fmt("format %d to loader %d: ", from, to) + t); random::Generator::set_seed(1); bool ok = false;
  switch (to) {
  case 0: { MaxSat f; if (r.chance(.2)) f.random(5, 2, 4); if ((ok = attempt(c, "cnf", [&] { f.load(p); }))) use(c, f, "cnf"); break; }
  case 1: { MaxNae3Sat f; if ((ok = attempt(c, "nae", [&] { f.load(p); }))) use(c, f, "nae"); break; }
  case 2: { Qubo f; if ((ok = attempt(c, "qubo", [&] { f.load(p); }))) use(c, f, "qubo"); break; }
  case 3: { Tsp f; if ((ok = attempt(c, "tsp", [&] { f.load(p); }))) { int n = f.get_num_elements(); MON_CHECK(c, n > 0, "accepted-empty:tsp", "%d cities", n); permutation_t s(n); for (int j = 0; j < n; j++) s[j] = j; for (int j = n - 1; j > 0; j--) std::swap(s[j], s[r.below(j + 1)]); f.evaluate(s); std::ostringstream o; f.display(o); f.describe(s, o); } break; }
  case 4: { Sudoku f; if ((ok = attempt(c, "sudoku", [&] { f.load(p); }))) { int m = f.get_num_variables(); std::vector<std::size_t> x(m); for (auto& v : x) v = r.below(9); f.evaluate(x); std::ostringstream o; f.display(o); f.describe(x, o); } break; }
  default: { Factorization f; if ((ok = attempt(c, "number", [&] { f.load(p); }))) use(c, f, "number"); } }
  unlink(p.c_str()); c.cover(fmt("%d%d%d", from, to, int(ok)) + t); if (c.idx % 997 == 0) c.sample(t.substr(0, 80));
}
// Texts that break the rules of their format in one place: they are rejected.
CASES(malformed, 3000, 40000) {
  auto& r = c.rng; S p = mon::tmpfile("mal"), why; std::vector<S> ls; auto num = [](long v) { return std::to_string(v); }; auto at = [&](size_t lo) { return lo + r.below(ls.size() - lo); }; auto pick = [&](std::vector<S> v) { return r.pick(v); };
  auto reject = [&](const char *k, auto& f) { S t; for (auto& l : ls) t += l + "\n"; c.desc(S(k) + ", " + why + ": " + t); mon::spit(p, t); bool ok = attempt(c, k, [&] { f.load(p); }); MON_CHECK(c, !ok, S("malformed:") + k, "a file with %s is accepted", why.c_str()); c.cover(S(k) + t); c.count(why); };
  switch (c.idx % 6) {
  case 0: case 1: { bool nae = c.idx % 6; Cnf q = rcnf3(r); int m = q.cl.size(); ls.push_back("p cnf " + num(q.n) + " " + num(m)); for (auto& cl : q.cl) { S l; for (int x : cl) l += num(x) + " "; ls.push_back(l + "0"); } int i = at(1);
    switch (r.below(nae ? 8 : 7)) { case 0: ls.erase(ls.begin()); why = "no problem line"; break; case 1: ls.insert(ls.begin() + 1 + r.below(m + 1), "p cnf " + num(q.n) + " " + num(m)); why = "two problem lines"; break; case 2: ls[0] = "p cnf " + num(q.n) + " " + num(m == 1 || r.bit() ? m + r.range(1, 3) : m - 1); why = "another number of clauses than declared"; break; case 3: ls[i] = num((q.n + r.range(1, 3)) * (r.bit() ? 1 : -1)) + " " + ls[i].substr(ls[i].find(' ') + 1); why = "a literal out of range"; break; case 4: ls[i] = ls[i].substr(0, ls[i].size() - 2); why = "a clause not ended by 0"; break; case 5: ls[i] = (r.bit() ? "x " : "1 -? ") + ls[i]; why = "a literal that is not a number"; break; case 6: ls[0] = pick({"p sat 3 3", "p cnf", "p cnf 5", "p cnf 0 " + num(m), "p cnf -4 " + num(m), "p cnf x " + num(m), "pcnf 4 4"}); why = "a bad problem line"; break; default: ls[i] = r.bit() ? "1 2 -3 1 0" : r.bit() ? "1 -2 0" : "1 0"; why = "a clause without exactly three literals"; }
    if (nae) { MaxNae3Sat f; reject("nae", f); } else { MaxSat f; reject("cnf", f); } break; }
  case 2: { Qb q = rqubo(r); while (q.q.empty()) q = rqubo(r); int d = 0, o = 0; for (auto& e : q.q) (e.first.first == e.first.second ? d : o)++; auto head = [&](int n, int d, int o) { return "p qubo 0 " + num(n) + " " + num(d) + " " + num(o); }; ls.push_back(head(q.n, d, o)); for (auto& e : q.q) ls.push_back(num(e.first.first) + " " + num(e.first.second) + " " + ::num(e.second)); int i = at(1);
    switch (r.below(8)) { case 0: ls.erase(ls.begin()); why = "no problem line"; break; case 1: ls.insert(ls.begin() + 1 + r.below(ls.size()), ls[0]); why = "two problem lines"; break; case 2: ls[0] = r.bit() ? head(q.n, d + 1, o) : r.bit() ? head(q.n, d, o + 1) : o ? head(q.n, d, o - 1) : head(q.n, d - 1, o); why = "another number of elements than declared"; break; case 3: ls[i] = r.bit() ? "0 " + num(q.n + r.below(3)) + " 1" : num(q.n + r.below(3)) + " " + num(q.n + 3) + " 1"; why = "an index out of range"; break; case 4: ls[i] = r.bit() ? "-1 0 1" : "0 -1 1"; why = "a negative index"; break; case 5: if (q.n < 2) { q.n = 3; ls[0] = head(3, d, o); } ls[i] = num(q.n - 1) + " " + num(r.below(q.n - 1)) + " 1"; why = "an element below the diagonal"; break; case 6: ls[i] = pick({"0 0", "0 0 x", "0 0 0", "0", "a 0 1", "0 b 1"}); why = "an element without proper value"; break; default: ls[0] = pick({"p cnf 0 4 1 1", "p qubo 1 4 1 1", "p qubo", "p qubo 0", "p qubo 0 0 0 0", "p qubo 0 -3 1 1", "p qubo 0 3 -1 1", "p qubo 0 3 1 -1", "p qubo 0 3", "p qubo 0 3 1"}); why = "a bad problem line"; }
    Qubo f; reject("qubo", f); break; }
  case 3: { Ts t = rtsp(r); int n = t.x.size(); ls = {"NAME: foo", "COMMENT: bar", "TYPE: TSP", "DIMENSION: " + num(n), "EDGE_WEIGHT_TYPE: " + t.type, "NODE_COORD_SECTION"}; for (int i = 0; i < n; i++) ls.push_back(num(i + 1) + " " + ::num(t.x[i]) + " " + ::num(t.y[i])); ls.push_back("EOF"); int i = 6 + r.below(n);
    switch (r.below(7)) { case 0: ls[2] = pick({"TYPE: ATSP", "TYPE: CVRP", "TYPE: tsp", "TYPE:"}); why = "another type of problem"; if (ls[2] == "TYPE:") ls[2] = "TYPE: SOP"; break; case 1: ls[4] = pick({"EDGE_WEIGHT_TYPE: GEO", "EDGE_WEIGHT_TYPE: CEIL_2D", "EDGE_WEIGHT_TYPE: EXPLICIT", "EDGE_WEIGHT_TYPE: euc_2d"}); why = "an unsupported type of distance"; break; case 2: ls.resize(5); why = "no coordinates"; break; case 3: if (r.bit()) ls.erase(ls.begin() + 3); else ls[3] = pick({"DIMENSION: 0", "DIMENSION: -3", "DIMENSION: x"}); why = "no proper dimension"; break; case 4: ls[i] = num(r.bit() ? 0 : r.bit() ? n + r.range(1, 3) : -1) + ls[i].substr(ls[i].find(' ')); why = "a city out of range"; break; case 5: ls[i] = pick({"1 x 3", "1 3 y", "1 ?"}); why = "a coordinate that is not a number"; break; default: ls.erase(ls.begin() + i); why = "a city without coordinates"; }
    Tsp f; if (r.chance(.3)) { S p2 = mon::tmpfile("ok"); Ts t2 = rtsp(r); if (why != "no proper dimension") { mon::spit(p2, text(r, t2, false)); f.load(p2); unlink(p2.c_str()); } } reject("tsp", f); break; }
  case 4: { std::vector<S> g; sudoku_text(r, g); ls = g; int i = r.below(9); switch (r.below(3)) { case 0: ls[i] = ls[i].substr(0, r.below(9)); why = "a short line"; break; case 1: ls[i][r.below(9)] = r.pick(std::vector<char>{'0', 'a', ' ', '-', '*', ':', '/'}); why = "a bad character"; break; default: ls.resize(r.below(9)); why = "missing lines"; } Sudoku f; reject("sudoku", f); break; }
  default: { S s = std::to_string(1 + r.next()); switch (r.below(3)) { case 0: s = ""; why = "no number"; break; case 1: s[r.below(s.size())] = r.pick(std::vector<char>{'x', 'A', '-', '+', '.', ','}); why = "a number with a character that is not a digit"; if (s[0] == '-') s = "x" + s; break; default: s = pick({"abc", "0x1f", "1e5", "3.5"}); why = "a number with a character that is not a digit"; } ls = {s}; Factorization f; reject("number", f); } }
  unlink(p.c_str());
}
// Archives: missing, empty, truncated at every place, and files of a text format.
template<class T> static void archive(mon::Ctx& c, const char *k, T& f, std::function<void(T&)> after) { auto& r = c.rng; S p = mon::tmpfile("arc"); f.save(p); S t = mon::slurp(p), u; switch (r.below(5)) { case 0: u = ""; break; case 1: u = text(r, rcnf(r, 3), false); break; case 2: u = S(r.range(1, 3), char('0' + r.below(10))); break; default: u = t.substr(0, r.below(t.size())); } mon::spit(p, u); c.desc(S(k) + " archive cut to: " + u); T g; if (attempt(c, k, [&] { g.load(p); })) after(g); unlink(p.c_str()); if (r.chance(.1)) { T h; bool threw = false; try { h.load("/nonexistent/dir/file"); } catch (std::exception&) { threw = true; } MON_CHECK(c, threw, S("missing:") + k, "loading a missing file did not report an error"); } c.cover(S(k) + u); }
CASES(archives, 4000, 40000) {
  auto& r = c.rng; int n = r.range(2, 12); random::Generator::set_seed(r.below(1 << 30)); auto fn = [&](auto& g) { use(c, g, "archive"); }; auto mp = [&](hm::Map& m) { MON_CHECK(c, m.get_input_size() > 0 && m.get_output_size() > 0, "accepted-empty:map", "empty map accepted"); BV y(m.get_output_size(), 0); m.map(rbv(r, m.get_input_size()), y); };
  switch (c.idx % 14) {
  case 0: { LinearFunction f; f.random(n); archive<LinearFunction>(c, "LinearFunction", f, fn); break; }
  case 1: { NkLandscape f; f.random(n, 1); archive<NkLandscape>(c, "NkLandscape", f, fn); break; }
  case 2: { NearestNeighborIsingModel1 f; f.random(n); archive<NearestNeighborIsingModel1>(c, "Ising1", f, fn); break; }
  case 3: { NearestNeighborIsingModel2 f; f.random(n, 3); archive<NearestNeighborIsingModel2>(c, "Ising2", f, fn); break; }
  case 4: { WalshExpansion f; f.random(n, 4); archive<WalshExpansion>(c, "WalshExpansion", f, fn); break; }
  case 5: { WalshExpansion1 f; f.random(n); archive<WalshExpansion1>(c, "WalshExpansion1", f, fn); break; }
  case 6: { WalshExpansion2 f; f.random(n); archive<WalshExpansion2>(c, "WalshExpansion2", f, fn); break; }
  case 7: { EqualProducts f; f.random(n); archive<EqualProducts>(c, "EqualProducts", f, fn); break; }
  case 8: { Partition f; f.random(n, 50); archive<Partition>(c, "Partition", f, fn); break; }
  case 9: { hm::Translation f; f.random(n); archive<hm::Translation>(c, "Translation", f, mp); break; }
  case 10: { hm::Permutation f; f.random(n); archive<hm::Permutation>(c, "Permutation", f, mp); break; }
  case 11: { hm::LinearMap f; f.random(n, n + 1, false); archive<hm::LinearMap>(c, "LinearMap", f, mp); break; }
  case 12: { hm::AffineMap f; f.random(n, n, true); archive<hm::AffineMap>(c, "AffineMap", f, mp); break; }
  default: { hm::TsAffineMap f; f.random(n, 5, r.below(6)); archive<hm::TsAffineMap>(c, "TsAffineMap", f, mp); } }
}
int main(int a, char **v) { return mon::main(a, v); }
