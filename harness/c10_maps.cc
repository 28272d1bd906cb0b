// C10: maps compute what they document; transvection sequences obey their algebra; samplers return members of their kind.
#include "mon.hh"
#include "hnco/maps/map.hh"
#include "hnco/random.hh"
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
using namespace hnco; using mon::fmt; using hnco::map::Transvection; using hnco::map::transvection_sequence_t;
typedef bit_vector_t BV; typedef bit_matrix_t BM; typedef transvection_sequence_t TS;
namespace hm = hnco::map;

static BV rv(mon::Rng& r, int n) { BV x(n); int mode = r.below(4); for (auto& b : x) b = mode == 0 ? r.chance(.1) : mode == 1 ? r.chance(.9) : r.bit(); return x; }
static BV mulref(const BM& m, const BV& x) { BV y(m.size(), 0); for (size_t i = 0; i < m.size(); i++) { int s = 0; for (size_t j = 0; j < x.size(); j++) s += m[i][j] && x[j]; y[i] = s & 1; } return y; }
static BM mulm(const BM& a, const BM& b) { BM c(a.size(), BV(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) { int s = 0; for (size_t k = 0; k < b.size(); k++) s += a[i][k] && b[k][j]; c[i][j] = s & 1; } return c; }
static BV add(BV a, const BV& b) { for (size_t i = 0; i < a.size(); i++) a[i] = (a[i] + b[i]) & 1; return a; }
static int rankref(BM a) { int r = 0, m = a.size(), n = a[0].size(); for (int j = 0; j < n && r < m; j++) { int p = -1; for (int i = r; i < m; i++) if (a[i][j]) p = i; if (p < 0) continue; std::swap(a[p], a[r]); for (int i = 0; i < m; i++) if (i != r && a[i][j]) for (int k = 0; k < n; k++) a[i][k] ^= a[r][k]; r++; } return r; }
static BV image(mon::Ctx& c, hm::Map& m, const BV& x) { BV y(m.get_output_size()); for (auto& b : y) b = c.rng.bit(); BV x0 = x; m.map(x, y); MON_CHECK(c, x == x0, "input-changed", "mapping changed its input"); MON_CHECK(c, int(y.size()) == m.get_output_size(), "output-size", "image has %zu bits instead of %d", y.size(), m.get_output_size()); for (auto b : y) MON_CHECK(c, b == 0 || b == 1, "image-valid", "image contains %d", int(b)); return y; }
// Affine description of a map by probing
struct Affine { BM A; BV b; };
static Affine probe(mon::Ctx& c, hm::Map& m) { int n = m.get_input_size(), p = m.get_output_size(); Affine a; a.b = image(c, m, BV(n, 0)); a.A = BM(p, BV(n, 0)); for (int j = 0; j < n; j++) { BV e(n, 0); e[j] = 1; BV y = add(image(c, m, e), a.b); for (int i = 0; i < p; i++) a.A[i][j] = y[i]; } return a; }
static void is_affine(mon::Ctx& c, hm::Map& m, const Affine& a, const std::string& what) { int n = m.get_input_size(); for (int t = 0; t < 8; t++) { BV x = rv(c.rng, n); BV y = image(c, m, x), z = add(mulref(a.A, x), a.b); MON_CHECK(c, y == z, "affine:" + what, "%s maps %s to %s, expected %s", what.c_str(), mon::showbv(x).c_str(), mon::showbv(y).c_str(), mon::showbv(z).c_str()); MON_CHECK(c, image(c, m, x) == y, "repeat:" + what, "mapping twice gives different images"); } }
static bool zero(const BV& b) { for (auto x : b) if (x) return false; return true; }
// Write an archive with chosen contents, in the format of the map classes (skipped if the library does not take it).
struct M1 { const BM& m; template<class A> void serialize(A& a, unsigned) { a & const_cast<BM&>(m); } };
struct M2 { const BM& m; const BV& b; template<class A> void serialize(A& a, unsigned) { a & const_cast<BM&>(m); a & const_cast<BV&>(b); } };
struct P1 { const std::vector<int>& p; template<class A> void serialize(A& a, unsigned) { a & const_cast<std::vector<int>&>(p); } };
struct T2 { const BV& b; const TS& t; template<class A> void serialize(A& a, unsigned) { a & const_cast<BV&>(b); a & const_cast<TS&>(t); } };
template<class Mir, class Map> static bool implant(mon::Ctx& c, const Mir& mir, Map& m) { std::string p = mon::tmpfile("map"); { std::ofstream o(p); boost::archive::text_oarchive ar(o); ar << mir; } bool ok = true; try { m.load(p); } catch (std::exception&) { ok = false; } unlink(p.c_str()); c.count(ok ? "archives implanted" : "archives not taken"); return ok; }
static BM rank_matrix(mon::Rng& r, int m, int n) { switch (r.below(4)) { case 0: { int k = r.range(1, std::min(m, n)); BM a(m), b(k); for (auto& x : a) x = rv(r, k); for (auto& x : b) x = rv(r, n); return mulm(a, b); } case 1: { BM a(m, BV(n, 0)); for (int i = 0; i < std::min(m, n); i++) a[i][i] = 1; for (int t = 0; t < 4 * m; t++) { int i = r.below(m), j = r.below(m); if (i != j) a[i] = add(a[i], a[j]); } if (r.chance(.3)) a[r.below(m)] = BV(n, 0); return a; } case 2: { BM a(m); for (auto& x : a) x = rv(r, n); if (m > 1) a[r.below(m)] = a[r.below(m)]; return a; } default: { BM a(m); for (auto& x : a) x = rv(r, n); return a; } } }
// Surjectivity by enumerating the image (small sizes)
static bool onto(mon::Ctx& c, hm::Map& m) { int n = m.get_input_size(), p = m.get_output_size(); std::set<BV> s; for (long k = 0; k < (1l << n); k++) { BV x(n); for (int i = 0; i < n; i++) x[i] = k >> i & 1; s.insert(image(c, m, x)); } return long(s.size()) == (1l << p); }

CASES(maps, 12000, 20000) {
  auto& r = c.rng; random::Generator::set_seed(r.below(1u << 30)); int big = r.chance(.2) ? 60 : r.chance(.006) ? 200 : 10; int n = r.range(1, big), p = r.chance(.4) ? n : r.range(1, big); std::string k;
  switch (c.idx % 8) {
  case 0: { k = "Translation"; c.desc(fmt("Translation n=%d", n)); hm::Translation m; if (r.bit()) m.random(r.range(1, 20)); if (r.bit()) m.random(n); else m.set_bv(rv(r, n)); MON_CHECK(c, m.get_input_size() == n && m.get_output_size() == n, "size:" + k, "size"); BV b = image(c, m, BV(n, 0)); BV b2 = rv(r, n); if (r.bit()) { m.set_bv(b2); b = image(c, m, BV(n, 0)); MON_CHECK(c, b == b2, "set_bv", "translation by %s maps zero to %s", mon::showbv(b2).c_str(), mon::showbv(b).c_str()); } for (int t = 0; t < 8; t++) { BV x = rv(r, n); MON_CHECK(c, image(c, m, x) == add(x, b), "translation", "not a translation"); } MON_CHECK(c, m.is_surjective(), "surjective:" + k, "translation not surjective"); c.cover(k + mon::showbv(b)); break; }
  case 1: { k = "Permutation"; c.desc(fmt("Permutation n=%d", n)); hm::Permutation m; if (r.bit()) m.random(r.range(1, 20)); m.random(n); std::vector<int> q(n); for (int i = 0; i < n; i++) q[i] = i; for (int i = n - 1; i > 0; i--) std::swap(q[i], q[r.below(i + 1)]); bool known = r.bit() && implant(c, P1{q}, m); MON_CHECK(c, m.get_input_size() == n && m.get_output_size() == n, "size:" + k, "size"); Affine a = probe(c, m); MON_CHECK(c, zero(a.b), "permutation", "zero not fixed"); std::set<int> cols; std::vector<int> s(n, -1); for (int i = 0; i < n; i++) { int w = 0; for (int j = 0; j < n; j++) if (a.A[i][j]) { w++; s[i] = j; } MON_CHECK(c, w == 1, "permutation", "output bit %d depends on %d input bits", i, w); cols.insert(s[i]); } MON_CHECK(c, int(cols.size()) == n, "permutation", "not a permutation"); if (known) MON_CHECK(c, s == q, "permutation-direction", "permutation %s acts as %s", mon::show(q).c_str(), mon::show(s).c_str()); is_affine(c, m, a, k); MON_CHECK(c, m.is_surjective(), "surjective:" + k, "permutation not surjective"); c.cover(k + mon::show(s)); break; }
  case 2: case 3: { bool lin = c.idx % 8 == 2; k = lin ? "LinearMap" : "AffineMap"; bool sur = r.bit(); int rows = p, cols = n; if (r.chance(.15)) { rows = cols = n; sur = true; } c.desc(k + fmt(" %dx%d surjective=%d", rows, cols, int(sur))); std::shared_ptr<hm::Map> m; hm::LinearMap *L = nullptr; hm::AffineMap *A = nullptr; if (lin) m.reset(L = new hm::LinearMap); else m.reset(A = new hm::AffineMap); bool threw = false; try { if (r.bit()) { int a = r.range(1, 9), b = r.range(1, 9); if (L) L->random(a, b, false); else A->random(a, b, false); } if (L) L->random(rows, cols, sur); else A->random(rows, cols, sur); } catch (std::runtime_error&) { threw = true; } MON_CHECK(c, threw == (sur && rows > cols), "random-throw:" + k, "random(%d,%d,%d) %s", rows, cols, int(sur), threw ? "threw" : "did not throw"); if (threw) { c.count("rejected"); break; }
    MON_CHECK(c, m->get_input_size() == cols && m->get_output_size() == rows, "size:" + k, "sizes %d -> %d", m->get_input_size(), m->get_output_size()); Affine a = probe(c, *m); if (lin) MON_CHECK(c, zero(a.b), "linear", "linear map does not fix zero"); is_affine(c, *m, a, k); int rk = rankref(a.A); MON_CHECK(c, m->is_surjective() == (rk == rows), "surjective:" + k, "%dx%d of rank %d: is_surjective()=%d", rows, cols, rk, int(m->is_surjective())); if (sur) MON_CHECK(c, rk == rows, "random-surjective:" + k, "random surjective %dx%d has rank %d", rows, cols, rk); if (cols <= 8 && rows <= 8) { MON_CHECK(c, onto(c, *m) == m->is_surjective(), "surjective:" + k, "surjectivity by enumeration differs"); c.count("enumerated images"); } c.cover(k + fmt("%d/%d/%d", rows, cols, rk)); break; }
  case 4: { bool lin = r.bit(); k = lin ? "LinearMap" : "AffineMap"; BM M = rank_matrix(r, p, n); BV b = rv(r, p); int rk = rankref(M); c.desc(k + fmt(" %dx%d of rank %d", p, n, rk)); hm::LinearMap L; hm::AffineMap A; if (r.bit()) { L.random(3, 4, false); A.random(2, 5, false); } hm::Map *m = lin ? (hm::Map *)&L : &A; bool ok = lin ? implant(c, M1{M}, L) : implant(c, M2{M, b}, A); if (!ok) break; MON_CHECK(c, m->get_input_size() == n && m->get_output_size() == p, "size:" + k, "sizes"); for (int t = 0; t < 8; t++) { BV x = rv(r, n); BV y = mulref(M, x); if (!lin) y = add(y, b); BV z = image(c, *m, x); MON_CHECK(c, y == z, "image:" + k, "%s maps to %s, expected %s", mon::showbv(x).c_str(), mon::showbv(z).c_str(), mon::showbv(y).c_str()); } MON_CHECK(c, m->is_surjective() == (rk == p), "surjective:" + k, "%dx%d of rank %d: is_surjective()=%d", p, n, rk, int(m->is_surjective())); c.cover(k + fmt("%d/%d/%d", p, n, rk)); break; }
  case 5: { k = "Injection"; int out = n + r.below(10); if (r.chance(.3)) out = n; std::vector<int> pos(out); for (int i = 0; i < out; i++) pos[i] = i; for (int i = out - 1; i > 0; i--) std::swap(pos[i], pos[r.below(i + 1)]); pos.resize(n); c.desc(fmt("Injection/Projection %d,%d", n, out)); hm::Injection inj(pos, out); hm::Projection pro(pos, out); MON_CHECK(c, inj.get_input_size() == n && inj.get_output_size() == out, "size:Injection", "sizes"); MON_CHECK(c, pro.get_input_size() == out && pro.get_output_size() == n, "size:Projection", "sizes"); hm::MapComposition pi(&pro, &inj); MON_CHECK(c, pi.get_input_size() == n && pi.get_output_size() == n, "size:MapComposition", "sizes");
    for (int t = 0; t < 8; t++) { BV x = rv(r, n); BV y(out, 0); inj.map(x, y); for (int j = 0; j < n; j++) MON_CHECK(c, y[pos[j]] == x[j], "injection", "bit %d not at position %d", j, pos[j]); BV z = rv(r, out); BV w = image(c, pro, z); for (int j = 0; j < n; j++) MON_CHECK(c, w[j] == z[pos[j]], "projection", "output bit %d is not input bit %d", j, pos[j]); MON_CHECK(c, image(c, pi, x) == x, "projection-injection", "projection after injection is not the identity"); }
    MON_CHECK(c, inj.is_surjective() == (out == n), "surjective:Injection", "is_surjective()=%d for %d -> %d", int(inj.is_surjective()), n, out); MON_CHECK(c, pro.is_surjective(), "surjective:Projection", "projection not surjective"); if (out <= 8) MON_CHECK(c, onto(c, pro), "surjective:Projection", "projection not onto"); if (n > 1) { bool t1 = false, t2 = false; try { hm::Injection x(pos, n - 1); } catch (std::runtime_error&) { t1 = true; } try { hm::Projection x(pos, n - 1); } catch (std::runtime_error&) { t2 = true; } MON_CHECK(c, t1 && t2, "bad-size", "wrong sizes accepted by Injection (%d) or Projection (%d)", !t1, !t2); } c.cover(k + mon::show(pos)); break; }
  case 6: { k = "MapComposition"; n = r.range(1, 7); int depth = r.range(2, 5); c.desc(fmt("composition of %d maps", depth)); std::vector<std::unique_ptr<hm::Map>> own; std::vector<hm::Map *> chain; hm::Map *cur = nullptr; int size = n; for (int d = 0; d < depth; d++) { hm::Map *m; switch (r.below(5)) { case 0: { auto t = new hm::Translation; t->random(size); m = t; break; } case 1: { auto t = new hm::Permutation; t->random(size); m = t; break; } case 2: { auto t = new hm::LinearMap; t->random(r.range(1, 7), size, false); m = t; break; } case 3: { auto t = new hm::AffineMap; t->random(r.range(1, 7), size, false); m = t; break; } default: { if (size < 2) { auto t = new hm::Translation; t->random(size); m = t; break; } auto t = new hm::TsAffineMap; t->random(size, r.below(9), r.below(6)); m = t; } } own.emplace_back(m); chain.push_back(m); size = m->get_output_size(); if (cur) { auto comp = new hm::MapComposition(m, cur); own.emplace_back(comp); cur = comp; } else cur = m; }
    MON_CHECK(c, cur->get_input_size() == n && cur->get_output_size() == size, "size:" + k, "sizes"); for (int t = 0; t < 8; t++) { BV x = rv(r, n), y = x; for (auto m : chain) y = image(c, *m, y); BV z = image(c, *cur, x); MON_CHECK(c, y == z, "composition", "composition maps to %s, chain to %s", mon::showbv(z).c_str(), mon::showbv(y).c_str()); } bool on = onto(c, *cur); if (cur->is_surjective()) MON_CHECK(c, on, "surjective:" + k, "reported surjective but is not"); bool all = true; for (auto m : chain) { bool s = m->is_surjective(); all = all && s; MON_CHECK(c, s == onto(c, *m), "surjective:member", "is_surjective()=%d differs from enumeration", int(s)); } if (all) MON_CHECK(c, cur->is_surjective(), "surjective:" + k, "composition of surjective maps not reported surjective"); c.count(on ? "onto" : "not onto"); c.cover(k + fmt("%d/%d/%d", depth, n, size)); break; }
  default: { k = "TsAffineMap"; n = r.range(2, big + 1); int t = r.below(3) ? r.range(0, 2 * n) : r.range(0, 200), mode = r.below(6); bool known = r.chance(.4); c.desc(fmt("TsAffineMap n=%d t=%d mode=%d implanted=%d", n, t, mode, int(known))); hm::TsAffineMap m; if (r.bit()) m.random(r.range(2, 9), 5, r.below(6)); mon::Capture cap(std::cerr); m.random(n, t, mode); BM M(n, BV(n, 0)); for (int i = 0; i < n; i++) M[i][i] = 1; TS ts; BV b = rv(r, n); if (known) { for (int i = 0; i < t; i++) { int a = r.below(n), q = (a + 1 + r.below(n - 1)) % n; Transvection tv; tv.row_index = a; tv.column_index = q; ts.push_back(tv); M[a] = add(M[a], M[q]); } known = implant(c, T2{b, ts}, m); }
    MON_CHECK(c, m.get_input_size() == n && m.get_output_size() == n, "size:" + k, "sizes"); Affine a = probe(c, m); is_affine(c, m, a, k); MON_CHECK(c, rankref(a.A) == n && m.is_surjective(), "surjective:" + k, "not invertible (rank %d of %d) or not reported so", rankref(a.A), n); if (known) MON_CHECK(c, a.A == M && a.b == b, "sequence:" + k, "the map is not the product of its transvections");
    hm::TsAffineMap inv = m; inv.invert(); for (int q = 0; q < 8; q++) { BV x = rv(r, n); MON_CHECK(c, image(c, inv, image(c, m, x)) == x && image(c, m, image(c, inv, x)) == x, "invert", "inverse of the map does not undo it (n=%d, t=%d, mode %d)", n, t, mode); } inv.invert(); for (int q = 0; q < 4; q++) { BV x = rv(r, n); MON_CHECK(c, image(c, inv, x) == image(c, m, x), "invert-twice", "inverting twice is not the identity"); } c.count(fmt("mode%d", mode)); c.cover(k + fmt("%d/%d/%d/%s", n, t, mode, mon::showbv(a.b).c_str())); } }
  c.count(k); c.sample(k);
}
static std::string shts(const TS& t) { std::ostringstream o; for (auto& x : t) o << "(" << x.row_index << "," << x.column_index << ")"; return o.str(); }
static BM tvm(int n, const Transvection& t) { BM M(n, BV(n, 0)); for (int i = 0; i < n; i++) M[i][i] = 1; M[t.row_index][t.column_index] = 1; return M; }
CASES(transvections, 10000, 16000) {
  auto& r = c.rng; random::Generator::set_seed(r.below(1u << 30)); int n = r.chance(.2) ? r.range(2, 40) : r.chance(.004) ? r.range(65, 150) : r.range(2, 8); int kind = c.idx % 6; int t = r.chance(.1) ? 0 : r.chance(.3) ? r.range(1, n * n / 2 + 3) : r.range(1, 2 * n); TS ts; if (r.bit()) hm::ts_random(ts, r.range(2, 9), r.range(0, 12)); const char *names[] = {"random", "commuting", "unique_source", "unique_destination", "disjoint", "non_commuting"}; c.desc(fmt("ts_random_%s n=%d t=%d", names[kind], n, t)); int want = t;
  { mon::Capture cap(std::cerr); switch (kind) { case 0: hm::ts_random(ts, n, t); break; case 1: hm::ts_random_commuting(ts, n, t); want = std::min(t, n * n / 4); break; case 2: hm::ts_random_unique_source(ts, n, t); want = std::min(t, n - 1); break; case 3: hm::ts_random_unique_destination(ts, n, t); want = std::min(t, n - 1); break; case 4: hm::ts_random_disjoint(ts, n, t); want = std::min(t, n / 2); break; default: hm::ts_random_non_commuting(ts, n, t); } }
  std::string k = names[kind]; MON_CHECK(c, int(ts.size()) == want, "length:" + k, "n=%d t=%d: sequence of length %zu, expected %d", n, t, ts.size(), want); for (auto& x : ts) MON_CHECK(c, x.row_index >= 0 && x.row_index < n && x.column_index >= 0 && x.column_index < n && x.row_index != x.column_index, "valid:" + k, "invalid transvection in %s for n=%d", shts(ts).c_str(), n); MON_CHECK(c, hm::ts_is_valid(ts) && hm::ts_is_valid(ts, n), "ts_is_valid", "valid sequence %s reported invalid", shts(ts).c_str());
  // relations between members, by matrices on small sizes
  for (size_t i = 0; i < ts.size() && n <= 8; i++) for (size_t j = 0; j < ts.size(); j++) { auto &a = ts[i], &b = ts[j]; BM A = tvm(n, a), B = tvm(n, b); bool comm = mulm(A, B) == mulm(B, A); std::set<int> u = {a.row_index, a.column_index, b.row_index, b.column_index}; MON_CHECK(c, hm::transvections_commute(a, b) == comm, "commute", "commute((%d,%d),(%d,%d))", a.row_index, a.column_index, b.row_index, b.column_index); MON_CHECK(c, hm::transvections_are_disjoint(a, b) == (u.size() == 4), "disjoint", "disjoint((%d,%d),(%d,%d))", a.row_index, a.column_index, b.row_index, b.column_index); if (kind == 1) MON_CHECK(c, comm, "kind:commuting", "%s", shts(ts).c_str()); if (kind == 4 && i != j) MON_CHECK(c, u.size() == 4, "kind:disjoint", "%s", shts(ts).c_str()); if (kind == 5 && j == i + 1) MON_CHECK(c, !comm, "kind:non_commuting", "%s", shts(ts).c_str()); }
  if (kind == 1 || kind == 4) { std::set<std::pair<int, int>> u; for (auto& x : ts) u.insert({x.row_index, x.column_index}); MON_CHECK(c, u.size() == ts.size(), "distinct:" + k, "repeated transvection in %s", shts(ts).c_str()); for (size_t i = 0; i < ts.size() && n > 8; i++) for (size_t j = 0; j < i; j++) { auto &a = ts[i], &b = ts[j]; bool bad = a.row_index == b.column_index || b.row_index == a.column_index || (kind == 4 && (a.row_index == b.row_index || a.column_index == b.column_index)); MON_CHECK(c, !bad, "kind:" + k, "%s", shts(ts).c_str()); } }
  if (kind == 5 && n > 8) for (size_t i = 1; i < ts.size(); i++) MON_CHECK(c, ts[i].row_index == ts[i - 1].column_index || ts[i - 1].row_index == ts[i].column_index, "kind:non_commuting", "%s", shts(ts).c_str());
  if (kind == 2) { std::map<int, int> src; for (auto& x : ts) { auto it = src.find(x.row_index); MON_CHECK(c, it == src.end() || it->second == x.column_index, "kind:unique_source", "destination %d has two sources in %s", x.row_index, shts(ts).c_str()); src[x.row_index] = x.column_index; } }
  if (kind == 3) { std::map<int, int> dst; for (auto& x : ts) { auto it = dst.find(x.column_index); MON_CHECK(c, it == dst.end() || it->second == x.row_index, "kind:unique_destination", "source %d has two destinations in %s", x.column_index, shts(ts).c_str()); dst[x.column_index] = x.row_index; } }
  // product and inverse
  BM P(n, BV(n, 0)); for (int i = 0; i < n; i++) P[i][i] = 1; for (auto& x : ts) P[x.row_index] = add(P[x.row_index], P[x.column_index]); // left multiplications in order
  TS inv = ts; hm::ts_invert(inv); for (int q = 0; q < 4; q++) { BV x = rv(r, n), y = x; hm::ts_multiply(y, ts); MON_CHECK(c, y == mulref(P, x), "product", "%s maps %s to %s", shts(ts).c_str(), mon::showbv(x).c_str(), mon::showbv(y).c_str()); BV z = x; for (auto& tv : ts) tv.multiply(z); MON_CHECK(c, z == y, "product", "sequence and elements one by one differ"); hm::ts_multiply(y, inv); MON_CHECK(c, y == x, "inverse", "ts_invert does not undo %s", shts(ts).c_str()); }
  int cols = r.range(1, 9); BM X(n); for (auto& row : X) row = rv(r, cols); BM Y = X; hm::ts_multiply(Y, ts); MON_CHECK(c, Y == mulm(P, X), "product-matrix", "%s times a matrix", shts(ts).c_str()); hm::ts_multiply(Y, inv); MON_CHECK(c, Y == X, "inverse-matrix", "ts_invert does not undo %s on matrices", shts(ts).c_str()); if (!ts.empty()) { auto tv = ts[r.below(ts.size())]; BM Z = X; tv.multiply(Z); MON_CHECK(c, Z == mulm(tvm(n, tv), X), "tv-matrix", "(%d,%d)", tv.row_index, tv.column_index); BV v = rv(r, n), w = v; tv.multiply(w); MON_CHECK(c, w == mulref(tvm(n, tv), v), "tv-vector", "(%d,%d)", tv.row_index, tv.column_index); Transvection u; u.random_non_commuting(n, tv); MON_CHECK(c, u.row_index != u.column_index && std::max(u.row_index, u.column_index) < n && std::min(u.row_index, u.column_index) >= 0 && mulm(tvm(n, u), tvm(n, tv)) != mulm(tvm(n, tv), tvm(n, u)), "random_non_commuting", "(%d,%d) given (%d,%d), n=%d", u.row_index, u.column_index, tv.row_index, tv.column_index, n); TS bad = ts; int w2 = r.below(ts.size()); switch (r.below(4)) { case 0: bad[w2].row_index = bad[w2].column_index; MON_CHECK(c, !hm::ts_is_valid(bad) && !hm::ts_is_valid(bad, n), "ts_is_valid", "i=j accepted"); break; case 1: bad[w2].row_index = -1; MON_CHECK(c, !hm::ts_is_valid(bad) && !hm::ts_is_valid(bad, n), "ts_is_valid", "negative row accepted"); break; case 2: bad[w2].column_index = -1; MON_CHECK(c, !hm::ts_is_valid(bad) && !hm::ts_is_valid(bad, n), "ts_is_valid", "negative column accepted"); break; default: (r.bit() ? bad[w2].row_index : bad[w2].column_index) = n; MON_CHECK(c, !hm::ts_is_valid(bad, n), "ts_is_valid", "index n accepted"); } }
  c.count(k); c.cover(k + fmt("%d/%d/", n, t) + shts(ts).substr(0, 100)); c.sample(shts(ts));
}
// Random members are drawn from the whole kind: uniform transvections, permutations, translations; every member of small kinds occurs.
CASES(laws, 56, 100) {
  auto& r = c.rng; random::Generator::set_seed(r.below(1u << 30)); const int N = 24000;
  switch (c.idx % 7) {
  case 0: { int n = r.range(2, 5); c.desc(fmt("law of Transvection::random n=%d", n)); std::map<std::pair<int, int>, int> h; for (int i = 0; i < N; i++) { Transvection t; t.random(n); h[{t.row_index, t.column_index}]++; } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) MON_CHECK(c, mon::plausible_binomial(N, 1. / (n * (n - 1)), h[{i, j}]), "law:transvection", "(%d,%d) drawn %d times in %d", i, j, h[{i, j}], N); break; }
  case 1: { int n = r.range(2, 4); c.desc(fmt("law of Permutation::random n=%d", n)); std::map<BV, int> h; long f = 1; for (int i = 2; i <= n; i++) f *= i; for (int i = 0; i < N; i++) { hm::Permutation p; p.random(n); BV s; for (int j = 0; j < n; j++) { BV e(n, 0), y(n); e[j] = 1; p.map(e, y); for (int k = 0; k < n; k++) if (y[k]) s.push_back(k); } h[s]++; } MON_CHECK(c, long(h.size()) == f, "law:permutation", "%zu permutations drawn out of %ld", h.size(), f); for (auto& q : h) MON_CHECK(c, mon::plausible_binomial(N, 1. / f, q.second), "law:permutation", "a permutation drawn %d times in %d", q.second, N); break; }
  case 2: { int n = r.range(1, 4); c.desc(fmt("law of Translation::random n=%d", n)); std::map<BV, int> h; for (int i = 0; i < N; i++) { hm::Translation t; t.random(n); BV y(n); t.map(BV(n, 0), y); h[y]++; } for (auto& q : h) MON_CHECK(c, mon::plausible_binomial(N, 1. / (1 << n), q.second), "law:translation", "a translation drawn %d times in %d", q.second, N); MON_CHECK(c, h.size() == size_t(1 << n), "law:translation", "%zu translations", h.size()); break; }
  case 3: { c.desc("law of LinearMap::random 2x2 surjective"); std::map<std::string, int> h; for (int i = 0; i < N; i++) { hm::LinearMap m; m.random(2, 2, true); std::string s; for (int j = 0; j < 2; j++) { BV e(2, 0), y(2); e[j] = 1; m.map(e, y); s += char('0' + y[0]); s += char('0' + y[1]); } h[s]++; } MON_CHECK(c, h.size() == 6, "law:linear", "%zu invertible 2x2 matrices drawn", h.size()); for (auto& q : h) MON_CHECK(c, mon::plausible_binomial(N, 1. / 6, q.second), "law:linear", "%s drawn %d times in %d", q.first.c_str(), q.second, N); break; }
  case 4: { c.desc("support of commuting sequences n=4 t=1..4"); int t = r.range(1, 4); std::set<std::pair<int, int>> h; for (int i = 0; i < 4000; i++) { TS ts; hm::ts_random_commuting(ts, 4, t); for (auto& x : ts) h.insert({x.row_index, x.column_index}); } MON_CHECK(c, h.size() == 12, "support:commuting", "only %zu of 12 transvections occur", h.size()); break; }
  case 5: { int n = r.range(3, 5), t = r.range(1, n - 1); c.desc(fmt("support of unique source/destination sequences n=%d t=%d", n, t)); std::set<std::pair<int, int>> h, g, d; for (int i = 0; i < 6000; i++) { TS ts; hm::ts_random_unique_source(ts, n, t); for (auto& x : ts) h.insert({x.row_index, x.column_index}); hm::ts_random_unique_destination(ts, n, t); for (auto& x : ts) g.insert({x.row_index, x.column_index}); hm::ts_random_disjoint(ts, n, 1); for (auto& x : ts) d.insert({x.row_index, x.column_index}); } MON_CHECK(c, int(h.size()) == n * (n - 1) && int(g.size()) == n * (n - 1) && int(d.size()) == n * (n - 1), "support:unique", "%zu, %zu and %zu of %d transvections occur", h.size(), g.size(), d.size(), n * (n - 1)); break; }
  default: { int n = r.range(3, 6); Transvection a; a.random(n); c.desc(fmt("support of random_non_commuting n=%d", n)); std::set<std::pair<int, int>> h; for (int i = 0; i < 6000; i++) { Transvection b; b.random_non_commuting(n, a); h.insert({b.row_index, b.column_index}); } MON_CHECK(c, int(h.size()) == 2 * (n - 1) - 1, "support:non_commuting", "%zu of %d", h.size(), 2 * (n - 1) - 1); } }
  c.cover(fmt("%ld", c.idx));
}
int main(int a, char **v) { return mon::main(a, v); }
