// C09: linear algebra over F2 agrees with an independent reference implementation.
#include "mon.hh"
#include "hnco/bit-matrix.hh"
#include "hnco/random.hh"
#include <bitset>
#include <set>
using namespace hnco; using mon::fmt;
typedef bit_vector_t BV; typedef bit_matrix_t BM; typedef std::bitset<640> Row; typedef std::vector<Row> Ref;

static std::string show(const BM& m) { std::string s = fmt("%zux%zu[", m.size(), m.empty() ? size_t(0) : m[0].size()); for (auto& r : m) { for (auto b : r) s += b ? '1' : '0'; s += ';'; } return s + "]"; }
static Ref toref(const BM& m) { Ref R(m.size()); for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[i].size(); j++) R[i][j] = m[i][j]; return R; }
// Rank by column-basis elimination (basis indexed by leading bit, other algorithm than the library's)
static int rank(const Ref& m) { std::vector<Row> basis(640); std::vector<char> has(640, 0); int r = 0; for (Row v : m) { for (int j = 639; j >= 0; j--) if (v[j]) { if (!has[j]) { has[j] = 1; basis[j] = v; r++; v.reset(); break; } v ^= basis[j]; } } return r; }
static BV mul(const BM& m, const BV& x) { BV y(m.size(), 0); for (size_t i = 0; i < m.size(); i++) { int s = 0; for (size_t j = 0; j < x.size(); j++) s += m[i][j] && x[j]; y[i] = s & 1; } return y; }
static BM mulm(const BM& a, const BM& b) { BM c(a.size(), BV(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) { int s = 0; for (size_t k = 0; k < b.size(); k++) s += a[i][k] && b[k][j]; c[i][j] = s & 1; } return c; }
static BM trans(const BM& a) { BM c(a[0].size(), BV(a.size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) c[j][i] = a[i][j]; return c; }
static bool ident(const BM& a) { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) if (a[i][j] != (i == j)) return false; return a.size() == a[0].size(); }
static bool upper(const BM& a) { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size() && j < i; j++) if (a[i][j]) return false; return true; }
static bool echelon(const BM& a) { int last = -1; bool zero = false; for (auto& r : a) { int lead = -1; for (size_t j = 0; j < r.size(); j++) if (r[j]) { lead = j; break; } if (lead < 0) { zero = true; continue; } if (zero || lead <= last) return false; last = lead; } return true; }
static BV rv(mon::Rng& r, int n) { BV x(n); int mode = r.below(4); for (auto& b : x) b = mode == 0 ? r.chance(.1) : mode == 1 ? r.chance(.9) : r.bit(); return x; }
static BM rm(mon::Rng& r, int m, int n) { BM a(m); for (auto& x : a) x = rv(r, n); return a; }

static void everything(mon::Ctx& c, const BM& M, mon::Rng& r) {
  int m = M.size(), n = M[0].size(); int rk = rank(toref(M)); std::string tag = fmt("%dx%d/r%d", m, n, rk);
  MON_CHECK(c, bm_num_rows(M) == m && bm_num_columns(M) == n, "size", "bm_num_rows=%d bm_num_columns=%d of %s", bm_num_rows(M), bm_num_columns(M), show(M).c_str());
  MON_CHECK(c, bm_is_square(M) == (m == n), "is-square", "%s", show(M).c_str()); MON_CHECK(c, bm_is_valid(M), "is-valid", "%s reported invalid", show(M).c_str());
  MON_CHECK(c, bm_is_identity(M) == ident(M), "is-identity", "%s", show(M).c_str()); MON_CHECK(c, bm_is_upper_triangular(M) == upper(M), "is-upper", "%s", show(M).c_str());
  BM T = bm_transpose(M); MON_CHECK(c, T == trans(M), "transpose", "transpose of %s is %s", show(M).c_str(), show(T).c_str()); BM T2 = bm_rectangular(n, m); bm_transpose(T2, M); MON_CHECK(c, T2 == trans(M), "transpose", "transpose (in place) of %s is %s", show(M).c_str(), show(T2).c_str());
  { BM E = M; bm_row_echelon_form(E); MON_CHECK(c, int(E.size()) == m && echelon(E), "echelon", "echelon form of %s is %s", show(M).c_str(), show(E).c_str()); MON_CHECK(c, rank(toref(E)) == rk, "echelon-rank", "echelon form of %s has another rank: %s", show(M).c_str(), show(E).c_str()); Ref S = toref(M); for (auto& x : toref(E)) S.push_back(x); MON_CHECK(c, rank(S) == rk, "echelon-space", "echelon form of %s spans another space: %s", show(M).c_str(), show(E).c_str()); MON_CHECK(c, bm_rank(E) == rk, "rank", "rank of %s: %d, expected %d", show(M).c_str(), bm_rank(E), rk); }
  for (int t = 0; t < 3; t++) { BV x = rv(r, n), y(m); for (auto& b : y) b = r.bit(); bm_multiply(y, M, x); MON_CHECK(c, y == mul(M, x), "multiply", "%s times %s gives %s", show(M).c_str(), mon::showbv(x).c_str(), mon::showbv(y).c_str()); }
  // elementary operations
  { BM A = M; int i = r.below(m), j = r.below(m); bm_swap_rows(A, i, j); BM B = M; std::swap(B[i], B[j]); MON_CHECK(c, A == B, "swap-rows", "swap rows %d,%d of %s gives %s", i, j, show(M).c_str(), show(A).c_str()); }
  if (m > 1) { BM A = M; int i = r.below(m), j = (i + 1 + r.below(m - 1)) % m; bm_add_rows(A, i, j); BM B = M; for (int k = 0; k < n; k++) B[i][k] = (M[i][k] + M[j][k]) & 1; MON_CHECK(c, A == B, "add-rows", "row %d += row %d of %s gives %s", i, j, show(M).c_str(), show(A).c_str()); }
  if (n > 1) { BM A = M; int i = r.below(n), j = (i + 1 + r.below(n - 1)) % n; bm_add_columns(A, i, j); BM B = M; for (int k = 0; k < m; k++) B[k][i] = (M[k][i] + M[k][j]) & 1; MON_CHECK(c, A == B, "add-columns", "column %d += column %d of %s gives %s", i, j, show(M).c_str(), show(A).c_str()); }
  { BM A = M; int j = r.below(n); BV v = rv(r, m); bm_set_column(A, j, v); BM B = M; for (int k = 0; k < m; k++) B[k][j] = v[k]; MON_CHECK(c, A == B, "set-column", "column %d of %s set to %s gives %s", j, show(M).c_str(), mon::showbv(v).c_str(), show(A).c_str()); }
  if (m == n) {
    std::vector<BV> rhs; if (n <= 4) for (int k = 0; k < (1 << n); k++) { BV b(n); for (int i = 0; i < n; i++) b[i] = k >> i & 1; rhs.push_back(b); } else for (int t = 0; t < 3; t++) rhs.push_back(t == 0 ? mul(M, rv(r, n)) : rv(r, n));
    for (auto& b : rhs) {
      BM A = M; BV x = b; bool ok = bm_solve(A, x); MON_CHECK(c, ok == (rk == n), "solvable", "bm_solve of %s, %s returns %d but the rank is %d", show(M).c_str(), mon::showbv(b).c_str(), int(ok), rk); if (ok) MON_CHECK(c, mul(M, x) == b, "solution", "bm_solve of %s, %s gives %s", show(M).c_str(), mon::showbv(b).c_str(), mon::showbv(x).c_str());
      if (upper(M)) { BM A2 = M; BV x2 = b; bool ok2 = bm_solve_upper_triangular(A2, x2); MON_CHECK(c, ok2 == (rk == n), "upper-solvable", "bm_solve_upper_triangular of %s, %s returns %d but the rank is %d", show(M).c_str(), mon::showbv(b).c_str(), int(ok2), rk); if (ok2) MON_CHECK(c, mul(M, x2) == b, "upper-solution", "bm_solve_upper_triangular of %s, %s gives %s", show(M).c_str(), mon::showbv(b).c_str(), mon::showbv(x2).c_str()); c.count("upper triangular systems"); }
    }
    BM A = M, N = rm(r, n, n); bool inv = bm_invert(A, N); MON_CHECK(c, inv == (rk == n), "invertible", "bm_invert of %s returns %d but the rank is %d", show(M).c_str(), int(inv), rk); if (inv) { MON_CHECK(c, ident(mulm(M, N)) && ident(mulm(N, M)), "inverse", "bm_invert of %s gives %s", show(M).c_str(), show(N).c_str()); c.count("inverted"); } else c.count("singular");
  }
  c.cover(tag); c.sample(show(M));
}
static const int TINY[][2] = {{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {1, 8}, {8, 1}, {2, 4}, {4, 2}, {3, 3}};
// Every matrix of the tiny sizes (1574 matrices, all right-hand sides for the square ones)
CASES(exhaustive, 1574, 1574) { long k = c.idx; for (auto& s : TINY) { long N = 1l << (s[0] * s[1]); if (k < N) { BM M(s[0], BV(s[1])); for (int i = 0; i < s[0] * s[1]; i++) M[i / s[1]][i % s[1]] = k >> i & 1; c.desc("all tiny matrices " + show(M)); everything(c, M, c.rng); return; } k -= N; } }
// Random matrices of every rank, square, rectangular, triangular, permutations, low rank products
CASES(ranks, 12000, 20000) {
  auto& r = c.rng; int big = r.chance(.15) ? 80 : r.chance(.01) ? 280 : 18; int m = r.range(1, big), n = r.chance(.6) ? m : r.range(1, big); BM M; std::string kind;
  switch (c.idx % 8) {
  case 0: case 1: M = rm(r, m, n); kind = "random"; break;
  case 2: { int k = r.range(1, std::min(m, n)); M = mulm(rm(r, m, k), rm(r, k, n)); kind = "low rank"; break; }
  case 3: { n = m; M = BM(m, BV(n, 0)); for (int i = 0; i < m; i++) for (int j = i; j < n; j++) M[i][j] = i == j ? (r.chance(.95)) : r.bit(); kind = "upper triangular"; break; }
  case 4: { n = m; M = BM(m, BV(n, 0)); for (int i = 0; i < m; i++) M[i][i] = 1; for (int t = 0; t < 4 * n; t++) { int i = r.below(m), j = r.below(m); if (i != j) for (int k = 0; k < n; k++) M[i][k] ^= M[j][k]; } if (r.chance(.3)) M[r.below(m)] = BV(n, 0); kind = "product of elementary"; break; }
  case 5: { n = m; M = BM(m, BV(n, 0)); std::vector<int> p(m); for (int i = 0; i < m; i++) p[i] = i; for (int i = m - 1; i > 0; i--) std::swap(p[i], p[r.below(i + 1)]); for (int i = 0; i < m; i++) M[i][p[i]] = 1; if (r.bit()) M[r.below(m)][r.below(n)] ^= 1; kind = "permutation"; break; }
  case 6: { M = rm(r, m, n); for (int t = r.range(1, 3); t-- > 0;) { int i = r.below(m), j = r.below(m); M[i] = M[j]; } if (r.bit()) { int j = r.below(n); for (auto& row : M) row[j] = 0; } kind = "duplicate rows"; break; }
  default: { M = BM(m, BV(n, r.bit())); if (r.bit()) for (int i = 0; i < std::min(m, n); i++) M[i][i] ^= 1; kind = "constant"; } }
  c.desc(kind + " " + show(M)); c.count(kind); everything(c, M, r);
}
CASES(construction, 400, 2000) {
  auto& r = c.rng; int top = r.chance(.1) ? 300 : 40, m = r.range(1, top), n = r.range(1, top); c.desc(fmt("construction %dx%d", m, n));
  BM A = bm_rectangular(m, n); MON_CHECK(c, int(A.size()) == m && bm_is_valid(A) && int(A[0].size()) == n, "rectangular", "bm_rectangular(%d,%d) has the wrong size", m, n); BM S = bm_square(m); MON_CHECK(c, int(S.size()) == m && int(S[0].size()) == m, "square", "bm_square(%d)", m);
  BM I = bm_identity(n); MON_CHECK(c, ident(I) && int(I.size()) == n, "identity", "bm_identity(%d) is %s", n, show(I).c_str()); BM J = rm(r, n, n); bm_identity(J); MON_CHECK(c, ident(J) && int(J.size()) == n, "identity", "bm_identity(M) gives %s", show(J).c_str()); MON_CHECK(c, bm_is_identity(J), "is-identity", "%s", show(J).c_str());
  BM X = rm(r, r.range(1, 40), r.range(1, 40)); bm_resize(X, m, n); MON_CHECK(c, int(X.size()) == m && bm_is_valid(X) && int(X[0].size()) == n, "resize", "bm_resize(%d,%d) gives %s", m, n, show(X).c_str()); bm_clear(X); for (auto& row : X) for (auto b : row) MON_CHECK(c, b == 0, "clear", "bm_clear leaves %s", show(X).c_str()); MON_CHECK(c, int(X.size()) == m && int(X[0].size()) == n, "clear", "bm_clear changed the size"); bm_resize(X, m); MON_CHECK(c, int(X.size()) == m && int(X[0].size()) == m && bm_is_valid(X), "resize", "bm_resize(%d)", m);
  BM Y = rm(r, m, n); Y[r.below(m)][r.below(n)] = 2 + r.below(200); MON_CHECK(c, !bm_is_valid(Y), "invalid", "matrix with an entry above 1 reported valid"); if (m > 1) { Y = rm(r, m, n); Y[1 + r.below(m - 1)].push_back(0); MON_CHECK(c, !bm_is_valid(Y), "invalid", "ragged matrix reported valid"); } MON_CHECK(c, !bm_is_valid(BM()) && !bm_is_valid(BM(m)), "invalid", "matrix without entries reported valid");
  BM D = rm(r, m, n); std::ostringstream o; bm_display(D, o); std::string want; for (auto& row : D) { for (auto b : row) want += b ? '1' : '0'; want += '\n'; } std::string got; for (char ch : o.str()) if (ch == '0' || ch == '1' || ch == '\n') got += ch; MON_CHECK(c, got == want, "display", "display of %s is %s", show(D).c_str(), o.str().c_str()); c.cover(fmt("%d/%d", m, n));
}
CASES(random_law, 16, 60) {
  int m = c.rng.range(1, 9), n = c.rng.range(1, 9); c.desc(fmt("bm_random %dx%d", m, n)); random::Generator::set_seed(c.rng.below(1000000)); const int N = 20000; std::vector<int> ones(m * n, 0); long pairs = 0, np = 0; BM M = bm_rectangular(m, n);
  for (int t = 0; t < N; t++) { bm_random(M); MON_CHECK(c, bm_is_valid(M), "random", "invalid"); for (int i = 0; i < m * n; i++) ones[i] += M[i / n][i % n]; if (m * n > 1) { int i = t % (m * n - 1); pairs += M[i / n][i % n] && M[(i + 1) / n][(i + 1) % n]; np++; } }
  for (int i = 0; i < m * n; i++) MON_CHECK(c, mon::plausible_binomial(N, .5, ones[i]), "uniform", "entry %d of random %dx%d matrices is one %d times in %d", i, m, n, ones[i], N); if (np) MON_CHECK(c, mon::plausible_binomial(np, .25, pairs), "independent", "neighbouring entries both one %ld times in %ld", pairs, np); c.cover(fmt("%d/%d", m, n));
}
int main(int a, char **v) { return mon::main(a, v); }
