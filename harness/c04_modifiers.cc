// C04: modified functions compute exactly what their name says, whatever they are stacked on.
#include "fnlib.hh"
#include "hnco/functions/modifiers/all.hh"
#include "hnco/maps/map.hh"
#include "hnco/neighborhoods/neighborhood.hh"
using namespace fl;
using namespace hnco::function::modifier;
using namespace hnco::map;
using namespace hnco::neighborhood;

// Records every bit vector which reaches the function.
struct Probe : Function { Function *f; std::vector<BV> seen; std::vector<BV> described; Probe(Function *g) : f(g) {} int get_bv_size() const { return f->get_bv_size(); } double evaluate(const BV& x) { seen.push_back(x); return f->evaluate(x); } void describe(const BV& x, std::ostream& s) { described.push_back(x); f->describe(x, s); } };

static double eval(Ctx& c, Function& f, const BV& x) { BV y = x; double v = c.rng.chance(.3) ? f.evaluate_safely(y) : f.evaluate(y); MON_CHECK(c, y == x, "argument-modified", "evaluation modifies its argument"); return v; }

CASES(opposite, 1280, 4000) {
  Inst I = make(c, c.idx % K_COUNT, 80); c.desc(I.name); OppositeFunction o(I.f.get()); OppositeFunction oo(&o);
  MON_CHECK(c, o.get_bv_size() == I.f->get_bv_size(), "opposite-size", "size changed");
  for (auto& x : points(c, I, 12)) { double v = I.f->evaluate(x); MON_CHECK(c, mon::same_double(eval(c, o, x), -v), "opposite", "opposite of %.17g is not its negation", v); MON_CHECK(c, mon::same_double(eval(c, oo, x), v), "opposite-involution", "double opposite changes the value %.17g", v); c.cover(I.name + fmt("%g", v)); }
}

struct MapModel { std::shared_ptr<Map> m; std::vector<std::shared_ptr<Map>> parts; std::function<BV(const BV&)> ref; std::string name; };
static MapModel make_map_model(Ctx& c, int out, int depth = 0) {
  MapModel M; mon::Rng& r = c.rng;
  switch (r.below(depth ? 4 : 5)) {
  case 0: { auto t = std::make_shared<Translation>(); BV b = rbv(r, out); t->set_bv(b); M.m = t; M.ref = [b](const BV& x) { BV y = x; for (size_t i = 0; i < y.size(); i++) y[i] ^= b[i]; return y; }; M.name = "translation"; break; }
  case 1: { auto t = std::make_shared<Permutation>(); t->random(out); // learn sigma from the basis, then use it as the model
      std::vector<int> s(out); for (int j = 0; j < out; j++) { BV e(out, 0), y(out); e[j] = 1; t->map(e, y); for (int i = 0; i < out; i++) if (y[i]) s[i] = j; }
      M.m = t; M.ref = [s](const BV& x) { BV y(x.size()); for (size_t i = 0; i < y.size(); i++) y[i] = x[s[i]]; return y; }; M.name = "permutation"; break; }
  case 2: { int in = out + r.range(0, 5); std::vector<int> p(in); std::iota(p.begin(), p.end(), 0); r.shuffle(p); p.resize(out); M.m = std::make_shared<Projection>(p, in); M.ref = [p](const BV& x) { BV y(p.size()); for (size_t i = 0; i < p.size(); i++) y[i] = x[p[i]]; return y; }; M.name = "projection"; break; }
  case 3: { int in = r.range(1, out + 3); auto t = std::make_shared<AffineMap>(); t->random(out, in, false); std::vector<BV> col(in, BV(out)); BV z(out); t->map(BV(in, 0), z); for (int j = 0; j < in; j++) { BV e(in, 0); e[j] = 1; t->map(e, col[j]); for (int i = 0; i < out; i++) col[j][i] ^= z[i]; } M.m = t; M.ref = [col, z](const BV& x) { BV y = z; for (size_t j = 0; j < x.size(); j++) if (x[j]) for (size_t i = 0; i < y.size(); i++) y[i] ^= col[j][i]; return y; }; M.name = "affine"; break; }
  default: { auto A = make_map_model(c, out, 1); auto B = make_map_model(c, A.m->get_input_size(), 1); M.parts = {A.m, B.m}; M.m = std::make_shared<MapComposition>(A.m.get(), B.m.get()); auto a = A.ref, b = B.ref; M.ref = [a, b](const BV& x) { return a(b(x)); }; M.name = A.name + " o " + B.name; break; }
  }
  return M;
}

CASES(map_composition, 2000, 8000) {
  Inst I = make(c, c.idx % K_COUNT, 60); int n = I.f->get_bv_size(); auto M = make_map_model(c, n); Probe p(I.f.get()); FunctionMapComposition g(&p, M.m.get()); int d = M.m->get_input_size(); c.desc(I.name + " o " + M.name);
  MON_CHECK(c, g.get_bv_size() == d, "composition-size", "size is %d, the map takes %d bits", g.get_bv_size(), d);
  for (int t = 0; t < 12; t++) { BV x = rbv(c.rng, d), y = M.ref(x); p.seen.clear(); double v = eval(c, g, x); MON_CHECK(c, p.seen.size() == 1 && p.seen[0] == y, "composition-argument", "function evaluated %d times, last at %s, expected %s", int(p.seen.size()), p.seen.empty() ? "-" : mon::showbv(p.seen.back()).c_str(), mon::showbv(y).c_str()); MON_CHECK(c, close(I, v, I.ref(y)), "composition-value", "value %.17g, expected %.17g", v, I.ref(y));
    if (t < 2) { std::ostringstream a, b; p.described.clear(); BV x2 = rbv(c.rng, d); g.describe(x2, a); I.f->describe(M.ref(x2), b); MON_CHECK(c, p.described.size() == 1 && p.described[0] == M.ref(x2), "composition-describe", "another bit vector is described"); MON_CHECK(c, a.str() == b.str(), "composition-describe", "description '%s', expected '%s'", a.str().substr(0, 200).c_str(), b.str().substr(0, 200).c_str()); }
    c.cover(c.description + mon::showbv(y)); }
  // an incompatible map is refused
  Translation bad; bad.random(n + 1 + c.rng.below(3)); bool th = false; try { FunctionMapComposition h(I.f.get(), &bad); } catch (const std::exception&) { th = true; } MON_CHECK(c, th, "composition-incompatible", "an incompatible map is accepted");
}

CASES(parsed_modifier, 1600, 6000) {
  struct E { const char *s; double (*f)(double); };
  static const E es[] = {{"x", [](double x) { return x; }}, {"-x", [](double x) { return -x; }}, {"x^2-3*x+1", [](double x) { return x * x - 3 * x + 1; }}, {"2*x+0.5", [](double x) { return 2 * x + .5; }}, {"abs(x-3)", [](double x) { return std::fabs(x - 3); }}, {"if(x<2,10,x)", [](double x) { return x < 2 ? 10 : x; }}, {"min(x,4)+max(x,-1)", [](double x) { return std::min(x, 4.0) + std::max(x, -1.0); }}, {"floor(x/3)", [](double x) { return std::floor(x / 3); }}, {"sin(x)*cos(x)", [](double x) { return std::sin(x) * std::cos(x); }}, {"1/(1+exp(-x/10))", [](double x) { return 1 / (1 + std::exp(-x / 10)); }}, {"log(1+x*x)", [](double x) { return std::log(1 + x * x); }}, {"sqrt(abs(x))", [](double x) { return std::sqrt(std::fabs(x)); }}, {"x%5", [](double x) { return std::fmod(x, 5.0); }}, {"7", [](double) { return 7.0; }}};
  Inst I = make(c, c.rng.below(K_COUNT), 60); const E& e = es[c.idx % 14]; const E& e2 = es[c.rng.below(14)]; ParsedModifier m(I.f.get(), e.s), mm(&m, e2.s); c.desc(I.name + " with " + e.s + " then " + e2.s);
  MON_CHECK(c, m.get_bv_size() == I.f->get_bv_size(), "parsed-size", "size changed");
  for (auto& x : points(c, I, 8)) { double v = I.f->evaluate(x); if (std::fabs(v) > 1e12) { c.obs(); continue; } double w = e.f(v); MON_CHECK(c, mon::near(eval(c, m, x), w, 1e-9, 1e-9), "parsed-value", "%s at %.17g is %.17g, expected %.17g", e.s, v, m.evaluate(x), w); if (std::fabs(w) < 1e6 && std::string(e2.s) != "floor(x/3)" && std::string(e2.s) != "x%5" && std::string(e2.s) != "if(x<2,10,x)") MON_CHECK(c, mon::near(eval(c, mm, x), e2.f(w), 1e-7, 1e-7), "parsed-stack", "%s of %s at %.17g is %.17g, expected %.17g", e2.s, e.s, v, mm.evaluate(x), e2.f(w)); c.cover(c.description + fmt("%g", v)); }
  static const char *bad[] = {"x+", "y", "x,2", "(x", "foo(x)", "", "x x"}; const char *b = bad[c.rng.below(7)]; bool th = false; try { ParsedModifier q(I.f.get(), b); } catch (const std::runtime_error&) { th = true; } MON_CHECK(c, th, "parsed-syntax", "invalid expression '%s' is accepted", b);
}

CASES(gaussian_noise, 240, 500) {
  Inst I = make(c, c.rng.below(K_COUNT), 30); double sd = std::vector<double>{.001, .5, 1, 10, 1000}[c.idx % 5]; AdditiveGaussianNoise g(I.f.get(), sd); c.desc(I.name + fmt(" sd=%g", sd)); BV x = rbv(c.rng, I.f->get_bv_size()); double v = I.f->evaluate(x); if (std::fabs(v) > 1e5 * sd) { c.obs(); return; }
  int N = 4000; double s = 0, q = 0, k4 = 0; int in1 = 0; double prev = 0, ac = 0; for (int i = 0; i < N; i++) { double e = (eval(c, g, x) - v) / sd; s += e; q += e * e; k4 += e * e * e * e; in1 += std::fabs(e) < 1; if (i) ac += e * prev; prev = e; }
  s /= N; q /= N; k4 /= N; ac /= N;
  MON_CHECK(c, std::fabs(s) < 7 / std::sqrt(N), "noise-mean", "mean noise %.3g standard deviations", s);
  MON_CHECK(c, std::fabs(q - 1) < 7 * std::sqrt(2.0 / N), "noise-variance", "variance ratio %.4g", q);
  MON_CHECK(c, mon::plausible_binomial(N, .682689, in1), "noise-shape", "%d of %d within one standard deviation", in1, N);
  MON_CHECK(c, std::fabs(ac) < 7 / std::sqrt(N), "noise-independence", "autocorrelation %.3g", ac);
  MON_CHECK(c, g.get_bv_size() == I.f->get_bv_size() && !g.has_known_maximum(), "noise-info", "noisy function claims a maximum"); c.cover(c.description + fmt("%.3f", s)); c.count("noise_samples", N);
}

CASES(prior_noise, 960, 3000) {
  Inst I = make(c, c.rng.below(K_COUNT), 50); int n = I.f->get_bv_size(), k = c.idx % 4, R = c.rng.range(1, n); std::unique_ptr<Neighborhood> N; double p = c.rng.real(.02, .6); bool allow = c.rng.bit();
  if (k == 0) N.reset(new SingleBitFlip(n)); else if (k == 1) { auto s = new StandardBitMutation(n); s->set_mutation_rate(p); s->set_allow_no_mutation(allow); N.reset(s); } else if (k == 2) N.reset(new HammingBall(n, R)); else N.reset(new HammingSphere(n, R));
  Probe pr(I.f.get()); PriorNoise g(&pr, N.get()); c.desc(I.name + fmt(" noise kind %d radius %d rate %g allow %d", k, R, p, allow)); MON_CHECK(c, g.get_bv_size() == n && !g.provides_incremental_evaluation(), "prior-info", "wrong information");
  BV x = rbv(c.rng, n); std::vector<int> hit(n, 0); int T = 300; double tot = 0; std::map<int, int> dist;
  for (int t = 0; t < T; t++) { pr.seen.clear(); double v = eval(c, g, x); MON_CHECK(c, pr.seen.size() == 1 && int(pr.seen[0].size()) == n, "prior-calls", "the function is evaluated %d times", int(pr.seen.size())); const BV& y = pr.seen[0]; int d = 0; for (int i = 0; i < n; i++) { if (y[i] > 1) c.fail("prior-bits", "invalid bit"); if (y[i] != x[i]) { d++; hit[i]++; } } dist[d]++; tot += d;
    MON_CHECK(c, close(I, v, I.ref(y)), "prior-value", "value %.17g, expected %.17g", v, I.ref(y));
    bool ok = k == 0 ? d == 1 : k == 1 ? (allow || d >= 1) : k == 2 ? d >= 1 && d <= R : d == R; MON_CHECK(c, ok, "prior-distance", "noise flips %d bits", d); }
  double mean = k == 0 ? 1 : k == 3 ? R : k == 2 ? (R + 1) / 2.0 : allow ? n * p : n * p / (1 - std::pow(1 - p, n)); double sd = k == 2 ? std::sqrt((double(R) * R - 1) / 12) : k == 1 ? std::sqrt(n * p + 1) : 0;
  MON_CHECK(c, std::fabs(tot / T - mean) <= 7 * sd / std::sqrt(T) + 1e-9, "prior-rate", "mean number of flips %.4g, expected %.4g", tot / T, mean);
  for (int i = 0; i < n; i++) MON_CHECK(c, mon::plausible_binomial(T, std::min(1.0, mean / n), hit[i]), "prior-uniform", "bit %d is flipped %d times out of %d, expected rate %.3g", i, hit[i], T, mean / n);
  c.cover(c.description); c.count("noisy_points", T);
}

// Random towers of modifiers against the composed model.
CASES(towers, 1600, 8000) {
  Inst I = make(c, c.rng.below(K_COUNT), 40); Function *f = I.f.get(); std::vector<std::shared_ptr<Function>> own; std::vector<MapModel> maps; std::function<double(const BV&)> ref = I.ref; std::string d = I.name; int L = c.rng.range(1, 5);
  for (int i = 0; i < L; i++) switch (c.rng.below(3)) {
    case 0: { own.push_back(std::make_shared<OppositeFunction>(f)); auto r = ref; ref = [r](const BV& x) { return -r(x); }; d += "/opposite"; f = own.back().get(); break; }
    case 1: { maps.push_back(make_map_model(c, f->get_bv_size())); own.push_back(std::make_shared<FunctionMapComposition>(f, maps.back().m.get())); auto r = ref; auto m = maps.back().ref; ref = [r, m](const BV& x) { return r(m(x)); }; d += "/" + maps.back().name; f = own.back().get(); break; }
    default: { own.push_back(std::make_shared<ParsedModifier>(f, "3*x-2")); auto r = ref; ref = [r](const BV& x) { return 3 * r(x) - 2; }; d += "/3x-2"; f = own.back().get(); break; } }
  c.desc(d);
  for (int t = 0; t < 10; t++) { BV x = rbv(c.rng, f->get_bv_size()); double v = eval(c, *f, x), w = ref(x); MON_CHECK(c, mon::near(v, w, 1e-9, 300 * std::fabs(I.tol) + 1e-9), "tower", "value %.17g, expected %.17g at %s", v, w, mon::showbv(x).c_str()); c.cover(d + fmt("%g", v)); }
  c.sample(d);
}
int main(int a, char **v) { return mon::main(a, v); }
