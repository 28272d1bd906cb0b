// C02: a function which claims a known maximum never exceeds it and attains it.
#include "fnlib.hh"
#include "hnco/functions/modifiers/all.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/maps/map.hh"
#include "hnco/iterator.hh"
using namespace fl;
using namespace hnco::function::controller;
using namespace hnco::function::modifier;
using namespace hnco::map;

static bool throws_max(Function& f) { try { f.get_maximum(); } catch (const std::exception&) { return true; } return false; }

static void claim(Ctx& c, const Inst& I, Function& f) {
  MON_CHECK(c, f.has_known_maximum() == I.known_max || !I.known_max, "claim-missing:" + I.name.substr(0, I.name.find('(')), "%s does not declare its known maximum", I.name.c_str());
}
static double slack(const Inst& I, double m) { return I.tol == 0 ? 0 : std::fabs(I.tol) + 1e-9 * std::fabs(m); }
static std::string kn(const Inst& I) { return I.name.substr(0, I.name.find('(')); }

// Every kind, small dimension: the whole hypercube.
CASES(exhaustive, 3840, 6400) {
  int kind = c.idx % K_COUNT; Inst I = make(c, kind, c.rng.range(1, c.rng.chance(.2) ? 12 : 9)); c.desc(I.name);
  int n = I.f->get_bv_size(); if (n > 14) { c.obs(); return; }
  Function& f = *I.f; bool k = f.has_known_maximum(); claim(c, I, f);
  if (!k) { MON_CHECK(c, throws_max(f), "unknown-maximum:" + kn(I), "%s has no known maximum but returns one", I.name.c_str()); return; }
  double m = f.get_maximum(); if (I.known_max) MON_CHECK(c, mon::near(m, I.max, 1e-9, slack(I, m)), "maximum-value:" + kn(I), "%s: maximum %.17g, expected %.17g", I.name.c_str(), m, I.max);
  double best = -INFINITY; BV arg; long t = 0;
  for (unsigned u = 0; u < (1u << n); u++) { BV x(n); for (int i = 0; i < n; i++) x[i] = u >> i & 1; double v = f.evaluate(x); t++; if (v > best) { best = v; arg = x; } }
  c.obs(t);
  MON_CHECK(c, best <= m + slack(I, m), "exceeded:" + kn(I), "%s: value %.17g at %s exceeds the maximum %.17g", I.name.c_str(), best, mon::showbv(arg).c_str(), m);
  MON_CHECK(c, best >= m - slack(I, m), "not-attained:" + kn(I), "%s: best value over the whole space is %.17g, maximum %.17g", I.name.c_str(), best, m);
  if (I.tol == 0) { MON_CHECK(c, bv_is_globally_maximal(arg, f), "global-test:" + kn(I), "maximizer not recognized"); }
  c.count("hypercubes_scanned"); c.count("points_scanned", t); c.cover(I.name + fmt("=%g", best)); c.sample(fmt("%s: maximum %g attained at %s, %ld points scanned", I.name.c_str(), m, mon::showbv(arg).c_str(), t));
}

// Any dimension: sampled points stay below, the witness attains.
CASES(sampled, 3840, 9600) {
  int kind = c.idx % K_COUNT; Inst I = make(c, kind); c.desc(I.name); Function& f = *I.f; claim(c, I, f);
  if (!f.has_known_maximum()) { MON_CHECK(c, throws_max(f), "unknown-maximum:" + kn(I), "%s has no known maximum but returns one", I.name.c_str()); return; }
  double m = f.get_maximum(), best = -INFINITY; bool reach = false;
  if (I.known_max) MON_CHECK(c, mon::near(m, I.max, 1e-9, slack(I, m)), "maximum-value:" + kn(I), "%s: maximum %.17g, expected %.17g", I.name.c_str(), m, I.max);
  auto ps = points(c, I, 60); for (auto& x : I.hints) ps.push_back(x);
  if (kind == K_FOUR || kind == K_SIX) { // witness: t+1 zeros at the tail, ones elsewhere (and the mirror image)
    int n = f.get_bv_size(); for (int z = 1; z < n; z++) { ps.push_back(pre(n, n - z)); } }
  for (auto& x : ps) { double v = f.evaluate(x); c.obs(); best = std::max(best, v); if (v > m + slack(I, m)) c.fail("exceeded:" + kn(I), fmt("%s: value %.17g at %s exceeds the maximum %.17g", I.name.c_str(), v, mon::showbv(x).c_str(), m)); if (v >= m - slack(I, m)) reach = true; }
  MON_CHECK(c, reach, "not-attained:" + kn(I), "%s: maximum %.17g not attained by the known maximizer (best %.17g)", I.name.c_str(), m, best);
  c.cover(I.name + fmt("=%g", best));
}

// Composition with maps: the maximum is claimed only if it survives.
CASES(composed, 3000, 8000) {
  static const int kinds[] = {K_ONEMAX, K_LINEAR, K_LO, K_NEEDLE, K_TRAP, K_JUMP, K_RIDGE, K_W1, K_QUBO};
  Inst I = make(c, kinds[c.rng.below(9)], 7); Function& f = *I.f; int n = f.get_bv_size(); if (n > 10) { c.obs(); return; }
  int m = c.rng.range(1, 11); std::vector<std::shared_ptr<Map>> own; Map *mp = nullptr; std::string mn;
  switch (c.rng.below(8)) {
  case 0: { auto q = std::make_shared<Translation>(); q->random(n); own.push_back(q); mp = q.get(); mn = "translation"; break; }
  case 1: { auto q = std::make_shared<Permutation>(); q->random(n); own.push_back(q); mp = q.get(); mn = "permutation"; break; }
  case 2: { auto q = std::make_shared<LinearMap>(); q->random(n, m, m >= n && c.rng.bit()); own.push_back(q); mp = q.get(); mn = "linear"; break; }
  case 3: { auto q = std::make_shared<AffineMap>(); q->random(n, m, m >= n && c.rng.bit()); own.push_back(q); mp = q.get(); mn = "affine"; break; }
  case 4: { if (n < 2) { c.obs(); return; } auto q = std::make_shared<TsAffineMap>(); q->random(n, c.rng.range(1, 10), 0); own.push_back(q); mp = q.get(); mn = "ts"; break; }
  case 5: { int k = c.rng.range(1, n); std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); c.rng.shuffle(p); p.resize(k); auto q = std::make_shared<Injection>(p, n); own.push_back(q); mp = q.get(); mn = "injection"; break; }
  case 6: { int in = n + c.rng.range(0, 3); std::vector<int> p(in); std::iota(p.begin(), p.end(), 0); c.rng.shuffle(p); p.resize(n); auto q = std::make_shared<Projection>(p, in); own.push_back(q); mp = q.get(); mn = "projection"; break; }
  default: { int k = c.rng.range(1, 8); auto a = std::make_shared<LinearMap>(); a->random(n, k, false); auto b = std::make_shared<LinearMap>(); b->random(k, m, false); own = {a, b}; auto q = std::make_shared<MapComposition>(a.get(), b.get()); own.push_back(q); mp = q.get(); mn = "composition"; break; }
  }
  FunctionMapComposition g(&f, mp); int d = g.get_bv_size(); c.desc(I.name + " o " + mn + fmt(" on %d bits", d));
  double best = -INFINITY; for (unsigned u = 0; u < (1u << d); u++) { BV x(d); for (int i = 0; i < d; i++) x[i] = u >> i & 1; best = std::max(best, g.evaluate(x)); } c.obs(1l << d);
  if (!f.has_known_maximum()) { MON_CHECK(c, !g.has_known_maximum(), "composed-claim", "claims a maximum the function does not have"); return; }
  if (g.has_known_maximum()) { double M = g.get_maximum(); MON_CHECK(c, mon::near(best, M, 1e-9, slack(I, M) + 1e-12), "composed-maximum:" + mn, "maximum %.17g claimed, best value is %.17g", M, best); c.count("composed_claims"); }
  else { MON_CHECK(c, throws_max(g), "composed-claim", "no claim but a value"); c.count("composed_no_claim");
    // full-range maps must keep the claim
    std::set<std::vector<uint8_t>> img; BV y(n); for (unsigned u = 0; u < (1u << d); u++) { BV x(d); for (int i = 0; i < d; i++) x[i] = u >> i & 1; mp->map(x, y); img.insert(y); }
    if (mn != "composition") MON_CHECK(c, img.size() < (1u << n), "composed-lost:" + mn, "the map is surjective but the maximum is declared unknown"); }
  // controllers delegate
  ProgressTracker t(&g); OnBudgetFunction b(&t, 1 << 30); Cache ca(&b); StopOnTarget s(&ca, INFINITY);
  for (Function *h : std::vector<Function *>{&t, &b, &ca, &s}) { MON_CHECK(c, h->has_known_maximum() == g.has_known_maximum() && (!g.has_known_maximum() || h->get_maximum() == g.get_maximum()) && h->get_bv_size() == d, "controller-delegation", "a controller changes the maximum or the size"); }
  if (g.has_known_maximum() && I.tol == 0) { StopOnMaximum sm(&g); bool hit = false; double v = 0; for (unsigned u = 0; u < (1u << d); u++) { BV x(d); for (int i = 0; i < d; i++) x[i] = u >> i & 1; double w = g.evaluate(x); bool th = false; try { v = sm.evaluate(x); } catch (const hnco::exception::TargetReached&) { th = true; hit = true; MON_CHECK(c, sm.get_trigger().first == x && sm.get_trigger().second == w, "stop-on-maximum", "wrong trigger"); } MON_CHECK(c, th == (w == best), "stop-on-maximum", "stopped=%d at value %.17g, maximum %.17g", th, w, best); (void)v; } MON_CHECK(c, hit, "stop-on-maximum", "never stopped"); }
  // what the modifiers do to the claim
  OppositeFunction o(&f); MON_CHECK(c, !o.has_known_maximum() || [&] { double bb = -INFINITY; for (unsigned u = 0; u < (1u << n); u++) { BV x(n); for (int i = 0; i < n; i++) x[i] = u >> i & 1; bb = std::max(bb, o.evaluate(x)); } return mon::near(bb, o.get_maximum(), 1e-9, 1e-9); }(), "opposite-maximum", "the opposite function claims a wrong maximum");
  ParsedModifier pm(&f, "x*x-3*x"); MON_CHECK(c, !pm.has_known_maximum() || [&] { double bb = -INFINITY; for (unsigned u = 0; u < (1u << n); u++) { BV x(n); for (int i = 0; i < n; i++) x[i] = u >> i & 1; bb = std::max(bb, pm.evaluate(x)); } return mon::near(bb, pm.get_maximum(), 1e-9, 1e-9); }(), "parsed-maximum", "the modified function claims a wrong maximum");
  c.cover(c.description + fmt("=%g", best));
}
int main(int a, char **v) { return mon::main(a, v); }
