// C19: runs are reproducible from the seed. The same run is made twice in the same process, with fresh
// objects, after scrambling the heap, the stack, the clock, the generator and library state. Compiled
// without sanitizers, with an allocator which fills every block with a byte that changes between runs and
// spaces blocks at random.
#ifndef ALG_ALL
#define ALG_ALL
#endif
#include "alglib.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/functions/modifiers/all.hh"
#include "hnco/maps/map.hh"
#include "hnco/multiobjective/algorithms/all.hh"
#include "hnco/permutation.hh"
#include <alloca.h>
#include <omp.h>
#include <dlfcn.h>
#include <malloc.h>
#include <sys/time.h>
#include <time.h>
#include <new>
using namespace al; using namespace hnco::function; using namespace hnco::function::controller; using hnco::random::Generator;
namespace mo = hnco::multiobjective;

static thread_local int fill = -1; static thread_local uint64_t pad = 0; static long filled = 0;
static void *get(size_t n) { if (pad) { pad = mon::mix(pad) | 1; n += (pad >> 40) % 5 * 16; } void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (fill >= 0) { memset(p, fill, n); filled++; } return p; }
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void *p) noexcept { if (p && fill >= 0) memset(p, fill ^ 0xff, malloc_usable_size(p)); free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
// the clock of the process under test
static long shift_s = 0;
extern "C" time_t time(time_t *t) noexcept { struct timespec ts; static auto real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime"); real(CLOCK_REALTIME, &ts); time_t v = ts.tv_sec + shift_s; if (t) *t = v; return v; }
extern "C" int clock_gettime(clockid_t c, struct timespec *ts) noexcept { static auto real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime"); int r = real(c, ts); if (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC) ts->tv_sec += shift_s; return r; }

static __attribute__((noinline)) void stack(int byte) { volatile char *p = (volatile char *)alloca(200000); for (int i = 0; i < 200000; i++) p[i] = byte; }
static void disturb(mon::Ctx& c) { // what ran before
  std::vector<void *> v; for (int i = c.rng.range(0, 200); i > 0; i--) v.push_back(operator new(c.rng.below(3000))); c.rng.shuffle(v); for (auto p : v) operator delete(p);
  int k = c.rng.below(4); if (k == 1) for (int i = c.rng.range(1, 900); i > 0; i--) Generator::uniform(); if (k == 2) { for (int i = c.rng.range(1, 3); i > 0; i--) Generator::normal(); BV x(c.rng.range(1, 70)); bv_random(x); }
  if (k == 3) { int kind = c.rng.below(A_NUM); int n = std::max(min_n(kind), c.rng.range(4, 12)); if (kind == A_CS) n = 4; Alg A = make(c.rng, kind, n, 40); Objective o = mkobj(c.rng, n); OnBudgetFunction b(&o, c.rng.range(1, 60)); try { A.a->maximize({&b}); } catch (const hnco::exception::LastEvaluation&) {} }
  shift_s = c.rng.range(0, 1000000);
}
struct Noise { Noise(mon::Ctx& c) { disturb(c); pad = c.rng.next() | 1; fill = c.rng.pick(std::vector<int>{0, 0xff, 0x01, 0x7f, 0x3f, int(c.rng.below(256))}); stack(c.rng.below(256)); } ~Noise() { fill = -1; pad = 0; } };
typedef std::vector<std::pair<BV, double>> Log;
struct Out { Log log; BV bv; double v = 0; int how = 0; std::string extra; };
static void same(mon::Ctx& c, const Out& a, const Out& b, const std::string& k) {
  size_t m = std::min(a.log.size(), b.log.size()); for (size_t i = 0; i < m; i++) MON_CHECK(c, a.log[i].first == b.log[i].first && mon::same_double(a.log[i].second, b.log[i].second), "differs:" + k, "evaluation %zu of the second run with the same seed is %s (%.17g), of the first run %s (%.17g)", i, mon::showbv(b.log[i].first).c_str(), b.log[i].second, mon::showbv(a.log[i].first).c_str(), a.log[i].second);
  MON_CHECK(c, a.log.size() == b.log.size() && a.how == b.how, "differs:" + k, "%zu evaluations in the first run, %zu in the second with the same seed (ends %d, %d)", a.log.size(), b.log.size(), a.how, b.how);
  MON_CHECK(c, a.bv == b.bv && mon::same_double(a.v, b.v), "solution:" + k, "the solutions of two runs with the same seed differ: %.17g and %.17g", a.v, b.v); MON_CHECK(c, a.extra == b.extra, "extra:" + k, "%s and %s", a.extra.c_str(), b.extra.c_str());
}
static uint64_t digest(const Out& o) { uint64_t h = o.log.size(); for (auto& e : o.log) { for (auto b : e.first) h = mon::mix(h ^ (b ? 3 : 1)); h = mon::mix(h ^ mon::hstr(fmt("%.17g", e.second))); } return h; }
static int size_for(mon::Ctx& c, int kind) { int n = std::max(min_n(kind), c.rng.chance(.3) ? c.rng.range(1, 9) : c.rng.range(8, 50)); if (kind == A_CS) n = c.rng.range(1, 7); if (kind == A_HEAF || kind == A_HEAT || kind == A_BMF || kind == A_BMT || kind == A_MIMIC) n = std::min(n, 18); if (kind == A_SAHC || kind == A_FA) n = std::min(n, 14); return n; }

// Evaluation traces of every algorithm; a third run, with another seed, differs.
CASES(algorithms, 3000, 60000) {
  int kind = c.idx % A_NUM, n = size_for(c, kind); mon::Rng cfg(c.rng.next()); Objective proto = mkobj(cfg, n); unsigned seed = c.rng.pick(std::vector<unsigned>{0, 1, 2, 0xffffffffu, unsigned(c.rng.next()), unsigned(c.rng.next())}); bool rs = c.rng.chance(.2); long bud = c.rng.range(20, 250); int nthreads = c.rng.chance(.25) ? c.rng.range(2, 4) : 1, noise = c.rng.below(5);
  auto once = [&](unsigned s, bool reset) { Noise N(c); mon::Rng r = cfg; if (reset) Generator::reset(); else Generator::set_seed(s); Alg A = make(r, kind, n, 120); if (c.description.empty()) c.desc(fmt("%s obj=%d seed=%u threads=%d noise=%d restart=%d", A.name.c_str(), proto.kind, s, nthreads, noise, rs));
    std::vector<std::unique_ptr<Objective>> os; std::vector<std::unique_ptr<Function>> own; std::vector<Function *> fs; int T = A.parallel && A.stops && !rs && noise < 3 ? nthreads : 1; for (int i = 0; i < T; i++) { os.emplace_back(new Objective(proto)); Function *f = os.back().get(); if (T > 1) { os.back()->logging = false; } if (noise == 3) { own.emplace_back(new modifier::AdditiveGaussianNoise(f, .5)); f = own.back().get(); } if (noise == 4) { own.emplace_back(new modifier::PriorNoise(f, new SingleBitFlip(n))); f = own.back().get(); } if (!A.stops || rs) { own.emplace_back(new OnBudgetFunction(f, bud)); f = own.back().get(); } fs.push_back(f); }
    omp_set_num_threads(T); Out o; std::unique_ptr<Restart> R; Algorithm *a = A.a.get(); if (rs && A.stops) { R.reset(new Restart(a)); a = R.get(); } try { a->maximize(fs); } catch (const hnco::exception::LastEvaluation&) { o.how = 1; } a->finalize(); o.log = os[0]->log; o.bv = a->get_solution().first; o.v = a->get_solution().second; o.extra = fmt("%.17g", Generator::uniform()); if (T > 1) c.count("parallel runs"); return o; };
  Out a = once(seed, false), b = once(seed, c.rng.chance(.0)); same(c, a, b, kname(kind)); c.count(kname(kind)); c.count("evaluations compared", a.log.size()); c.cover(fmt("%s %llx", c.description.c_str(), (unsigned long long)digest(a))); c.sample(c.description + fmt(": %zu identical evaluations", a.log.size()));
  // The starting points are drawn from the seed (hill climbers may be given one, complete search has none).
  if (n >= 40 && kind != A_CS && kind != A_SAHC && kind != A_FA && kind != A_ITEA && a.log.size() > 2) { mon::Rng r = cfg; Alg A = make(r, kind, n, 120); if (A.rinit) { Out d = once(seed ^ (1u << c.rng.below(32)), false); MON_CHECK(c, d.log.empty() || d.log[0].first != a.log[0].first, std::string("same-seeds:") + kname(kind), "two different seeds start from the same bit vector of size %d", n); c.count("different seeds"); } }
}
// After a run, reset replays it: the seed is kept.
CASES(reset, 400, 8000) {
  int kind = c.idx % A_NUM, n = size_for(c, kind); mon::Rng cfg(c.rng.next()); Objective proto = mkobj(cfg, n); unsigned seed = c.rng.next(); bool auto_seed = c.rng.bit(); c.desc(fmt("reset %s n=%d auto=%d", kname(kind), n, auto_seed)); if (auto_seed) { Generator::set_seed(); seed = Generator::seed; } else Generator::set_seed(seed); MON_CHECK(c, Generator::seed == seed, "seed", "seed is %u after set_seed(%u)", Generator::seed, seed);
  auto once = [&](int how) { mon::Rng r = cfg; if (how == 1) Generator::reset(); if (how == 2) Generator::set_seed(seed); Objective o(proto); OnBudgetFunction b(&o, 60); Alg A = make(r, kind, n, 60); Out u; try { A.a->maximize({&b}); } catch (const hnco::exception::LastEvaluation&) { u.how = 1; } A.a->finalize(); u.log = o.log; u.bv = A.a->get_solution().first; u.v = A.a->get_solution().second; return u; };
  Out a = once(0), b = once(1), d = once(2); MON_CHECK(c, Generator::seed == seed, "seed", "the seed changes during a run"); same(c, a, b, std::string("reset-") + kname(kind)); same(c, a, d, std::string("reseed-") + kname(kind)); c.cover(fmt("%s %llx", c.description.c_str(), (unsigned long long)digest(a))); c.count(auto_seed ? "clock seeds" : "given seeds");
}
// Random instances of functions and maps.
CASES(instances, 2000, 40000) {
  int kind = c.idx % 22, n = c.rng.range(4, 30), k = c.rng.range(1, 3), q = c.rng.range(1, 20); unsigned seed = c.rng.next(); std::vector<BV> pts; for (int i = 0; i < 12; i++) pts.push_back(fl::rbv(c.rng, n)); BV sol = fl::rbv(c.rng, n); c.desc(fmt("instance kind %d n=%d k=%d q=%d seed=%u", kind, n, k, q, seed));
  auto once = [&](unsigned s) { Noise N(c); Generator::set_seed(s); std::vector<double> o; auto fn = [&](Function& f) { for (auto& p : pts) { BV x = p; x.resize(f.get_bv_size(), 1); o.push_back(f.evaluate(x)); } }; auto mp = [&](map::Map& m) { for (auto& p : pts) { BV x = p; x.resize(m.get_input_size()); BV y(m.get_output_size()); m.map(x, y); for (auto b : y) o.push_back(b); } };
    switch (kind) {
    case 0: { LinearFunction f; f.random(n); fn(f); break; } case 1: { NearestNeighborIsingModel1 f; f.random(n); fn(f); break; } case 2: { NearestNeighborIsingModel2 f; f.random(k + 1, q); fn(f); break; } case 3: { NkLandscape f; f.random(n, k); fn(f); break; } case 4: { MaxSat f; f.random(n, k, q); fn(f); break; } case 5: { MaxSat f; f.random(sol, k, q); fn(f); break; } case 6: { std::vector<int> v; for (int i = 0; i < 9; i++) o.push_back(Generator::normal()); break; }
    case 7: { EqualProducts f; f.random(n); fn(f); break; } case 8: { Partition f; f.random(n, 1000000); fn(f); break; } case 9: { WalshExpansion f; f.random(n, q); fn(f); break; } case 10: { WalshExpansion1 f; f.random(n); fn(f); break; } case 11: { WalshExpansion2 f; f.random(n); fn(f); break; } case 12: { Sudoku f; f.random(q); std::ostringstream s; s.precision(17); f.display(s); o.push_back(double(mon::hstr(s.str()) >> 12)); break; } case 13: { Tsp f; f.random(n); permutation_t p(n); perm_identity(p); o.push_back(f.evaluate(p)); std::ostringstream s; s.precision(17); f.display(s); o.push_back(double(mon::hstr(s.str()) >> 12)); break; }
    case 14: { map::Translation m; m.random(n); mp(m); break; } case 15: { map::Permutation m; m.random(n); mp(m); break; } case 16: { map::LinearMap m; m.random(n, n, c.idx & 64); mp(m); break; } case 17: { map::AffineMap m; m.random(n, n, c.idx & 64); mp(m); break; } case 18: { map::TsAffineMap m; m.random(n, q, int(c.idx / 22 % 6)); mp(m); break; }
    case 19: { permutation_t p(n); perm_random(p); for (auto i : p) o.push_back(i); break; } case 20: { bit_matrix_t M(n, BV(n)); bm_random(M); for (auto& r : M) for (auto b : r) o.push_back(b); break; } default: { BV x(64); bv_random(x); for (auto b : x) o.push_back(b); x.assign(64, 0); bv_random(x, std::min(n, 64)); for (auto b : x) o.push_back(b); for (int i = 0; i < 5; i++) { o.push_back(Generator::normal()); o.push_back(Generator::uniform()); o.push_back(Generator::bernoulli()); } } } o.push_back(Generator::uniform()); return o; };
  auto a = once(seed), b = once(seed), d = once(seed + 1 + c.rng.below(1000)); MON_CHECK(c, a.size() == b.size(), "instance", "sizes %zu %zu", a.size(), b.size()); for (size_t i = 0; i < a.size(); i++) MON_CHECK(c, mon::same_double(a[i], b[i]), fmt("instance:%d", kind), "two random instances with the same seed differ: observation %zu is %.17g then %.17g", i, a[i], b[i]); MON_CHECK(c, a.size() == d.size() ? a != d : true, fmt("instance-seeds:%d", kind), "different seeds give the same instance"); c.count(fmt("instance %d", kind)); c.cover(c.description);
}
// Operators used on their own: selections, crossovers, neighborhoods, sampling, sorting (ties), noise.
CASES(operators, 1200, 24000) {
  namespace ha = hnco::algorithm; namespace hn = hnco::neighborhood; int kind = c.idx % 14, n = c.rng.range(2, 20), N = c.rng.range(2, 9), count = c.rng.range(1, 12); unsigned seed = c.rng.next(); double p = c.rng.real() * .8 + .1; ha::Population P(N, n); for (int i = 0; i < N; i++) { P.bvs[i] = fl::rbv(c.rng, n); P.values[i] = c.rng.range(0, 2); } P.values[0] = 1; BV x = fl::rbv(c.rng, n), y = fl::rbv(c.rng, n); int k = c.rng.range(1, n); bool inc = c.rng.bit(); c.desc(fmt("operator %d n=%d size=%d uses=%d seed=%u", kind, n, N, count, seed));
  auto once = [&](unsigned s) { Noise Z(c); Generator::set_seed(s); std::vector<double> o; auto put = [&](const BV& b) { for (auto q : b) o.push_back(q); };
    auto sel = [&](auto&& S) { for (int i = 0; i < count; i++) { if (i % 5 == 0) S.init(); put(S.select()); } }; auto nb = [&](hn::Neighborhood&& H) { H.set_origin(x); for (int i = 0; i < count; i++) { H.propose(); put(H.get_candidate()); if ((i & 1) == inc) H.keep(); else H.forget(); BV z(n); H.map(x, z); put(z); H.mutate(z); put(z); } };
    switch (kind) { case 0: sel(ha::UniformSelection(P)); break; case 1: { ha::TournamentSelection S(P); S.set_tournament_size(2); if (N > 2) sel(S); else for (int i = 0; i < count; i++) o.push_back(Generator::uniform()); break; } case 2: sel(ha::FitnessProportionateSelection(P)); break; case 3: sel(ha::BoltzmannSelection(P)); break;
    case 4: { ha::UniformCrossover X; for (int i = 0; i < count; i++) { BV z(n); X.recombine(x, y, z); put(z); } break; } case 5: { ha::BiasedCrossover X; X.set_bias(p); for (int i = 0; i < count; i++) { BV z(n); X.recombine(x, y, z); put(z); } break; }
    case 6: nb(hn::SingleBitFlip(n)); break; case 7: nb(hn::StandardBitMutation(n, p)); break; case 8: { hn::StandardBitMutation H(n); H.set_mutation_rate(.5 / n); H.set_allow_no_mutation(inc); nb(std::move(H)); break; } case 9: nb(hn::HammingBall(n, k)); break; case 10: nb(hn::HammingSphere(n, k)); break;
    case 11: { ha::pv_t v(n, p); for (int i = 0; i < count; i++) { BV z(n); ha::pv_sample(v, z); put(z); } break; } case 12: { for (int i = 0; i < count; i++) { ha::Population Q(P); if (inc) Q.sort(); else Q.partial_sort(std::min(k, N)); for (int j = 0; j < (inc ? N : std::min(k, N)); j++) o.push_back(Q.get_best_index(j)); Q.random(); for (auto& b : Q.bvs) put(b); } break; }
    default: { OneMax g(n); modifier::AdditiveGaussianNoise a(&g, .5); modifier::PriorNoise b(&g, new hn::SingleBitFlip(n)); for (int i = 0; i < count; i++) { o.push_back(a.evaluate(x)); o.push_back(b.evaluate(y)); } } } o.push_back(Generator::uniform()); return o; };
  auto a = once(seed), b = once(seed), d = once(seed); MON_CHECK(c, a.size() == b.size() && a.size() == d.size(), "operator-size", "sizes %zu %zu %zu", a.size(), b.size(), d.size()); for (size_t i = 0; i < a.size(); i++) MON_CHECK(c, mon::same_double(a[i], b[i]) && mon::same_double(a[i], d[i]), fmt("operator:%d", kind), "what an operator does depends on what ran before set_seed: observation %zu is %.17g, %.17g, %.17g", i, a[i], b[i], d[i]); c.count(fmt("operator %d", kind)); c.cover(c.description);
}
CASES(mo_runs, 300, 8000) {
  int n = c.rng.range(3, 40), m = c.rng.range(1, 3), pop = c.rng.range(3, 20), it = c.rng.range(1, 8), t = c.rng.range(2, pop - 1); uint64_t salt = c.rng.next(); unsigned seed = c.rng.next(); bool cx = c.rng.bit(); c.desc(fmt("Nsga2 n=%d m=%d pop=%d it=%d t=%d seed=%u", n, m, pop, it, t, seed));
  struct F : mo::function::Function { int n, m; uint64_t salt; std::vector<BV> log; int get_bv_size() const override { return n; } int get_output_size() const override { return m; } void evaluate(const BV& x, mo::function::value_t& v) override { log.push_back(x); for (int k = 0; k < m; k++) { uint64_t h = salt + k; for (int i = 0; i < n; i++) h = mon::mix(h ^ (x[i] ? 77 + i : 0)); v[k] = h % 5; } } };
  auto once = [&](unsigned s) { Noise N(c); Generator::set_seed(s); mo::algorithm::Nsga2 a(n, m, pop); a.set_num_iterations(it); a.set_tournament_size(t); if (cx) a.set_crossover_probability(.5); F f; f.n = n; f.m = m; f.salt = salt; a.minimize({&f}); auto& S = a.get_solutions(); auto l = f.log; for (int i = 0; i < S.get_size(); i++) l.push_back(S.bvs[i]); return l; };
  auto a = once(seed), b = once(seed); MON_CHECK(c, a == b, "differs:Nsga2", "two runs of Nsga2 with the same seed differ (%zu, %zu)", a.size(), b.size()); if (n >= 20) { auto d = once(seed + 1); MON_CHECK(c, d != a, "same-seeds:Nsga2", "different seeds give the same run"); } c.count("nsga2 runs"); c.cover(c.description);
}
// Seeds are not folded together, and sequences of a generator depend on the seed only.
CASES(seeds, 60, 1000) {
  std::set<std::vector<int>> seen; std::set<unsigned> used; c.desc("sequences of many seeds"); for (int i = 0; i < 300; i++) { unsigned s = c.rng.bit() ? i : c.rng.bit() ? unsigned(i) << c.rng.range(8, 23) : unsigned(c.rng.next()); if (!used.insert(s).second) continue; Generator::set_seed(s); BV x(96); bv_random(x); std::vector<int> y(x.begin(), x.end()); MON_CHECK(c, seen.insert(y).second, "folded", "seed %u gives the same bits as another seed", s); std::mt19937 e(s); Generator::set_seed(s); (void)e; double u = Generator::uniform(), g = Generator::normal(); bool b = Generator::bernoulli(); Generator::reset(); MON_CHECK(c, u == Generator::uniform() && g == Generator::normal() && b == Generator::bernoulli(), "reset-sequence", "reset does not replay the sequence of seed %u", s); } c.count("seeds", used.size()); c.cover(fmt("%llx", (unsigned long long)c.rng.next()));
  Generator::set_seed(); unsigned a = Generator::seed; shift_s += 12345; Generator::set_seed(); MON_CHECK(c, a != Generator::seed, "clock-seed", "two seeds taken from the clock at different times are the same");
}
int main(int a, char **v) { return mon::main(a, v); }
