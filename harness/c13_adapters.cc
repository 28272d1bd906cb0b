// C13: functions given by expressions or user functions evaluate at the values decoded from consecutive blocks of bits.
#include "mon.hh"
#include "hnco/app/function-factory.hh"
#include "hnco/app/hnco-options.hh"
#include "hnco/multiobjective/app/function-factory.hh"
#include "hnco/multiobjective/app/hnco-mo-options.hh"
#include "hnco/multiobjective/functions/all.hh"
#include "hnco/functions/all.hh"
#include "hnco/functions/collection/plugin.hh"
#include "hnco/representations/all.hh"
#include <complex>
#include <dlfcn.h>
#include <getopt.h>
#include <iostream>
#include <memory>
#include <sys/wait.h>
using namespace hnco; using namespace hnco::representation; using mon::fmt;
typedef bit_vector_t BV; typedef std::complex<double> C;
namespace hf = hnco::function; namespace mf = hnco::multiobjective::function; namespace ha = hnco::app; namespace ma = hnco::multiobjective::app;
static BV rv(mon::Rng& r, int n) { BV x(n); double p = r.pick(std::vector<double>{.5, .5, .1, .9}); for (auto& b : x) b = r.chance(p); return x; }

// ---- expressions: an abstract syntax tree with its own evaluator and printer ----
enum Kind { REAL, LONG, COMPLEX };
struct Node { char op; std::vector<std::shared_ptr<Node>> k; double c = 0; std::string v, lit; double bound = 0; };
typedef std::shared_ptr<Node> P;
struct Val { C z; double mag; };          // value and a bound of the magnitude of intermediate results, for the tolerance
struct Unsafe {};                         // comparison too close to decide in floating point
static Val ev(const Node& n, const std::map<std::string, C>& env, Kind kind) {
  std::vector<Val> a; auto kid = [&](int i) { return ev(*n.k[i], env, kind); };
  switch (n.op) {
  case 'c': return {n.c, std::abs(n.c)};
  case 'v': { C z = env.at(n.v); return {z, std::abs(z)}; }
  case '+': { Val x = kid(0), y = kid(1); return {x.z + y.z, x.mag + y.mag}; }
  case '-': { Val x = kid(0), y = kid(1); return {x.z - y.z, x.mag + y.mag}; }
  case 'n': { Val x = kid(0); return {-x.z, x.mag}; }
  case '*': { Val x = kid(0), y = kid(1); return {x.z * y.z, x.mag * y.mag}; }
  case '2': { Val x = kid(0); return {x.z * x.z, x.mag * x.mag}; }
  case '3': { Val x = kid(0); return {x.z * x.z * x.z, x.mag * x.mag * x.mag}; }
  case '/': { Val x = kid(0), y = kid(1); C d = y.z * y.z + 1.; return {x.z / d, x.mag * (1 + y.mag * y.mag)}; }
  case 's': { Val x = kid(0); return {sin(x.z.real()), 1 + x.mag}; }
  case 'o': { Val x = kid(0); return {cos(x.z.real()), 1 + x.mag}; }
  case 'a': { Val x = kid(0); return {std::abs(x.z), x.mag}; }
  case 'e': { Val x = kid(0); return {exp(sin(x.z.real())), 3 + 3 * x.mag}; }
  case 'q': { Val x = kid(0); return {sqrt(fabs(x.z.real()) + 1), 1 + x.mag}; }
  case 'm': { Val x = kid(0), y = kid(1); return {std::min(x.z.real(), y.z.real()), x.mag + y.mag}; }
  case 'M': { Val x = kid(0), y = kid(1); return {std::max(x.z.real(), y.z.real()), x.mag + y.mag}; }
  case 'i': { Val x = kid(0), y = kid(1); if (kind != LONG && fabs(x.z.real() - y.z.real()) <= 1e-7 * (1 + x.mag + y.mag)) throw Unsafe(); Val r = x.z.real() < y.z.real() ? kid(2) : kid(3); r.mag += 0; return r; }
  } abort();
}
static std::string sp(mon::Rng& r) { return std::string(r.chance(.2) ? r.range(1, 2) : 0, r.chance(.8) ? ' ' : '\t'); }
static std::string pr(const Node& n, mon::Rng& r) {
  auto s = [&] { return sp(r); }; auto kid = [&](int i) { return pr(*n.k[i], r); }; auto par = [&](std::string x) { return s() + "(" + s() + x + s() + ")" + s(); };
  switch (n.op) {
  case 'c': return s() + n.lit + s(); case 'v': return s() + n.v + s();
  case '+': case '-': case '*': return par(kid(0)) + n.op + par(kid(1));
  case 'n': return "-" + par(kid(0)); case '2': return par(kid(0)) + "^" + s() + "2"; case '3': return par(kid(0)) + "^3";
  case '/': { std::string d = kid(1); return par(kid(0)) + "/" + par("(" + d + ")*(" + d + ")+1"); }
  case 's': return "sin" + par(kid(0)); case 'o': return "cos" + par(kid(0)); case 'a': return "abs" + par(kid(0)); case 'e': return "exp(sin" + par(kid(0)) + ")"; case 'q': return "sqrt(abs" + par(kid(0)) + "+1)";
  case 'm': return "min(" + kid(0) + "," + kid(1) + ")"; case 'M': return "max(" + kid(0) + "," + kid(1) + ")";
  case 'i': return "if(" + par(kid(0)) + "<" + par(kid(1)) + "," + kid(2) + "," + kid(3) + ")";
  } abort();
}
static P leaf(mon::Rng& r, Kind kind, const std::vector<std::string>& names, const std::map<std::string, double>& bnd) {
  auto n = std::make_shared<Node>();
  if (r.chance(.7)) { n->op = 'v'; n->v = r.pick(names); n->bound = bnd.at(n->v); }
  else { n->op = 'c'; if (kind == LONG) { n->c = r.range(0, 20); n->lit = fmt("%d", int(n->c)); } else switch (r.below(5)) { case 0: n->c = M_PI; n->lit = "pi"; break; case 1: n->c = M_E; n->lit = "e"; break; case 2: n->c = r.range(0, 9); n->lit = fmt("%d", int(n->c)); break; case 3: n->c = r.range(0, 400) / 8.; n->lit = fmt("%.3f", n->c); break; default: n->c = 2e-1; n->lit = "2e-1"; } n->bound = n->c; }
  return n;
}
static P linear(mon::Rng& r, Kind kind, const std::vector<std::string>& names, const std::map<std::string, double>& bnd) { P a = leaf(r, kind, names, bnd); if (r.bit()) return a; auto n = std::make_shared<Node>(); n->op = r.bit() ? '+' : '-'; n->k = {a, leaf(r, kind, names, bnd)}; if (a->op == n->k[1]->op && a->v == n->k[1]->v) n->op = '+'; n->bound = a->bound + n->k[1]->bound; return n; }
static P gen(mon::Rng& r, Kind kind, const std::vector<std::string>& names, const std::map<std::string, double>& bnd, int depth) {
  if (depth == 0 || r.chance(.15)) return leaf(r, kind, names, bnd);
  std::string ops = kind == REAL ? "+-*23/soaeqmMi" : kind == LONG ? "+-*amMi" : "+-*2"; char op = ops[r.below(ops.size())]; auto n = std::make_shared<Node>(); n->op = op; int ar = op == 'i' ? 4 : strchr("+-*/mM", op) ? 2 : 1; for (int i = 0; i < ar; i++) n->k.push_back(gen(r, kind, names, bnd, depth - 1)); auto b = [&](int i) { return n->k[i]->bound; };
  if (op == '-') { n->k[0] = leaf(r, kind, names, bnd); n->k[1] = leaf(r, kind, names, bnd); if (n->k[0]->op == n->k[1]->op && n->k[0]->v == n->k[1]->v) n->op = '+'; } // see the group parser_defects
  if (op == 'i') for (int i = 0; i < 2; i++) n->k[i] = linear(r, kind, names, bnd); // idem
  switch (op) { case '+': case '-': n->bound = b(0) + b(1); break; case '*': n->bound = b(0) * b(1); break; case '2': n->bound = b(0) * b(0); break; case '3': n->bound = b(0) * b(0) * b(0); break; case '/': n->bound = b(0) * (1 + b(1) * b(1)); break; case 'i': n->bound = std::max(b(2), b(3)); break; case 'm': case 'M': n->bound = std::max(b(0), b(1)); break; case 's': case 'o': n->bound = 1; break; case 'e': n->bound = 3; break; case 'q': n->bound = 1 + b(0); break; default: n->bound = b(0); }
  if (n->bound > 1e11) return n->k[0]; return n;
}
static void vars_of(const Node& n, std::set<std::string>& s) { if (n.op == 'v') s.insert(n.v); for (auto& k : n.k) vars_of(*k, s); }

// ---- declarations ----
struct Rep { char type; double lo = 0, hi = 1; int size = 0; double prec = 0; std::vector<double> set; };
static std::string num(double x) { return fmt("%.6g", x); }
struct Decoded { C z; int used; };
static int rep_size(const Rep& p) { switch (p.type) { case 'i': return DyadicIntegerRepresentation<int>(int(p.lo), int(p.hi)).size(); case 'l': return DyadicIntegerRepresentation<long>(long(p.lo), long(p.hi)).size(); case 'd': return p.size ? DyadicFloatRepresentation<double>(p.lo, p.hi, p.size).size() : DyadicFloatRepresentation<double>(p.lo, p.hi, p.prec).size(); default: return ValueSetRepresentation<double>(p.set).size(); } }
static double rep_decode(const Rep& p, const BV& x) { switch (p.type) { case 'i': return DyadicIntegerRepresentation<int>(int(p.lo), int(p.hi)).unpack(x, 0); case 'l': return DyadicIntegerRepresentation<long>(long(p.lo), long(p.hi)).unpack(x, 0); case 'd': return (p.size ? DyadicFloatRepresentation<double>(p.lo, p.hi, p.size) : DyadicFloatRepresentation<double>(p.lo, p.hi, p.prec)).unpack(x, 0); default: return ValueSetRepresentation<double>(p.set).unpack(x, 0); } }
struct Setup { double def_prec = 0; int def_size = 0; };
static Rep random_rep(mon::Rng& r, char type, const Setup& su, std::string& text) {
  Rep p; p.type = type; auto s = [&] { return sp(r); };
  switch (type) {
  case 'i': case 'l': p.lo = r.range(-60, 40); p.hi = p.lo + r.range(0, 60); if (r.chance(.2)) { if (type == 'i') { p.lo = r.lrange(-1000000000, 1000000000); p.hi = p.lo + r.range(0, 1000000000); } else { p.lo = r.lrange(-2000000000, 2000000000) * 4.; p.hi = p.lo + r.range(0, 2000000000) * 5.; } } text = s() + (type == 'i' ? "int" : "long") + s() + "(" + s() + fmt("%.0f", p.lo) + s() + "," + s() + fmt("%.0f", p.hi) + s() + ")" + s(); break;
  case 'd': p.lo = r.range(-400, 300) / 8.; p.hi = p.lo + r.range(1, 200) / 4.; text = s() + "double" + s() + "(" + s() + num(p.lo) + s() + "," + s() + num(p.hi) + s(); if ((su.def_prec > 0 || su.def_size) && r.bit()) { if (su.def_prec > 0) p.prec = su.def_prec; else p.size = su.def_size; text += ")"; } else if (r.bit()) { p.size = r.range(1, 12); text += "," + s() + "size" + s() + "=" + s() + fmt("%d", p.size) + s() + ")"; } else { p.prec = r.pick(std::vector<double>{.5, .1, 1e-2, 1e-3, 3}); text += "," + s() + "precision" + s() + "=" + s() + num(p.prec) + s() + ")"; } break;
  default: { int n = r.range(1, 7); text = s() + "set" + s() + "("; for (int i = 0; i < n; i++) { double v = r.range(-300, 300) / 8.; p.set.push_back(v); text += (i ? "," : "") + s() + num(v) + s(); } text += ")" + s(); }
  }
  return p;
}
template<class O> static O *mkopt(std::vector<std::string> args) { args.insert(args.begin(), "hnco"); std::vector<char *> av; for (auto& a : args) av.push_back(&a[0]); av.push_back(nullptr); optind = 0; return new O(int(args.size()), av.data()); }

static const int SO[] = {500, 501, 502, 503, 504, 510, 511, 512, 513, 514, 520, 521, 522, 523, 524, 530, 531, 532, 533, 534};
// mo: evaluate through the multiobjective program's factory
static void expression_case(mon::Ctx& c, int id, bool mo) {
  auto& r = c.rng; int last = id % 10; bool multi = id >= 520; bool eq = (id / 10) % 2 == 1; Kind kind = last == 1 ? LONG : last == 2 ? COMPLEX : REAL; std::string k = fmt("%s%d", mo ? "mo" : "", id);
  // names: some share prefixes or look like functions and constants
  std::vector<std::string> pool = {"x", "y", "z", "x1", "x10", "x2", "a_b", "foo", "t", "pie", "X", "ee", "w9"}; r.shuffle(pool); int nv = r.range(1, 5); std::vector<std::string> names(pool.begin(), pool.begin() + nv);
  Setup su; std::vector<std::string> args = {"-F", fmt("%d", id)}; if (r.chance(.3)) { su.def_prec = .05; args.push_back("--fp-default-double-precision"); args.push_back("0.05"); } if (r.chance(.3)) { su.def_size = 5; args.push_back("--fp-default-double-size"); args.push_back("5"); }
  // default representations
  Rep dd; dd.type = 'd'; dd.prec = 1e-3; Rep di; di.type = 'i'; di.lo = -10; di.hi = 10; Rep dl; dl.type = 'l'; dl.lo = -100; dl.hi = 100; std::string t; if (r.chance(.4)) { dd = random_rep(r, 'd', su, t); args.push_back("--fp-default-double-rep"); args.push_back(t); } if (r.chance(.4)) { di = random_rep(r, 'i', su, t); args.push_back("--fp-default-int-rep"); args.push_back(t); } if (r.chance(.4)) { dl = random_rep(r, 'l', su, t); args.push_back("--fp-default-long-rep"); args.push_back(t); }
  std::map<std::string, Rep> reps; std::vector<std::string> decls; std::vector<std::string> dnames; for (auto& n : names) { if (kind == COMPLEX) { dnames.push_back(n + "_re"); dnames.push_back(n + "_im"); } else dnames.push_back(n); }
  std::vector<std::string> extra = dnames; if (r.chance(.3)) extra.push_back("unused"); r.shuffle(extra);
  for (auto& n : extra) { char want = last == 1 ? 'l' : last == 3 ? 'i' : 'd'; char ty = want; if (last == 4) ty = r.pick(std::vector<char>{'l', 'd', 's', 'i'}); else if (r.chance(.12)) ty = r.pick(std::vector<char>{'l', 'd', 's', 'i'}); bool declared = r.chance(.85); Rep p = random_rep(r, ty, su, t); if (declared) { if (r.chance(.05)) { std::string t2; random_rep(r, ty, su, t2); decls.push_back(sp(r) + n + sp(r) + ":" + t2); } decls.push_back(sp(r) + n + sp(r) + ":" + t); } bool ok = last == 4 ? ty != 'i' : ty == want; reps[n] = declared && ok ? p : last == 1 ? dl : last == 3 ? di : dd; }
  std::string dt; for (size_t i = 0; i < decls.size(); i++) dt += (i ? ";" : "") + decls[i]; if (r.chance(.3)) dt += ";"; if (r.chance(.3)) dt += "\n";
  if (dt.find_first_not_of(" ;\t\n") == std::string::npos) dt = ""; while (dt.size() && strchr(" ;\t\n", dt.back())) dt.pop_back(); if (dt.size() && r.chance(.3)) dt += ";";
  auto bound = [&](const std::string& n) { auto b1 = [&](const Rep& p) { double b = std::max(fabs(p.lo), fabs(p.hi)); for (double v : p.set) b = std::max(b, fabs(v)); return b + 1; }; return kind == COMPLEX ? b1(reps[n + "_re"]) + b1(reps[n + "_im"]) : b1(reps[n]); };
  std::map<std::string, double> bnd; for (auto& n : names) bnd[n] = bound(n);
  int no = multi ? r.range(1, 4) : 1; std::vector<P> ex; std::string text; for (int i = 0; i < no; i++) { ex.push_back(gen(r, kind, names, bnd, r.range(1, 4))); text += (i ? "::" : "") + pr(*ex.back(), r); }
  std::set<std::string> used; for (auto& e : ex) vars_of(*e, used); if (used.empty()) { c.count("constant expression skipped"); return; } // no variable: no bit
  c.desc(k + " expression " + text + " declarations " + dt);
  if (r.chance(.3)) { std::string f = mon::tmpfile("expr"); mon::spit(f, text); args.push_back("--path"); args.push_back(f); } else { args.push_back("--fp-expression"); args.push_back(text); }
  if (r.chance(.3)) { std::string f = mon::tmpfile("reps"); mon::spit(f, dt); args.push_back("--fp-representations-path"); args.push_back(f); } else { args.push_back("--fp-representations"); args.push_back(dt); }
  std::function<std::vector<double>(const BV&)> eval; std::function<void(const BV&, std::ostream&)> describe; int size = 0, out = 1; std::shared_ptr<void> keep1, keep2; mon::Capture cap(std::cerr);
  try {
    if (mo) { auto o = std::shared_ptr<ma::HncoOptions>(mkopt<ma::HncoOptions>(args)); ma::CommandLineFunctionFactory ff(*o); auto f = std::shared_ptr<mf::Function>(ff.make()); size = f->get_bv_size(); out = f->get_output_size(); eval = [f](const BV& x) { mf::value_t v(f->get_output_size(), 77); f->evaluate(x, v); return std::vector<double>(v.begin(), v.end()); }; describe = [f](const BV& x, std::ostream& s) { f->describe(x, s); }; keep1 = f; keep2 = o; MON_CHECK(c, out == no, "outputs:" + k, "%d objectives for %d expressions", out, no); std::ostringstream ds; f->display(ds); }
    else { auto o = std::shared_ptr<ha::HncoOptions>(mkopt<ha::HncoOptions>(args)); ha::CommandLineFunctionFactory ff(*o); auto f = std::shared_ptr<hf::Function>(ff.make()); size = f->get_bv_size(); eval = [f](const BV& x) { return std::vector<double>{f->evaluate(x)}; }; describe = [f](const BV& x, std::ostream& s) { f->describe(x, s); }; keep1 = f; keep2 = o; std::ostringstream ds; f->display(ds); }
  } catch (std::exception& e) { c.fail("rejected:" + k, fmt("valid expression and declarations rejected: %s", e.what())); return; }
  int want = 0; for (auto& n : used) want += kind == COMPLEX ? rep_size(reps[n + "_re"]) + rep_size(reps[n + "_im"]) : rep_size(reps[n]);
  MON_CHECK(c, size == want, "size:" + k, "size %d, the blocks sum to %d", size, want);
  std::string outcome; int compared = 0;
  for (int t = 0; t < 8; t++) {
    BV x = rv(r, size), x0 = x; std::ostringstream ds; if (t < 2 || r.bit()) describe(rv(r, size), ds); std::ostringstream d2; describe(x, d2); std::vector<double> got = eval(x), again = eval(x); MON_CHECK(c, x == x0, "const:" + k, "evaluation changed its argument"); for (size_t i = 0; i < got.size(); i++) MON_CHECK(c, mon::same_double(got[i], again[i]), "repeat:" + k, "different values in a row");
    // the order of the blocks is that of the description
    std::istringstream in(d2.str()); std::string line; std::vector<std::string> order; std::vector<std::string> shown; while (std::getline(in, line)) { auto e = line.find(" = "); if (e == std::string::npos) continue; order.push_back(line.substr(0, e)); shown.push_back(line.substr(e + 3)); }
    MON_CHECK(c, std::set<std::string>(order.begin(), order.end()) == used && order.size() == used.size(), "variables:" + k, "the described variables are not those of the expression: %s", d2.str().c_str());
    std::map<std::string, C> env; int at = 0; auto take = [&](const Rep& p) { int n = rep_size(p); BV b(x.begin() + at, x.begin() + at + n); at += n; return rep_decode(p, b); };
    for (size_t i = 0; i < order.size(); i++) { auto& n = order[i]; std::ostringstream s; if (kind == COMPLEX) { double re = take(reps[n + "_re"]), im = take(reps[n + "_im"]); env[n] = C(re, im); s << env[n]; } else { double v = take(reps[n]); env[n] = v; if (kind == LONG) s << long(v); else s << v; } MON_CHECK(c, s.str() == shown[i], "describe:" + k, "%s is described as %s, the block decodes to %s", n.c_str(), shown[i].c_str(), s.str().c_str()); }
    try {
      double sum = 0, tol = 0; std::vector<double> w; bool ok = true;
      for (auto& e : ex) { Val v = ev(*e, env, kind); double y, m = v.mag; if (kind == COMPLEX) { y = std::norm(v.z); m = m * m; } else { y = v.z.real(); if (eq) y = fabs(y); } if (eq && !mo) y = -y; if (!std::isfinite(y) || !std::isfinite(m) || m > 1e15) ok = false; w.push_back(y); sum += y; tol += kind == LONG ? 0 : 1e-9 * (1 + m); if (mo) { MON_CHECK(c, !ok || fabs(got[w.size() - 1] - y) <= (kind == LONG ? 0 : 1e-9 * (1 + m)), "value:" + k, "objective %zu is %.17g, the expression gives %.17g at %s", w.size() - 1, got[w.size() - 1], y, mon::showbv(x).c_str()); } }
      if (!ok) { c.count("overflow skipped"); continue; }
      if (!mo) MON_CHECK(c, fabs(got[0] - sum) <= tol, "value:" + k, "value %.17g, the expression gives %.17g at %s", got[0], sum, mon::showbv(x).c_str());
      compared++; outcome += fmt("%.6g,", sum);
    } catch (Unsafe&) { c.count("comparison too close skipped"); }
  }
  c.count("points compared", compared); c.count("function " + k); c.cover(k + text + outcome); if (c.idx < 3) c.sample(k + ": " + text + " | " + dt + " -> " + outcome);
}
CASES(expressions, 30000, 200000) { expression_case(c, SO[c.idx % 20], false); }
CASES(mo_expressions, 15000, 100000) { static const int ids[] = {520, 521, 522, 523, 524, 530, 531, 532, 533, 534}; expression_case(c, ids[c.idx % 10], true); }

// expressions which the generator above leaves out because of defects of the bundled parser (known findings), or which are close to them
CASES(parser_defects, 11, 11) {
  struct T { const char *e, *key; std::function<double(double)> f; }; static const T ts[] = {
    {"exp(-x)", "exp-plain", [](double x) { return exp(-x); }}, {"3+exp(-abs(x))*2", "exp-linear", [](double x) { return 3 + 2 * exp(-fabs(x)); }},
    {"if(exp(-abs(x))>3,1,0)", "fparser-exp-comparison", [](double x) { return exp(-fabs(x)) > 3; }}, {"if(3<exp(-x),1,0)", "fparser-exp-optimized-comparison", [](double x) { return 3 < exp(-x); }},
    {"max(exp(-abs(x)),0.5)", "fparser-exp-optimized-max", [](double x) { return std::max(exp(-fabs(x)), .5); }}, {"abs(exp(-abs(x))-cos(x))", "fparser-exp-optimized-abs", [](double x) { return fabs(exp(-fabs(x)) - cos(x)); }}, {"if(exp(x)>3,1,0)", "exp-increasing", [](double x) { return exp(x) > 3; }}, {"abs(exp(abs(x))-cos(x))", "exp-increasing-abs", [](double x) { return fabs(exp(fabs(x)) - cos(x)); }},
    {"((-x)+(-x))+3", "fparser-sum-of-opposites", [](double x) { return 3 - 2 * x; }}, {"if(abs(x)<-3,1,0)", "fparser-abs-below-negative", [](double) { return 0; }}, {"if(abs(x)<3,1,0)", "abs-comparison", [](double x) { return fabs(x) < 3; }}};
  const T& t = ts[c.idx % 11]; c.desc(fmt("expression %s on [-4,4) with 6 bits", t.e)); mon::Capture cap(std::cerr); if (!strcmp(t.key, "fparser-sum-of-opposites")) { int st; pid_t pid = fork(); if (pid == 0) { signal(SIGABRT, SIG_DFL); int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); std::unique_ptr<ha::HncoOptions> o(mkopt<ha::HncoOptions>({"-F", "500", "--fp-expression", t.e, "--fp-representations", "x: double(-4, 4, size = 6)"})); ha::CommandLineFunctionFactory ff(*o); hf::Function *f = ff.make(); _exit(f->evaluate(BV(6, 0)) == 11 ? 0 : 1); } waitpid(pid, &st, 0); MON_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, t.key, "%s reads out of bounds or is not 11 at x = -4", t.e); return; }
  std::unique_ptr<ha::HncoOptions> o(mkopt<ha::HncoOptions>({"-F", "500", "--fp-expression", t.e, "--fp-representations", "x: double(-4, 4, size = 6)"})); ha::CommandLineFunctionFactory ff(*o); std::unique_ptr<hf::Function> f(ff.make()); for (int u = 0; u < 64; u++) { BV x(6); double v = -4; for (int i = 0; i < 6; i++) { x[i] = u >> i & 1; if (x[i]) v += 4 * ldexp(1, -i); } double w = t.f(v), y = f->evaluate(x); MON_CHECK(c, fabs(y - w) <= 1e-9 * (1 + fabs(w)), t.key, "%s is %g instead of %g at x = %g", t.e, y, w, v); } c.cover(t.e); c.count("parser probes");
}

// ---- what is invalid is reported by exception ----
static std::string try_make(mon::Ctx& c, const std::vector<std::string>& args, bool mo, std::string& err) { // "" when made, else the exception
  mon::Capture cap(std::cerr); try { if (mo) { std::unique_ptr<ma::HncoOptions> o(mkopt<ma::HncoOptions>(args)); ma::CommandLineFunctionFactory ff(*o); std::unique_ptr<mf::Function> f(ff.make()); int n = f->get_bv_size(); for (int t = 0; t < 2 && n > 0 && n < 100000; t++) { mf::value_t v(f->get_output_size()); f->evaluate(rv(c.rng, n), v); } } else { std::unique_ptr<ha::HncoOptions> o(mkopt<ha::HncoOptions>(args)); ha::CommandLineFunctionFactory ff(*o); std::unique_ptr<hf::Function> f(ff.make()); int n = f->get_bv_size(); for (int t = 0; t < 2 && n > 0 && n < 100000; t++) f->evaluate(rv(c.rng, n)); } return ""; } catch (std::exception& e) { err = e.what(); return "exception"; } }
CASES(invalid, 2500, 30000) {
  auto& r = c.rng; bool mo = r.chance(.3); int id = mo ? 520 + 10 * r.below(2) + r.below(5) : SO[r.below(20)]; std::string v = id % 10 == 2 ? "x_re" : "x"; int a = r.range(-9, 9), b = a + r.range(1, 9); std::string A = fmt("%d", a), B = fmt("%d", b); bool expr = r.chance(.3); std::string e = "x+1", d = v + ":int(0,1)";
  if (expr) e = r.pick(std::vector<std::string>{"", "x+", "(x", "x)", "x y", "foo(x)", "1+*2", "x+()", "sin()", "sin(x,x)", "x,x", "*x", "x@1", "3..4+x", "max(x)", "if(x,1)", " ", "x[1]", "x=1=", "1+"});
  else switch (r.below(22)) { case 0: d = v + " int(0,1)"; break; case 1: d = v + ": int"; break; case 2: d = v + ": int(0,1"; break; case 3: d = v + ": real(0,1)"; break; case 4: d = v + ": int(" + A + ")"; break; case 5: d = v + ": int(" + A + "," + B + "," + B + ")"; break; case 6: d = v + ": int(" + B + "," + A + ")"; break; case 7: d = v + ": long(" + B + "," + A + ")"; break; case 8: d = v + ": double(" + B + "," + A + ",size=3)"; break; case 9: d = v + ": double(" + A + "," + A + ",size=3)"; break; case 10: d = v + ": double(" + A + "," + B + fmt(",size=%d)", -int(r.below(4))); break; case 11: d = v + ": double(" + A + "," + B + ",precision=" + r.pick(std::vector<std::string>{"0", "-1", "nan", "inf", "-inf", "1e-320"}) + ")"; break; case 12: d = v + ": double(" + A + "," + B + ",zork=3)"; break; case 13: d = v + ": double(" + A + "," + B + ",3)"; break; case 14: d = v + ": double(" + A + "," + B + ",size=3,precision=1)"; break; case 15: d = v + ": set()"; break; case 16: d = v + ": set(1,two)"; break; case 17: d = ": int(0,1)"; break; case 18: d = v + ": int(zero,one)"; break; case 19: d = v + ": int(0,99999999999999)"; break; case 20: d = v + ": double(-1e308,1e308,size=4)"; break; case 21: d = v + r.pick(std::vector<std::string>{": int(-2147483647,5)", ": long(-9223372036854775807,5)", ": double(nan,1,size=2)", ": double(0,inf,size=2)", ": set(nan)", ":", ": (0,1)", ": double(0,1,precision=)", ": double(0,1)"}); break; }
  c.desc(fmt("%s%d expression [%s] declarations [%s]", mo ? "mo" : "", id, e.c_str(), d.c_str())); std::string err, res = try_make(c, {"-F", fmt("%d", id), "--fp-expression", e, "--fp-representations", d}, mo, err); MON_CHECK(c, res == "exception", std::string("accepted:") + (expr ? "expr:" + e : d), "invalid input accepted"); MON_CHECK(c, !err.empty(), "message", "no message"); c.count(expr ? "invalid expressions rejected" : "invalid declarations rejected"); c.cover(e + "|" + d);
}
CASES(hostile, 20000, 200000) { // arbitrary mutations: accepted or rejected by exception, no memory error, abort or hang
  auto& r = c.rng; std::string e = "sin(x)*y+if(x<y,2,3)^2 :: min(x,y)", d = "x: double(0, 1, precision = 1e-3); y: set(1.1, 2.2, 3.3); z: long(-100, 100); u: int(-10,10); y_re: double(0,1,size=4)"; auto mutate = [&](std::string s) { int n = r.range(1, 6); for (int i = 0; i < n && s.size(); i++) { size_t p = r.below(s.size()); switch (r.below(6)) { case 0: s.erase(p, r.range(1, 5)); break; case 1: s.insert(p, 1, ":;(),=+-*/^<.e0129xy \t"[r.below(22)]); break; case 2: s[p] = ":;(),=+-*/^<.e0129xy \t"[r.below(22)]; break; case 3: s.insert(p, s.substr(r.below(s.size()), r.below(12))); break; case 4: s.resize(p); break; default: s[p] = char(r.range(1, 255)); } } return s; };
  if (r.bit()) d = mutate(d); if (r.bit()) e = mutate(e); bool mo = r.chance(.3); int id = mo ? 520 + 10 * r.below(2) + r.below(5) : SO[r.below(20)];
  if (id % 10 == 1 || id % 10 == 2) { /* powers of long and complex constants may be huge */ }
  auto p = d.find("size"); while (p != std::string::npos) { int digits = 0; for (size_t i = p; i < d.size() && i < p + 30; i++) digits += isdigit((unsigned char)d[i]) != 0; if (digits > 5) return; p = d.find("size", p + 1); } // keeps memory bounded
  c.desc(fmt("%s%d expression [%s] declarations [%s]", mo ? "mo" : "", id, e.c_str(), d.c_str())); std::string err, res; { mon::Capture cap(std::cerr); res = ""; try { if (mo) { std::unique_ptr<ma::HncoOptions> o(mkopt<ma::HncoOptions>({"-F", fmt("%d", id), "--fp-expression", e, "--fp-representations", d})); ma::CommandLineFunctionFactory ff(*o); std::unique_ptr<mf::Function> f(ff.make()); res = fmt("%d", f->get_bv_size()); } else { std::unique_ptr<ha::HncoOptions> o(mkopt<ha::HncoOptions>({"-F", fmt("%d", id), "--fp-expression", e, "--fp-representations", d})); ha::CommandLineFunctionFactory ff(*o); std::unique_ptr<hf::Function> f(ff.make()); res = fmt("%d", f->get_bv_size()); } } catch (std::exception& x) { res = "rejected"; } } c.count(res == "rejected" ? "hostile rejected" : "hostile accepted"); c.cover(e + d + res);
}

// ---- user supplied functions ----
template<class T> struct UserFn { typedef T domain_type; typedef T codomain_type; int n; std::vector<T> last; int calls = 0; UserFn(int n) : n(n) {} int get_num_variables() const { return n; } static T value(const std::vector<T>& v) { T s = T(1); for (size_t i = 0; i < v.size(); i++) s = s * T(2) + v[i] * T(double(i + 1)); return s; } T evaluate(const std::vector<T>& v) { last = v; calls++; return value(v); } void display(std::ostream& s) const { s << "UserFn"; } void describe(const std::vector<T>& v, std::ostream& s) { for (auto& x : v) s << x << ' '; } };
template<class T> struct UserMo { typedef T domain_type; typedef T codomain_type; int n, out; std::vector<T> last; int calls = 0; UserMo(int n, int out) : n(n), out(out) {} int get_num_variables() const { return n; } int get_output_size() const { return out; } void evaluate(const std::vector<T>& v, std::vector<T>& r) { last = v; calls++; for (int j = 0; j < out; j++) { r[j] = T(j); for (size_t i = 0; i < v.size(); i++) r[j] = r[j] + v[i] * T(double(i + j + 1)); } } void display(std::ostream& s) const {} void describe(const std::vector<T>& v, std::ostream& s) { for (auto& x : v) s << x << ' '; } };
template<class R> static std::vector<typename R::domain_type> blocks(std::vector<R>& reps, const BV& x) { std::vector<typename R::domain_type> v; int at = 0; for (auto& p : reps) { BV b(x.begin() + at, x.begin() + at + p.size()); at += p.size(); v.push_back(p.unpack(b, 0)); } return v; }
template<class T, class R, class Conv> static void adapter(mon::Ctx& c, const char *name, std::vector<R> reps) {
  auto& r = c.rng; std::string k = name; c.desc(k + fmt(" adapter with %zu variables", reps.size())); int size = 0; for (auto& p : reps) size += p.size(); UserFn<T> fn(reps.size()); hf::MultivariateFunctionAdapter<UserFn<T>, R, Conv> f(&fn, reps); int no = r.range(1, 3); UserMo<T> mfn(reps.size(), no); mf::MultivariateFunctionAdapter<UserMo<T>, R, Conv> m(&mfn, reps); hf::MultiobjectiveFunctionAdapter sum(&m); MON_CHECK(c, f.get_bv_size() == size && m.get_bv_size() == size && sum.get_bv_size() == size, "size:" + k, "size %d %d %d, expected %d", f.get_bv_size(), m.get_bv_size(), sum.get_bv_size(), size); MON_CHECK(c, m.get_output_size() == no, "outputs:" + k, "%d outputs", m.get_output_size()); Conv conv;
  for (int t = 0; t < 6; t++) { BV x = rv(r, size); auto dec = blocks(reps, x); std::vector<T> v; for (auto& d : dec) v.push_back(T(d)); int before = fn.calls; double y = f.evaluate(x); MON_CHECK(c, fn.calls == before + 1, "calls:" + k, "%d calls for one evaluation", fn.calls - before); MON_CHECK(c, fn.last == v, "arguments:" + k, "wrong arguments at %s", mon::showbv(x).c_str()); MON_CHECK(c, mon::same_double(y, conv(UserFn<T>::value(v))), "value:" + k, "value %g, expected %g", y, conv(UserFn<T>::value(v))); mf::value_t w(no, 99); m.evaluate(x, w); MON_CHECK(c, mfn.last == v, "arguments:mo:" + k, "wrong arguments"); std::vector<T> ref(no); UserMo<T> other(reps.size(), no); other.evaluate(v, ref); double s = 0; for (int j = 0; j < no; j++) { MON_CHECK(c, mon::same_double(w[j], conv(ref[j])), "value:mo:" + k, "objective %d is %g, expected %g", j, w[j], conv(ref[j])); s += conv(ref[j]); } double g = sum.evaluate(x); MON_CHECK(c, fabs(g - s) <= 1e-9 * (1 + fabs(s)), "value:sum:" + k, "sum of objectives %g, expected %g", g, s); std::ostringstream a, b; f.describe(x, a); for (auto& z : v) b << z << ' '; MON_CHECK(c, a.str() == b.str(), "describe:" + k, "described as %s, expected %s", a.str().c_str(), b.str().c_str()); std::ostringstream a2; sum.describe(x, a2); MON_CHECK(c, a2.str() == b.str(), "describe:sum:" + k, "described as %s, expected %s", a2.str().c_str(), b.str().c_str()); c.cover(k + mon::showbv(x)); }
  c.count(k);
}
CASES(user_functions, 1500, 20000) {
  auto& r = c.rng; int n = r.range(1, 7); typedef DyadicFloatRepresentation<double> F; typedef DyadicIntegerRepresentation<int> I; typedef DyadicIntegerRepresentation<long> L; auto fl = [&] { double lo = r.range(-50, 50) / 4.; return F(lo, lo + r.range(1, 40) / 4., int(r.range(1, 10))); };
  switch (c.idx % 8) {
  case 0: { std::vector<F> v; for (int i = 0; i < n; i++) v.push_back(fl()); adapter<double, F, hf::ScalarToDouble<double>>(c, "double", v); break; }
  case 1: { std::vector<F> v; for (int i = 0; i < n; i++) v.push_back(fl()); adapter<double, F, hf::OppositeAbsoluteValue<double>>(c, "double-opposite", v); break; }
  case 2: { std::vector<I> v; for (int i = 0; i < n; i++) { int lo = r.range(-30, 30); v.push_back(I(lo, lo + r.range(0, 50))); } adapter<double, I, hf::AbsoluteValue<double>>(c, "int", v); break; }
  case 3: { std::vector<L> v; for (int i = 0; i < n; i++) { long lo = r.range(-30, 30); v.push_back(L(lo, lo + r.range(0, 500))); } adapter<long, L, hf::ScalarToDouble<long>>(c, "long", v); break; }
  case 4: { std::vector<ComplexRepresentation<F>> v; for (int i = 0; i < n; i++) { if (r.bit()) v.push_back(ComplexRepresentation<F>(fl())); else v.push_back(ComplexRepresentation<F>(fl(), fl())); } if (r.bit()) adapter<C, ComplexRepresentation<F>, hf::SquaredMagnitude<double>>(c, "complex", v); else adapter<C, ComplexRepresentation<F>, hf::OppositeSquaredMagnitude<double>>(c, "complex-opposite", v); break; }
  case 5: { std::vector<ValueSetRepresentation<double>> v; for (int i = 0; i < n; i++) { std::vector<double> s; int m = r.range(1, 9); for (int j = 0; j < m; j++) s.push_back(r.range(-40, 40) / 4.); v.push_back(ValueSetRepresentation<double>(s)); } adapter<double, ValueSetRepresentation<double>, hf::ScalarToDouble<double>>(c, "set", v); break; }
  case 6: { std::vector<IntegerCategoricalRepresentation> v; for (int i = 0; i < n; i++) v.push_back(IntegerCategoricalRepresentation(r.range(2, 9))); adapter<double, IntegerCategoricalRepresentation, hf::ScalarToDouble<double>>(c, "categorical", v); break; }
  default: { std::vector<LinearCategoricalRepresentation> v; for (int i = 0; i < n; i++) v.push_back(LinearCategoricalRepresentation(r.range(2, 9))); adapter<double, LinearCategoricalRepresentation, hf::ScalarToDouble<double>>(c, "linear-categorical", v); }
  }
}
CASES(mixed, 800, 10000) {
  auto& r = c.rng; typedef DyadicFloatRepresentation<double> F; typedef DyadicIntegerRepresentation<int> I; typedef DyadicIntegerRepresentation<long> L; typedef ValueSetRepresentation<double> S; typedef std::variant<I, L, F, S> V; int n = r.range(1, 7), size = 0; std::vector<V> reps; for (int i = 0; i < n; i++) switch (r.below(4)) { case 0: reps.push_back(I(-3, int(r.range(-3, 40)))); break; case 1: reps.push_back(L(-5, long(r.range(-5, 400)))); break; case 2: reps.push_back(F(-1., 2., int(r.range(1, 9)))); break; default: { std::vector<double> s; int m = r.range(1, 9); for (int j = 0; j < m; j++) s.push_back(r.range(-40, 40) / 4.); reps.push_back(S(s)); } } for (auto& v : reps) size += std::visit([](auto&& p) { return p.size(); }, v); c.desc(fmt("mixed adapter with %d variables", n)); UserFn<double> fn(n); typedef hf::AbsoluteValue<double> Conv; hf::MixedRepresentationMultivariateFunctionAdapter<UserFn<double>, V, Conv> f(&fn, reps); int no = r.range(1, 3); UserMo<double> mfn(n, no); mf::MixedRepresentationMultivariateFunctionAdapter<UserMo<double>, V, Conv> m(&mfn, reps); std::string k = "mixed"; MON_CHECK(c, f.get_bv_size() == size && m.get_bv_size() == size, "size:" + k, "size %d, expected %d", f.get_bv_size(), size); for (int t = 0; t < 6; t++) { BV x = rv(r, size); std::vector<double> v; int at = 0; for (auto& p : reps) { int s = std::visit([](auto&& q) { return q.size(); }, p); BV b(x.begin() + at, x.begin() + at + s); at += s; v.push_back(std::visit([&](auto&& q) { return double(q.unpack(b, 0)); }, p)); } double y = f.evaluate(x); MON_CHECK(c, fn.last == v, "arguments:" + k, "wrong arguments at %s", mon::showbv(x).c_str()); MON_CHECK(c, mon::same_double(y, fabs(UserFn<double>::value(v))), "value:" + k, "value %g", y); mf::value_t w(no, 9); m.evaluate(x, w); MON_CHECK(c, mfn.last == v, "arguments:mo" + k, "wrong arguments"); std::vector<double> ref(no); UserMo<double> other(n, no); other.evaluate(v, ref); for (int j = 0; j < no; j++) MON_CHECK(c, mon::same_double(w[j], fabs(ref[j])), "value:mo" + k, "objective %d is %g, expected %g", j, w[j], fabs(ref[j])); c.cover(k + mon::showbv(x)); } c.count(k);
}
struct PermFn { int n; permutation_t last; int get_num_elements() const { return n; } double evaluate(const permutation_t& p) { last = p; double s = 0; for (size_t i = 0; i < p.size(); i++) s = s * 3 + p[i] + 1; return s; } void display(std::ostream&) const {} void describe(const permutation_t& p, std::ostream& s) { for (int i : p) s << i << ' '; } };
CASES(permutation_adapter, 500, 6000) {
  auto& r = c.rng; int n = r.range(1, 9), add = r.range(1, 3); c.desc(fmt("permutation adapter %d/%d", n, add)); PermFn fn; fn.n = n; PermutationRepresentation rep(n, add); hf::PermutationFunctionAdapter<PermFn> f(&fn, rep); std::string k = "permutation"; MON_CHECK(c, f.get_bv_size() == rep.size(), "size:" + k, "size %d", f.get_bv_size()); for (int t = 0; t < 5; t++) { BV x = rv(r, rep.size()); unsigned s = r.below(1 << 30); permutation_t p(n); random::Generator::set_seed(s); rep.unpack(x, 0, p); random::Generator::set_seed(s); double y = f.evaluate(x); MON_CHECK(c, fn.last == p, "arguments:" + k, "wrong permutation"); PermFn o; MON_CHECK(c, y == o.evaluate(p), "value:" + k, "value %g", y); { std::ostringstream d, e; BV z = rv(r, rep.size()); permutation_t q(n); random::Generator::set_seed(s); rep.unpack(z, 0, q); random::Generator::set_seed(s); f.describe(z, d); o.describe(q, e); MON_CHECK(c, d.str() == e.str(), "describe:" + k, "described as %s, the permutation is %s", d.str().c_str(), e.str().c_str()); } c.cover(k + mon::showbv(x)); } bool thrown = false; try { PermutationRepresentation bad(n + r.range(1, 3), add); hf::PermutationFunctionAdapter<PermFn> g(&fn, bad); } catch (std::runtime_error&) { thrown = true; } MON_CHECK(c, thrown, "mismatch:" + k, "a representation with another number of elements was accepted"); c.count(k);
}
struct Uni : hf::UniversalFunction { BV b; std::vector<int> i; std::vector<double> d; std::vector<C> z; std::vector<int> cat; std::vector<permutation_t> p; double evaluate(const bit_vector_t& b_, const std::vector<int>& i_, const std::vector<double>& d_, const std::vector<C>& z_, const std::vector<int>& c_, const std::vector<permutation_t> p_) { return set(b_, i_, d_, z_, c_, p_); } double evaluate(const bit_vector_t& b_, const std::vector<int>& i_, const std::vector<double>& d_, const std::vector<C>& z_, const std::vector<int>& c_, const std::vector<permutation_t>& p_) { return set(b_, i_, d_, z_, c_, p_); } double set(const bit_vector_t& b_, const std::vector<int>& i_, const std::vector<double>& d_, const std::vector<C>& z_, const std::vector<int>& c_, const std::vector<permutation_t>& p_) { b = b_; i = i_; d = d_; z = z_; cat = c_; p = p_; return 42.5; } BV db; std::vector<int> di, dk; std::vector<double> dd; std::vector<C> dz; std::vector<permutation_t> dp; int dn = 0; void describe(const bit_vector_t& b_, const std::vector<int>& i_, const std::vector<double>& d_, const std::vector<C>& z_, const std::vector<int>& c_, const std::vector<permutation_t>& p_, std::ostream& s) { told(b_, i_, d_, z_, c_, p_, s); } void describe(const bit_vector_t& b_, const std::vector<int>& i_, const std::vector<double>& d_, const std::vector<C>& z_, const std::vector<int>& c_, const std::vector<permutation_t> p_, std::ostream& s) { told(b_, i_, d_, z_, c_, p_, s); } void told(const bit_vector_t& b_, const std::vector<int>& i_, const std::vector<double>& d_, const std::vector<C>& z_, const std::vector<int>& c_, const std::vector<permutation_t>& p_, std::ostream& s) { db = b_; di = i_; dd = d_; dz = z_; dk = c_; dp = p_; dn++; s << "DESCRIBED-BY-THE-FUNCTION"; } };
struct UniMo : mf::UniversalFunction { BV b; std::vector<int> i; std::vector<double> d; std::vector<C> z; std::vector<int> cat; std::vector<permutation_t> p; int out = 2; int get_output_size() const override { return out; } void evaluate(const bit_vector_t& b_, const std::vector<int>& i_, const std::vector<double>& d_, const std::vector<C>& z_, const std::vector<int>& c_, const std::vector<permutation_t> p_, mf::value_t& v) { set(b_, i_, d_, z_, c_, p_, v); } void evaluate(const bit_vector_t& b_, const std::vector<int>& i_, const std::vector<double>& d_, const std::vector<C>& z_, const std::vector<int>& c_, const std::vector<permutation_t>& p_, mf::value_t& v) { set(b_, i_, d_, z_, c_, p_, v); } void set(const bit_vector_t& b_, const std::vector<int>& i_, const std::vector<double>& d_, const std::vector<C>& z_, const std::vector<int>& c_, const std::vector<permutation_t>& p_, mf::value_t& v) { b = b_; i = i_; d = d_; z = z_; cat = c_; p = p_; for (size_t j = 0; j < v.size(); j++) v[j] = j + .5; } BV db; std::vector<int> di, dk; std::vector<double> dd; std::vector<C> dz; std::vector<permutation_t> dp; int dn = 0; void describe(const bit_vector_t& b_, const std::vector<int>& i_, const std::vector<double>& d_, const std::vector<C>& z_, const std::vector<int>& c_, const std::vector<permutation_t>& p_, std::ostream& s) { told(b_, i_, d_, z_, c_, p_, s); } void describe(const bit_vector_t& b_, const std::vector<int>& i_, const std::vector<double>& d_, const std::vector<C>& z_, const std::vector<int>& c_, const std::vector<permutation_t> p_, std::ostream& s) { told(b_, i_, d_, z_, c_, p_, s); } void told(const bit_vector_t& b_, const std::vector<int>& i_, const std::vector<double>& d_, const std::vector<C>& z_, const std::vector<int>& c_, const std::vector<permutation_t>& p_, std::ostream& s) { db = b_; di = i_; dd = d_; dz = z_; dk = c_; dp = p_; dn++; s << "DESCRIBED-BY-THE-FUNCTION"; } };
CASES(universal, 800, 10000) {
  auto& r = c.rng; typedef DyadicFloatRepresentation<double> F; typedef DyadicIntegerRepresentation<int> I; int nb = r.below(5); std::vector<I> ir; std::vector<F> fr; std::vector<ComplexRepresentation<F>> cr; std::vector<LinearCategoricalRepresentation> kr; std::vector<PermutationRepresentation> pr; for (int t = r.below(4); t > 0; t--) ir.push_back(I(-3, int(r.range(-3, 40)))); for (int t = r.below(4); t > 0; t--) fr.push_back(F(-1., 2., int(r.range(1, 6)))); for (int t = r.below(3); t > 0; t--) cr.push_back(ComplexRepresentation<F>(F(0., 1., int(r.range(1, 4))), F(-1., 0., int(r.range(1, 4))))); for (int t = r.below(3); t > 0; t--) kr.push_back(LinearCategoricalRepresentation(r.range(2, 6))); for (int t = r.below(3); t > 0; t--) pr.push_back(PermutationRepresentation(r.range(2, 5), r.range(1, 2)));
  int size = nb; for (auto& p : ir) size += p.size(); for (auto& p : fr) size += p.size(); for (auto& p : cr) size += p.size(); for (auto& p : kr) size += p.size(); for (auto& p : pr) size += p.size(); if (size == 0) return; c.desc(fmt("universal: %d booleans, %zu ints, %zu floats, %zu complexes, %zu categories, %zu permutations", nb, ir.size(), fr.size(), cr.size(), kr.size(), pr.size())); Uni u; hf::UniversalFunctionAdapter f(&u, nb, ir, fr, cr, kr, pr); UniMo um; um.out = r.range(1, 3); mf::UniversalFunctionAdapter m(&um, nb, ir, fr, cr, kr, pr); std::string k = "universal"; MON_CHECK(c, f.get_bv_size() == size && m.get_bv_size() == size, "size:" + k, "size %d %d, expected %d", f.get_bv_size(), m.get_bv_size(), size); MON_CHECK(c, m.get_output_size() == um.out, "outputs:" + k, "%d outputs", m.get_output_size());
  for (int t = 0; t < 5; t++) { BV x = rv(r, size); BV b(x.begin(), x.begin() + nb); std::vector<int> i, cat; std::vector<double> d; std::vector<C> z; std::vector<permutation_t> p; unsigned s = r.below(1 << 30); int at = nb; auto cut = [&](int n) { BV y(x.begin() + at, x.begin() + at + n); at += n; return y; }; for (auto& q : ir) i.push_back(q.unpack(cut(q.size()), 0)); for (auto& q : fr) d.push_back(q.unpack(cut(q.size()), 0)); for (auto& q : cr) z.push_back(q.unpack(cut(q.size()), 0)); for (auto& q : kr) cat.push_back(q.unpack(cut(q.size()), 0)); random::Generator::set_seed(s); for (auto& q : pr) { permutation_t w(q.get_num_elements()); q.unpack(cut(q.size()), 0, w); p.push_back(w); }
    random::Generator::set_seed(s); double y = f.evaluate(x); MON_CHECK(c, y == 42.5, "value:" + k, "value %g", y); MON_CHECK(c, u.b == b && u.i == i && u.d == d && u.z == z && u.cat == cat && u.p == p, "arguments:" + k, "wrong arguments at %s", mon::showbv(x).c_str()); random::Generator::set_seed(s); mf::value_t w(um.out, 9); m.evaluate(x, w); MON_CHECK(c, um.b == b && um.i == i && um.d == d && um.z == z && um.cat == cat && um.p == p, "arguments:mo" + k, "wrong arguments at %s", mon::showbv(x).c_str()); for (int j = 0; j < um.out; j++) MON_CHECK(c, w[j] == j + .5, "value:mo" + k, "value %g", w[j]); std::ostringstream o; auto desc = [&](auto& fn, auto& user, const char *which) { BV other = rv(r, size); if (r.bit()) { if constexpr (std::is_same_v<std::decay_t<decltype(user)>, Uni>) fn.evaluate(other); else { mf::value_t w2(um.out, 9); fn.evaluate(other, w2); } } std::ostringstream q; int before = user.dn; random::Generator::set_seed(s); fn.describe(x, q); MON_CHECK(c, user.dn == before + 1 && q.str().find("DESCRIBED-BY-THE-FUNCTION") != std::string::npos, std::string("describe:") + which + k, "the function was asked %d times to describe its variables", user.dn - before); MON_CHECK(c, user.db == b && user.di == i && user.dd == d && user.dz == z && user.dk == cat && user.dp == p, std::string("describe-arguments:") + which + k, "described variables are not the decoded ones at %s", mon::showbv(x).c_str()); }; desc(f, u, ""); desc(m, um, "mo"); f.display(o); m.display(o); MON_CHECK(c, f.evaluate(x) == 42.5 && u.i == i && u.d == d, "after-describe:" + k, "describing changed the function"); c.cover(k + mon::showbv(x)); }
  c.count(k);
}
// ---- plugins: a function of a shared library, compiled here, is called with the bits and their number
static std::string plugin_library() {
  std::string src = mon::tmpfile("plugin.c"), so = mon::tmpfile("plugin.so"); mon::spit(src, "#include <stddef.h>\n#include <string.h>\nunsigned char hnco_last[4096]; size_t hnco_n; long hnco_calls;\ndouble alpha(const unsigned char *x, size_t n) { double s = 1; hnco_n = n; hnco_calls++; memcpy(hnco_last, x, n < 4096 ? n : 4096); for (size_t i = 0; i < n; i++) s = s * 1.25 + x[i]; return s; }\ndouble beta(const unsigned char *x, size_t n) { double s = 0; hnco_n = n; hnco_calls++; memcpy(hnco_last, x, n < 4096 ? n : 4096); for (size_t i = 0; i < n; i++) s -= (double)x[i] * (i + 1); return s; }\n"); std::string cmd = "cc -shared -fPIC -O1 -o '" + so + "' '" + src + "' >/dev/null 2>&1"; int rc = system(cmd.c_str()); unlink(src.c_str()); if (rc != 0) { fprintf(stderr, "cannot compile the plugin\n"); _exit(3); } return so;
}
CASES(plugin, 24, 300) {
  auto& r = c.rng; std::string so = plugin_library(); int n = r.pick(std::vector<int>{1, 2, 7, 8, 64, 300, 1000}); std::string k = "plugin"; c.desc(fmt("plugin of %d bits", n)); auto alpha = [](const BV& x) { double s = 1; for (auto b : x) s = s * 1.25 + b; return s; }; auto beta = [](const BV& x) { double s = 0; for (size_t i = 0; i < x.size(); i++) s -= double(x[i]) * (i + 1); return s; };
  auto use = [&](hf::Function& f, auto ref) { MON_CHECK(c, f.get_bv_size() == n, "size:" + k, "size %d, expected %d", f.get_bv_size(), n); void *h = dlopen(so.c_str(), RTLD_LAZY); auto *last = (unsigned char *)dlsym(h, "hnco_last"); auto *ln = (size_t *)dlsym(h, "hnco_n"); auto *calls = (long *)dlsym(h, "hnco_calls"); for (int t = 0; t < 8; t++) { BV x = rv(r, n), y = x; long before = *calls; double v = f.evaluate(x); MON_CHECK(c, x == y, "const:" + k, "evaluation changed its argument"); MON_CHECK(c, *calls == before + 1, "calls:" + k, "%ld calls", *calls - before); MON_CHECK(c, *ln == size_t(n) && std::equal(x.begin(), x.end(), last), "arguments:" + k, "called with %zu bits", *ln); MON_CHECK(c, v == ref(x), "value:" + k, "value %.17g, the library computes %.17g", v, ref(x)); c.cover(k + mon::showbv(x)); } dlclose(h); };
  try {
    { hf::FunctionPlugin f(n, so, "alpha"), g(n, so, "beta"); use(f, alpha); use(g, beta); { hf::FunctionPlugin h(n, so, "beta"); use(h, beta); } use(f, alpha); }
    { mon::Capture cap(std::cerr); std::unique_ptr<ha::HncoOptions> o(mkopt<ha::HncoOptions>({"-F", "1000", "-s", fmt("%d", n), "--path", so, "--fn-name", "beta"})); ha::CommandLineFunctionFactory ff(*o); std::unique_ptr<hf::Function> f(ff.make()); use(*f, beta); }
  } catch (const std::runtime_error& e) { MON_CHECK(c, false, "refused:" + k, "an existing function of an existing library is refused: %s", e.what()); }
  auto refuse = [&](const std::string& path, const std::string& name, const char *what) { bool th = false; try { hf::FunctionPlugin f(n, path, name); } catch (const std::runtime_error& e) { th = e.what()[0] != 0; } MON_CHECK(c, th, "accepted:" + k, "%s is accepted", what); };
  refuse(so, "gamma", "a function the library does not have"); refuse(so + ".missing", "alpha", "a library that does not exist"); { std::string junk = mon::tmpfile("junk.so"); mon::spit(junk, "not a library"); refuse(junk, "alpha", "a file that is not a library"); unlink(junk.c_str()); } unlink(so.c_str()); c.count(k);
}
int main(int a, char **v) { return mon::main(a, v); }
