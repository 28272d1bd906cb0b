// Reference for C22: algorithms configured directly, for comparison with the same configuration made from Python.
// One request per line: CLASS n iterations budget seed fseed function args... ; setter value ...   One line of answer.
#include "hnco/algorithms/all.hh"
#include "hnco/algorithms/local-search/all.hh"
#include "hnco/algorithms/evolutionary-algorithms/all.hh"
#include "hnco/algorithms/probability-vector/all.hh"
#include "hnco/algorithms/walsh-moment/all.hh"
#include "hnco/algorithms/fast-efficient-p3/hboa.hh"
#include "hnco/algorithms/fast-efficient-p3/ltga.hh"
#include "hnco/functions/all.hh"
#include "hnco/functions/collection/all.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/multiobjective/algorithms/all.hh"
#include "hnco/exception.hh"
#include "hnco/random.hh"
#include <cstdio>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
using namespace hnco; using namespace hnco::algorithm; using namespace hnco::function; using hnco::random::Generator;
namespace mo = hnco::multiobjective;
typedef std::map<std::string, double> Set;
static std::string bits(const bit_vector_t& b) { std::string s; for (auto x : b) s += x ? '1' : '0'; return s; }
#define S(name) if (s.count(#name)) a.set_##name(s.at(#name));
struct Mo : mo::function::Function { int n, k; Mo(int n, int k) : n(n), k(k) {} int get_bv_size() const override { return n; } int get_output_size() const override { return k; } void evaluate(const bit_vector_t& x, mo::function::value_t& v) override { for (int j = 0; j < k; j++) { v[j] = 0; for (int i = 0; i < n; i++) v[j] += x[i] * ((i * 7 + j * 5 + i * j) % 11 - 5); } } };

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line); std::string cls, fun; int n, it; long budget; unsigned seed, fseed; in >> cls >> n >> it >> budget >> seed >> fseed >> fun; std::vector<double> v; std::string t; while (in >> t && t != ";") v.push_back(std::stod(t)); Set s; double x; while (in >> t >> x) s[t] = x;
    auto arg = [&](int i) { return int(v.at(i)); }; std::ostringstream out; out.precision(17);
    if (cls == "Nsga2") {
      mo::algorithm::Nsga2 a(n, arg(0), arg(1)); S(tournament_size) S(mutation_rate) S(allow_no_mutation) S(crossover_probability) a.set_num_iterations(it); Mo f(n, arg(0)); Generator::set_seed(seed); a.minimize({&f}); for (auto& b : a.get_solutions().bvs) out << bits(b); out << " " << Generator::uniform(); std::cout << out.str() << std::endl; continue;
    }
    std::unique_ptr<Function> f; Generator::set_seed(fseed); if (fun == "nk") { auto p = new NkLandscape; f.reset(p); p->random(n, 3); } else { auto p = new LinearFunction; f.reset(p); p->random(n); }
    std::unique_ptr<neighborhood::Neighborhood> nb; auto hood = [&]() { switch (arg(0)) { case 0: nb.reset(new neighborhood::SingleBitFlip(n)); break; case 1: nb.reset(new neighborhood::HammingBall(n, arg(1))); break; case 2: nb.reset(new neighborhood::HammingSphere(n, arg(1))); break; default: nb.reset(new neighborhood::StandardBitMutation(n, v.at(1))); } return nb.get(); };
    controller::CallCounter cc(f.get()); controller::OnBudgetFunction g(&cc, budget); std::unique_ptr<Algorithm> own;
#define MAKE(T, ...) auto *p = new T(__VA_ARGS__); own.reset(p); auto& a = *p;
#define ITER a.set_num_iterations(it);
    if (cls == "RandomSearch") { MAKE(RandomSearch, n) ITER }
    else if (cls == "RandomWalk") { MAKE(RandomWalk, n, hood()) ITER }
    else if (cls == "RandomLocalSearch") { MAKE(RandomLocalSearch, n, hood()) ITER S(patience) }
    else if (cls == "SimulatedAnnealing") { MAKE(SimulatedAnnealing, n, hood()) ITER S(num_transitions) S(num_trials) S(initial_acceptance_probability) S(beta_ratio) }
    else if (cls == "OnePlusOneEa") { MAKE(OnePlusOneEa, n) ITER S(mutation_rate) S(allow_no_mutation) }
    else if (cls == "SelfAdjustingOnePlusOneEa") { MAKE(SelfAdjustingOnePlusOneEa, n) ITER S(mutation_rate_init) S(mutation_rate_min) S(mutation_rate_max) S(update_strength) S(success_ratio) S(allow_no_mutation) }
    else if (cls == "MuPlusLambdaEa") { MAKE(MuPlusLambdaEa, n, arg(0), arg(1)) ITER S(mutation_rate) S(allow_no_mutation) }
    else if (cls == "MuCommaLambdaEa") { MAKE(MuCommaLambdaEa, n, arg(0), arg(1)) ITER S(mutation_rate) S(allow_no_mutation) }
    else if (cls == "TwoRateOnePlusLambdaEa") { MAKE(TwoRateOnePlusLambdaEa, n, arg(0)) ITER S(mutation_rate_init) S(allow_no_mutation) }
    else if (cls == "InformationTheoreticEa") { MAKE(InformationTheoreticEa, n, arg(0)) ITER S(allow_no_mutation) S(initial_hamming_weight) S(learning_rate) S(mutation_rate_init) S(mutation_rate_max) S(mutation_rate_min) S(replacement) S(selection_size) }
    else if (cls == "GeneticAlgorithm") { MAKE(GeneticAlgorithm, n, arg(0)) ITER S(mutation_rate) S(crossover_probability) S(tournament_size) S(allow_no_mutation) }
    else if (cls == "OnePlusLambdaCommaLambdaGa") { MAKE(OnePlusLambdaCommaLambdaGa, n, arg(0)) ITER S(mutation_rate) S(crossover_bias) }
    else if (cls == "Pbil") { MAKE(Pbil, n, arg(0)) ITER S(learning_rate) S(selection_size) }
    else if (cls == "NpsPbil") { MAKE(NpsPbil, n, arg(0)) ITER S(learning_rate) S(selection_size) }
    else if (cls == "Umda") { MAKE(Umda, n, arg(0)) ITER S(selection_size) }
    else if (cls == "CompactGa") { MAKE(CompactGa, n) ITER S(learning_rate) }
    else if (cls == "Mmas") { MAKE(Mmas, n) ITER S(learning_rate) }
    else if (cls == "Hea") { MAKE(walsh_moment::Hea<walsh_moment::FullMomentHerding>, n, arg(0)) ITER S(bound_moment) S(learning_rate) S(randomize_bit_order) S(reset_period) S(selection_size) }
    else if (cls == "BmPbil") { MAKE(walsh_moment::BmPbil<walsh_moment::FullMomentGibbsSampler>, n, arg(0)) ITER S(learning_rate) S(negative_positive_selection) S(num_gs_cycles) S(num_gs_steps) S(reset_mode) S(sampling_mode) S(selection_size) }
    else if (cls == "Mimic") { MAKE(Mimic, n, arg(0)) ITER S(selection_size) }
    else if (cls == "Hboa") { MAKE(fast_efficient_p3::Hboa, n) S(population_size) }
    else if (cls == "Ltga") { MAKE(fast_efficient_p3::Ltga, n) S(population_size) }
    else { std::cout << "unknown " << cls << std::endl; continue; }
    Generator::set_seed(seed); try { own->maximize({&g}); } catch (const hnco::exception::LastEvaluation&) {} own->finalize(); auto& q = own->get_solution();
    out << bits(q.first) << " " << q.second << " " << cc.get_num_calls() << " " << Generator::uniform(); std::cout << out.str() << std::endl;
  }
}
