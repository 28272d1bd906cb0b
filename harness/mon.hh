// Monitor runtime shared by all harnesses: deterministic case generation, violation reporting,
// coverage accounting, crash/hang attribution.
#ifndef MON_HH
#define MON_HH

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <stdexcept>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#include "hnco/random.hh"

namespace mon {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hstr(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
  return mix(h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + int(below(uint64_t(int64_t(b) - a + 1))); }   // inclusive
  int upto(int a, int b, int big, double p = .05) { return chance(p) ? range(b + 1, big) : range(a, b); } // now and then much larger
  long long lrange(long long a, long long b) { return a + (long long)(below(uint64_t(b - a) + 1)); }
  double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * real(); }
  bool bit() { return next() >> 63; }
  bool chance(double p) { return real() < p; }
  double gauss() { double u = 1 - real(), v = real(); return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v); }
  template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template<class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]); }
};

struct Stop {};

struct Cur { char state[16]; char group[64]; char idx[32]; char desc[65000]; };

struct Violation { std::string key, detail, group; long idx; };

struct State {
  uint64_t seed = 1; bool thorough = false; int shard = 0, nshards = 1; std::string out, tmp;
  Cur *cur = nullptr;
  std::vector<Violation> viols; std::map<std::string, int> vkeys;
  std::map<std::string, long> counts, group_cases, group_obs;
  std::unordered_set<uint64_t> covered;
  std::vector<std::string> samples; std::map<std::string, int> group_samples;
  long cases = 0, observations = 0;
  double cpu_limit = 60;
};
inline State& st() { static State s; return s; }

inline std::string vfmt(const char *f, va_list ap) {
  va_list ap2; va_copy(ap2, ap); int n = vsnprintf(nullptr, 0, f, ap2); va_end(ap2);
  std::string s(n > 0 ? n : 0, 0); if (n > 0) vsnprintf(&s[0], n + 1, f, ap); return s;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }

struct Ctx {
  Rng rng; std::string group; long idx; bool thorough;
  std::string description;

  // Describe the current case (kept in shared memory, so that it survives a crash).
  void desc(const std::string& s) {
    description = s;
    if (st().cur) { strncpy(st().cur->desc, s.c_str(), sizeof(st().cur->desc) - 1); }
  }
  void more(const std::string& s) { desc(description + " | " + s); }
  // Observations: number of oracle decisions taken.
  void obs(long n = 1) { st().observations += n; st().group_obs[group] += n; }
  void count(const std::string& name, long n = 1) { st().counts[name] += n; }
  // A distinct, non-trivial situation seen by the monitor.
  void cover(const std::string& what) { st().covered.insert(hstr(group + "/" + what)); }
  void sample(const std::string& s) {
    if (st().group_samples[group]++ < 1 && st().samples.size() < 40) st().samples.push_back(group + "#" + std::to_string(idx) + ": " + s.substr(0, 400));
  }
  [[noreturn]] void fail(const std::string& key, const std::string& detail) { note(key, detail); throw Stop(); }
  void note(const std::string& key, const std::string& detail) {
    int& n = st().vkeys[key];
    if (n++ < 3) st().viols.push_back({key, detail + (description.empty() ? "" : " [case: " + description.substr(0, 3000) + "]"), group, idx});
  }
  void check(bool ok, const std::string& key, const std::string& detail) { obs(); if (!ok) fail(key, detail); }
};

#define MON_CHECK(c, cond, key, ...) do { (c).obs(); if (!(cond)) (c).fail(key, mon::fmt(__VA_ARGS__)); } while (0)

using Fn = void (*)(Ctx&);
struct Group { std::string name; Fn fn; long quick, thorough; };
inline std::vector<Group>& groups() { static std::vector<Group> g; return g; }
struct Reg { Reg(const char *n, Fn f, long q, long t) { groups().push_back({n, f, q, t}); } };

#define CASES(name, quick, thorough) \
  static void name(mon::Ctx& c); \
  static mon::Reg reg_##name(#name, name, quick, thorough); \
  static void name(mon::Ctx& c)

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

inline void on_cpu(int) {
  if (st().cur) strcpy(st().cur->state, "HANG");
  _exit(77);
}
inline void arm(double s) {
  struct itimerval tv; memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = long(s); tv.it_value.tv_usec = long((s - long(s)) * 1e6);
  setitimer(ITIMER_PROF, &tv, nullptr);
}

inline void write_report() {
  State& s = st();
  FILE *f = fopen(s.out.c_str(), "w");
  if (!f) { perror("report"); _exit(2); }
  fprintf(f, "{\"cases\":%ld,\"observations\":%ld,\"violations\":[", s.cases, s.observations);
  for (size_t i = 0; i < s.viols.size(); i++) {
    auto& v = s.viols[i];
    fprintf(f, "%s{\"key\":%s,\"detail\":%s,\"group\":%s,\"idx\":%ld,\"times\":%d}", i ? "," : "", jstr(v.key).c_str(), jstr(v.detail).c_str(), jstr(v.group).c_str(), v.idx, s.vkeys[v.key]);
  }
  fprintf(f, "],\"counts\":{"); bool first = true;
  for (auto& p : s.counts) { fprintf(f, "%s%s:%ld", first ? "" : ",", jstr(p.first).c_str(), p.second); first = false; }
  fprintf(f, "},\"group_cases\":{"); first = true;
  for (auto& p : s.group_cases) { fprintf(f, "%s%s:%ld", first ? "" : ",", jstr(p.first).c_str(), p.second); first = false; }
  fprintf(f, "},\"group_obs\":{"); first = true;
  for (auto& p : s.group_obs) { fprintf(f, "%s%s:%ld", first ? "" : ",", jstr(p.first).c_str(), p.second); first = false; }
  fprintf(f, "},\"samples\":["); first = true;
  for (auto& p : s.samples) { fprintf(f, "%s%s", first ? "" : ",", jstr(p).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
  f = fopen((s.out + ".cov").c_str(), "wb");
  for (uint64_t h : s.covered) fwrite(&h, 8, 1, f);
  fclose(f);
}

inline int main(int argc, char **argv) {
  State& s = st();
  std::string only_group; long only_idx = -1; bool list = false; double scale = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") s.seed = std::stoull(val());
    else if (a == "--thorough") s.thorough = true;
    else if (a == "--shard") s.shard = std::stoi(val());
    else if (a == "--nshards") s.nshards = std::stoi(val());
    else if (a == "--out") s.out = val();
    else if (a == "--tmp") s.tmp = val();
    else if (a == "--group") only_group = val();
    else if (a == "--idx") only_idx = std::stol(val());
    else if (a == "--cpu") s.cpu_limit = std::stod(val());
    else if (a == "--scale") scale = std::stod(val());
    else if (a == "--list") list = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (list) { for (auto& g : groups()) printf("%s %ld %ld\n", g.name.c_str(), g.quick, g.thorough); return 0; }
  if (s.out.empty()) { fprintf(stderr, "--out required\n"); return 2; }
  {
    int fd = open((s.out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Cur))) { perror("cur"); return 2; }
    s.cur = (Cur *)mmap(nullptr, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
  }
  signal(SIGPROF, on_cpu);
  long pos = 0;
  for (auto& g : groups()) {
    long n = s.thorough ? g.thorough : g.quick;
    n = std::max(1L, long(n * scale));
    if (!only_group.empty() && g.name != only_group) { pos += n; continue; }
    for (long i = 0; i < n; i++, pos++) {
      if (only_idx >= 0) { if (i != only_idx) continue; }
      else if (pos % s.nshards != s.shard) continue;
      Ctx c; c.group = g.name; c.idx = i; c.thorough = s.thorough;
      c.rng = Rng(mix(s.seed * 0x1000193ull + 77) ^ hstr(g.name) ^ mix(uint64_t(i) + 12345));
      strcpy(s.cur->state, "RUN"); snprintf(s.cur->group, sizeof s.cur->group, "%s", g.name.c_str());
      snprintf(s.cur->idx, sizeof s.cur->idx, "%ld", i); s.cur->desc[0] = 0;
      hnco::random::Generator::set_seed(unsigned(c.rng.next() & 0x7fffffff));
      arm(s.cpu_limit); static const char *slow = getenv("MON_SLOW"); clock_t began = clock();
      try { g.fn(c); }
      catch (Stop&) {}
      catch (const std::exception& e) { c.note("exception:" + g.name, std::string("unexpected exception: ") + e.what()); }
      catch (...) { c.note("exception:" + g.name, "unexpected exception of unknown type"); }
      arm(0);
      if (slow && double(clock() - began) / CLOCKS_PER_SEC > atof(slow)) fprintf(stderr, "slow %.2f s: %s %ld %.300s\n", double(clock() - began) / CLOCKS_PER_SEC, g.name.c_str(), i, c.description.c_str());
      s.cases++; s.group_cases[g.name]++;
      if (s.viols.size() >= 60) goto done;
    }
  }
done:
  strcpy(s.cur->state, "DONE");
  write_report();
  fflush(stdout); fflush(stderr);
  _exit(0);
}

// Helpers -----------------------------------------------------------------
inline bool same_double(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
inline bool near(double a, double b, double rel = 1e-9, double abs = 1e-9) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
template<class V> std::string show(const V& v, size_t max = 400) {
  std::ostringstream o; o.precision(17); size_t k = 0;
  for (const auto& x : v) { if (k++ == max) { o << "..."; break; } if (k > 1) o << ","; o << +x; }
  return o.str();
}
template<class V> std::string showbv(const V& v, size_t max = 4000) {
  std::string s; for (const auto& x : v) { if (s.size() == max) { s += "..."; break; } s += (x ? '1' : '0'); } return s;
}
inline void spit(const std::string& path, const std::string& data) {
  FILE *f = fopen(path.c_str(), "wb"); if (!f) throw std::runtime_error("harness: cannot write " + path);
  fwrite(data.data(), 1, data.size(), f); fclose(f);
}
inline std::string slurp(const std::string& path) {
  FILE *f = fopen(path.c_str(), "rb"); if (!f) throw std::runtime_error("harness: cannot read " + path);
  std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s;
}
inline std::string tmpfile(const std::string& name) { return st().tmp + "/s" + std::to_string(st().shard) + "-" + name; }

// RAII capture of std::cout / std::cerr.
struct Capture {
  std::ostream& s; std::ostringstream o; std::streambuf *old;
  Capture(std::ostream& st) : s(st) { old = s.rdbuf(o.rdbuf()); }
  ~Capture() { s.rdbuf(old); }
  std::string str() const { return o.str(); }
};

// Two-sided binomial tail bound (normal approximation with generous z).
inline bool plausible_binomial(long n, double p, long k, double z = 7.0) {
  double m = n * p, sd = std::sqrt(std::max(n * p * (1 - p), 1e-12));
  return std::fabs(k - m) <= z * sd + 5;
}

} // namespace mon

#endif
