// Common machinery of all monitors: cases, failures, evidence, statistics,
// dispatch of the observation points in /repo (src/Monitor.hpp).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <filesystem>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <string>
#include <utility>
#include <vector>

class Particle;

namespace mon {

using Rng = std::mt19937_64;
using real = double;

// ---- random helpers -------------------------------------------------------
inline double U(Rng& r) { return std::uniform_real_distribution<double>{}(r); }
inline double U(Rng& r, double a, double b) { return a + (b - a) * U(r); }
inline double LogU(Rng& r, double a, double b) {
  return std::exp(U(r, std::log(a), std::log(b)));
}
inline int I(Rng& r, int a, int b) {
  return std::uniform_int_distribution<int>{a, b}(r);
}
inline bool B(Rng& r, double p = 0.5) { return U(r) < p; }
template <class T> const T& Pick(Rng& r, const std::vector<T>& v) {
  return v[I(r, 0, (int)v.size() - 1)];
}
// a well spread seed for the code's own generator
inline unsigned Seed31(Rng& r) {
  return std::uniform_int_distribution<unsigned>{1, 2147483645u}(r);
}

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string G17(double x);
std::string JsonEscape(const std::string& s);
uint64_t Hash(const std::string& s);
inline uint64_t Mix(uint64_t a, uint64_t b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 12) + (a >> 4);
  a *= 0xff51afd7ed558ccdull;
  a ^= a >> 33;
  return a;
}
inline uint64_t HashD(uint64_t h, double x) {
  uint64_t u;
  __builtin_memcpy(&u, &x, 8);
  return Mix(h, u);
}

// ---- a check's context ----------------------------------------------------
class Ctx;
class Case {
public:
  Case(Ctx& ctx, std::string id, uint64_t seed)
      : ctx{ctx}, id{std::move(id)}, rng{seed} {}
  Ctx& ctx;
  const std::string id;
  Rng rng;
  bool failed = false;
  // report a violation; `key` identifies what failed (for known findings)
  void Fail(const std::string& key, const std::string& message);
  // count one evaluation; `h` identifies it among distinct non-trivial ones
  void Nontrivial(uint64_t h);
  void Eval(uint64_t n = 1);
};

class Ctx {
public:
  std::string prop;
  uint64_t seed = 1;
  bool thorough = false;
  int shard = 0, shards = 1;
  std::string only; // run this case only
  std::filesystem::path scratch;
  std::string rule;
  // quick or thorough count
  int N(int quick, int thorough_n) const {
    return thorough ? thorough_n : quick;
  }
  // run n cases of a group; cases are distributed over shards
  void Cases(
      const std::string& group, int n, const std::function<void(Case&)>& body);
  void Count(const std::string& name, uint64_t n = 1) { counters[name] += n; }
  void Sample(const std::string& json);
  void Eval(uint64_t n) { evaluations += n; }
  void Distinct(uint64_t h) {
    if (distinct.size() < 250000) distinct.insert(h);
  }
  void Fail(const std::string& key, const std::string& case_id,
            const std::string& message);
  bool Stop() const { return failures.size() >= 12; }
  void SetStatus(const std::string& s);
  int Finish();
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  uint64_t evaluations = 0;
  std::set<uint64_t> distinct;
  struct Failure {
    std::string key, case_id, message;
  };
  std::vector<Failure> failures;
  std::string out;
  int case_cpu_limit = 150; // seconds of CPU time per case
};

// each check defines this
extern const char* const kRule;
void Run(Ctx& ctx);

// ---- statistics -----------------------------------------------------------
// p-value of the Kolmogorov-Smirnov test of x against a continuous cdf
double KS(std::vector<double> x, const std::function<double(double)>& cdf);
double KS2(std::vector<double> a, std::vector<double> b);
// p-value of a chi-square test of counts against probabilities; bins are
// merged until expectations reach 10; an observation where the probability is
// 0 gives 0
double Chi2(const std::vector<double>& counts, const std::vector<double>& probs);
// two-sample chi2
double Chi2Two(const std::vector<double>& a, const std::vector<double>& b);
// two-sided p-value of a standard normal z
double PZ(double z);
// two-sided exact-ish binomial p-value
double PBinom(double k, double n, double p);
// Runs `pvalue(n, rng)`; if suspicious (<1e-4) repeats with 4n fresh samples
// and again with 8n; returns true if every repeat is below 1e-5: violated.
bool Rejected(
    const std::function<double(int, Rng&)>& pvalue, int n, Rng& rng,
    double* worst = nullptr);

// ---- observation of the code ----------------------------------------------
struct Observer {
  virtual ~Observer() = default;
  virtual void HistoryBegin(std::size_t) {}
  virtual void HistoryEnd(std::size_t) {}
  virtual void TransportBegin(const Particle&) {}
  virtual void TransportEnd(const Particle&) {}
  virtual void Step(const Particle&) {}
  virtual void Secondary(const Particle&, const Particle&) {}
};
// observer of all threads; null: none
void SetObserver(Observer* o);

// silence std::cout while alive
class Quiet {
public:
  Quiet();
  ~Quiet();

private:
  void* saved;
};

// Runs `f` in a forked child. Result: 0..255 exit code, 1000+signal if killed,
// 2000 if the time limit (wall seconds) is exceeded. stderr+stdout captured.
int Forked(
    const std::function<int()>& f, std::string* output, double limit_s = 60);

} // namespace mon
