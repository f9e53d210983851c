#include "common.hpp"

#include <boost/math/special_functions/beta.hpp>
#include <boost/math/special_functions/gamma.hpp>

#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstring>
#include <fstream>
#include <iostream>
#include <numeric>
#include <streambuf>

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mon {

std::string fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
std::string G17(double x) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}
std::string JsonEscape(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c > 0x7e) r += fmt("\\u%04x", c);
    else r += c;
  }
  return r;
}
uint64_t Hash(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return Mix(h, s.size());
}

// ---- context ---------------------------------------------------------------
static char* status_page = nullptr;
static const char* const timeout_mark = "TIMEOUT";

static void OnProf(int) {
  if (status_page) memcpy(status_page + 3500, timeout_mark, 8);
  _exit(98);
}

void Ctx::SetStatus(const std::string& s) {
  if (!status_page) return;
  strncpy(status_page, s.c_str(), 3000);
}

void Ctx::Fail(
    const std::string& key, const std::string& case_id,
    const std::string& message) {
  failures.push_back({key, case_id, message});
  fprintf(stderr, "FAIL key=%s case=%s: %s\n", key.c_str(), case_id.c_str(),
          message.c_str());
}

void Ctx::Sample(const std::string& json) {
  if (samples.size() < 4) samples.push_back(json);
}

void Case::Fail(const std::string& key, const std::string& message) {
  failed = true;
  ctx.Fail(key, id, message);
}
void Case::Nontrivial(uint64_t h) { ctx.Distinct(h); }
void Case::Eval(uint64_t n) { ctx.evaluations += n; }

void Ctx::Cases(
    const std::string& group, int n, const std::function<void(Case&)>& body) {
  for (int i = 0; i < n; i++) {
    if (Stop()) return;
    const auto id = group + ":" + std::to_string(i);
    if (only.empty() ? (int)(Mix(Hash(group), i) % shards) != shard
                     : only != id)
      continue;
    SetStatus(id);
    struct itimerval it {};
    it.it_value.tv_sec = case_cpu_limit;
    setitimer(ITIMER_PROF, &it, nullptr);
    Case c{*this, id, Mix(Mix(seed, Hash(prop)), Hash(id))};
    try {
      body(c);
    }
    catch (const std::exception& e) {
      c.Fail("exception", std::string{"unexpected exception: "} + e.what());
    }
    it.it_value.tv_sec = 0;
    setitimer(ITIMER_PROF, &it, nullptr);
  }
  SetStatus("-");
}

int Ctx::Finish() {
  std::ofstream f{out};
  f << "{\"evaluations\": " << evaluations << ",\n\"distinct\": [";
  bool first = true;
  for (auto h : distinct) {
    f << (first ? "" : ",") << h;
    first = false;
  }
  f << "],\n\"rule\": \"" << JsonEscape(kRule) << "\",\n\"samples\": [";
  first = true;
  for (auto& s : samples) {
    f << (first ? "\"" : ",\n\"") << JsonEscape(s) << "\"";
    first = false;
  }
  f << "],\n\"counters\": {";
  first = true;
  for (auto& [k, v] : counters) {
    f << (first ? "" : ", ") << "\"" << JsonEscape(k) << "\": " << v;
    first = false;
  }
  f << "},\n\"failures\": [";
  first = true;
  for (auto& x : failures) {
    f << (first ? "" : ",\n") << "{\"key\": \"" << JsonEscape(x.key)
      << "\", \"case\": \"" << JsonEscape(x.case_id) << "\", \"message\": \""
      << JsonEscape(x.message) << "\"}";
    first = false;
  }
  f << "]}\n";
  f.close();
  return 0;
}

// ---- statistics ------------------------------------------------------------
static double KSProb(double lambda) {
  if (lambda < 0.2) return 1;
  double s = 0;
  for (int k = 1; k <= 100; k++) {
    const double t = std::exp(-2. * k * k * lambda * lambda);
    s += (k % 2 ? 1 : -1) * t;
    if (t < 1e-18) break;
  }
  return std::min(1., std::max(0., 2 * s));
}
double KS(std::vector<double> x, const std::function<double(double)>& cdf) {
  std::sort(x.begin(), x.end());
  const double n = x.size();
  if (n == 0) return 1;
  double d = 0;
  for (size_t i = 0; i < x.size(); i++) {
    if (!std::isfinite(x[i])) return 0;
    const double c = cdf(x[i]);
    d = std::max({d, c - i / n, (i + 1) / n - c});
  }
  return KSProb((std::sqrt(n) + 0.12 + 0.11 / std::sqrt(n)) * d);
}
double KS2(std::vector<double> a, std::vector<double> b) {
  for (double v : a) if (!std::isfinite(v)) return 0;
  for (double v : b) if (!std::isfinite(v)) return 0;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  double d = 0;
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) {
    const double v = std::min(a[i], b[j]);
    while (i < a.size() && a[i] <= v) i++;
    while (j < b.size() && b[j] <= v) j++;
    d = std::max(d, std::abs(double(i) / a.size() - double(j) / b.size()));
  }
  const double n = double(a.size()) * b.size() / (a.size() + b.size());
  return KSProb((std::sqrt(n) + 0.12 + 0.11 / std::sqrt(n)) * d);
}
static double Chi2Q(double x, double dof) {
  if (dof < 1) return 1;
  if (!(x >= 0)) return 0;
  return boost::math::gamma_q(dof / 2, x / 2);
}
double Chi2(const std::vector<double>& c, const std::vector<double>& p) {
  const double n = std::accumulate(c.begin(), c.end(), 0.);
  const double psum = std::accumulate(p.begin(), p.end(), 0.);
  double chi = 0, e = 0, o = 0;
  int dof = -1;
  std::vector<std::pair<double, double>> merged;
  for (size_t i = 0; i < c.size(); i++) {
    if (p[i] <= 0) {
      if (c[i] > 0) return 0;
      continue;
    }
    e += n * p[i] / psum;
    o += c[i];
    if (e >= 10) {
      merged.push_back({o, e});
      e = o = 0;
    }
  }
  if (merged.empty()) return 1;
  merged.back().first += o;
  merged.back().second += e;
  for (auto [oo, ee] : merged) {
    chi += (oo - ee) * (oo - ee) / ee;
    dof++;
  }
  return Chi2Q(chi, dof);
}
double Chi2Two(const std::vector<double>& a, const std::vector<double>& b) {
  const double na = std::accumulate(a.begin(), a.end(), 0.),
               nb = std::accumulate(b.begin(), b.end(), 0.);
  const double ka = std::sqrt(nb / na), kb = std::sqrt(na / nb);
  double chi = 0, x = 0, y = 0;
  int dof = -1;
  std::vector<std::pair<double, double>> m;
  for (size_t i = 0; i < a.size(); i++) {
    x += a[i];
    y += b[i];
    if (x + y >= 30) {
      m.push_back({x, y});
      x = y = 0;
    }
  }
  if (m.empty()) return 1;
  m.back().first += x;
  m.back().second += y;
  for (auto [p, q] : m) {
    chi += std::pow(ka * p - kb * q, 2) / (p + q);
    dof++;
  }
  return Chi2Q(chi, dof);
}
double PZ(double z) {
  if (std::isnan(z)) return 0;
  return std::erfc(std::abs(z) / std::sqrt(2.));
}
double PBinom(double k, double n, double p) {
  if (p <= 0) return k > 0 ? 0 : 1;
  if (p >= 1) return k < n ? 0 : 1;
  // P(X<=k) = I_{1-p}(n-k, k+1)
  const double lo = k >= n ? 1 : boost::math::ibeta(n - k, k + 1, 1 - p);
  const double hi = k <= 0 ? 1 : boost::math::ibeta(k, n - k + 1, p);
  return std::min(1., 2 * std::min(lo, hi));
}
bool Rejected(
    const std::function<double(int, Rng&)>& pvalue, int n, Rng& rng,
    double* worst) {
  double p = pvalue(n, rng);
  if (worst) *worst = p;
  if (p > 1e-4) return false;
  for (int k : {4, 8}) {
    p = pvalue(k * n, rng);
    if (worst) *worst = p;
    if (p > 1e-5) return false;
  }
  return true;
}

// ---- observers -------------------------------------------------------------
static Observer* observer = nullptr;
void SetObserver(Observer* o) { observer = o; }

struct NullBuf : std::streambuf {
  int overflow(int c) override { return c; }
};
static NullBuf null_buf;
Quiet::Quiet() : saved{std::cout.rdbuf(&null_buf)} {}
Quiet::~Quiet() { std::cout.rdbuf(static_cast<std::streambuf*>(saved)); }

int Forked(
    const std::function<int()>& f, std::string* output, double limit_s) {
  int fd[2];
  if (pipe(fd)) return 3000;
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    struct itimerval it {};
    setitimer(ITIMER_PROF, &it, nullptr);
    setpgid(0, 0);
    dup2(fd[1], 1);
    dup2(fd[1], 2);
    close(fd[0]);
    close(fd[1]);
    int r = 77;
    try {
      r = f();
    }
    catch (const std::exception& e) {
      fprintf(stderr, "exception escaped: %s\n", e.what());
      r = 78;
    }
    fflush(nullptr);
    std::cout.flush();
    _exit(r);
  }
  close(fd[1]);
  std::string buf;
  struct timeval t0;
  gettimeofday(&t0, nullptr);
  bool timeout = false;
  for (;;) {
    struct pollfd pf {fd[0], POLLIN, 0};
    struct timeval t;
    gettimeofday(&t, nullptr);
    const double el = t.tv_sec - t0.tv_sec + 1e-6 * (t.tv_usec - t0.tv_usec);
    if (el > limit_s) {
      timeout = true;
      kill(pid, SIGKILL);
      break;
    }
    const int r = poll(&pf, 1, 200);
    if (r > 0) {
      char b[4096];
      const ssize_t k = read(fd[0], b, sizeof b);
      if (k <= 0) break;
      if (buf.size() < 200000) buf.append(b, k);
    }
  }
  close(fd[0]);
  int st = 0;
  // the pipe may close before exit; wait with the same limit
  for (;;) {
    const pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    struct timeval t;
    gettimeofday(&t, nullptr);
    if (t.tv_sec - t0.tv_sec > limit_s && !timeout) {
      timeout = true;
      kill(pid, SIGKILL);
    }
    usleep(500);
  }
  if (output) *output = buf;
  if (timeout) return 2000;
  if (WIFSIGNALED(st)) return 1000 + WTERMSIG(st);
  return WEXITSTATUS(st);
}

} // namespace mon

// the observation points declared in /repo/src/Monitor.hpp
namespace monitor {
void HistoryBegin(std::size_t h) noexcept {
  if (mon::observer) mon::observer->HistoryBegin(h);
}
void HistoryEnd(std::size_t h) noexcept {
  if (mon::observer) mon::observer->HistoryEnd(h);
}
void TransportBegin(const Particle& p) noexcept {
  if (mon::observer) mon::observer->TransportBegin(p);
}
void TransportEnd(const Particle& p) noexcept {
  if (mon::observer) mon::observer->TransportEnd(p);
}
void Step(const Particle& p) noexcept {
  if (mon::observer) mon::observer->Step(p);
}
void Secondary(const Particle& a, const Particle& b) noexcept {
  if (mon::observer) mon::observer->Secondary(a, b);
}
} // namespace monitor

int main(int argc, char** argv) {
  mon::Ctx ctx;
  for (int i = 1; i < argc; i++) {
    const std::string a = argv[i];
    auto next = [&] { return std::string{argv[++i]}; };
    if (a == "--prop") ctx.prop = next();
    else if (a == "--seed") ctx.seed = std::stoull(next());
    else if (a == "--tier") ctx.thorough = next() == "thorough";
    else if (a == "--shard") {
      const auto s = next();
      ctx.shard = std::stoi(s);
      ctx.shards = std::stoi(s.substr(s.find('/') + 1));
    }
    else if (a == "--case") ctx.only = next();
    else if (a == "--scratch") ctx.scratch = next();
    else if (a == "--out") ctx.out = next();
    else if (a == "--status") {
      const int fd = open(next().c_str(), O_RDWR | O_CREAT, 0644);
      if (ftruncate(fd, 4096)) return 3;
      mon::status_page = static_cast<char*>(
          mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    }
  }
  signal(SIGPROF, mon::OnProf);
  std::filesystem::current_path(ctx.scratch);
  mon::Run(ctx);
  return ctx.Finish();
}
