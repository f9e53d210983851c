// C23: no memory error or undefined behaviour on any valid input.
#include "drive.hpp"

#include "Driver.hpp"

#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <sstream>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#endif

namespace mon {
const char* const kRule =
    "one evaluation is one valid problem loaded, run and printed (or one bin "
    "index asked for) under AddressSanitizer, LeakSanitizer and "
    "UndefinedBehaviorSanitizer, or given to the program under valgrind; "
    "distinct non-trivial ones are problems in which events were observed, "
    "identified by input";

namespace {
namespace fs = std::filesystem;
struct Tally : Observer {
  std::atomic<uint64_t> ev[8]{};
  std::atomic<uint64_t> histories{0}, secondaries{0};
  void HistoryEnd(std::size_t) override { histories++; }
  void Step(const Particle& p) override { ev[EventKind(p)]++; }
  void Secondary(const Particle&, const Particle&) override { secondaries++; }
};
Config Problem(Rng& r, std::string& kind) {
  GenOpt o;
  o.photon = B(r, 0.3);
  o.sensitivities = B(r, 0.5);
  o.voids = B(r, 0.8);
  o.max_surfaces = I(r, 1, 7);
  o.max_groups = B(r, 0.2) ? 20 : 5;
  o.fission = B(r, 0.7);
  o.scale = B(r, 0.6) ? 1 : LogU(r, 1e-2, 1e4);
  o.big_offset = B(r, 0.15);
  o.density = 1 / o.scale;
  Config c;
  const double u = U(r);
  if (u < 0.05) {
    double lo, hi;
    c = Transparent(r, B(r), B(r) ? "surface" : "cell delta", &lo, &hi);
    kind = c.groups ? "multigroup, transparent" : "continuous, transparent";
  }
  else if (u < 0.45) {
    c = GenMG(r, o);
    kind = "multigroup";
  }
  else if (u < 0.7) {
    o.linear_temperature = B(r, 0.4);
    c = GenCE(r, o);
    kind = o.linear_temperature ? "continuous, linear temperature" : "continuous";
  }
  else {
    o.tsl = true;
    o.max_surfaces = 3;
    o.linear_temperature = B(r, 0.2);
    c = GenCE(r, o);
    kind = "continuous, thermal scattering";
  }
  if (c.temperature.kind == Field::Linear) {
    // temperatures stay within the declared bounds wherever particles go
    auto& f = c.temperature;
    const double T = f.At(c.src);
    f.g = 1e-6 * f.g;
    f.b = T - Dot(f.g, c.src);
    if (kind == "continuous, linear temperature" && B(r, 0.7)) {
      // the total is tabulated at the local temperature and summed at the
      // upper bound, and both are the same up to roundoff
      kind = "continuous, linear temperature, total near majorant";
      f.lo = T * U(r, 0.8, 0.99);
      f.hi = T * U(r, 1.05, 1.5);
      for (auto& n : c.nuclides)
        for (auto* d : {&n.ce_neutron, &n.ce_photon})
          if (*d) {
            auto& x = **d;
            if (!x.capture && !x.fission) x.capture = x.scatter;
            x.scatter.reset();
            x.T_total = x.T_capture = x.T_fission = T;
            std::vector<const Table1*> parts;
            for (auto* t : {&x.capture, &x.fission})
              if (*t) parts.push_back(&**t);
            x.total = SumTables(parts);
          }
    }
  }
  c.histories = B(r, 0.1) ? 1 : I(r, 1, 150);
  c.threads = B(r, 0.4) ? 1 : I(r, 1, 9);
  if (B(r, 0.1)) c.seed = 2147483647;
  if (B(r, 0.05)) c.seed = std::nullopt;
  if (B(r, 0.1))
    for (auto& e : c.estimators) { // many bins
      e.energy.kind = BinsCfg::Lin;
      e.energy.lo = 0;
      e.energy.hi = 1;
      e.energy.n = I(r, 100, 3000);
    }
  return c;
}
std::string Slurp(const fs::path& p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}

// load, run, print in this process
void InProcess(Ctx& ctx, Case& k) {
  Rng& r = k.rng;
  std::string kind;
  Config c = Problem(r, kind);
  fs::path dir;
  ScratchDir(k, dir);
  const bool other = B(r, 0.06);
  if (other) c.style = 0; // the text is edited
  const auto path = WriteProblem(c, dir);
  if (other) { // the other kind of problem
    kind = "k-eigenvalue";
    auto s = Slurp(path);
    auto rep = [&](const char* a, const char* b) {
      const auto i = s.find(a);
      if (i != std::string::npos) s.replace(i, strlen(a), b);
    };
    rep("<fixedsource>", "<keigenvalue inactive=\"2\" active=\"3\"><initialsource>");
    rep("</fixedsource>", "</initialsource></keigenvalue>");
    std::ofstream f(path);
    f << s;
  }
  Tally t;
  size_t length = 0;
  try {
    auto d = Driver::Create(path);
    SetObserver(&t);
    Quiet q;
    auto est = d->Solve();
    SetObserver(nullptr);
    const auto text = est.to_string();
    length = text.size();
    // results may outlive the driver, and be copied and added
    auto copy = est;
    copy += est;
    d.reset();
    if (copy.to_string().size() < text.size() / 2) k.Fail("print", "a copy prints less");
  }
  catch (const std::exception& e) {
    SetObserver(nullptr);
    k.Fail("exception", std::string{"a valid problem ended with: "} + e.what() + "\n" + Describe(c));
  }
  k.Eval();
  uint64_t events = 0;
  for (int i = 0; i < 8; i++) {
    events += t.ev[i];
    if (t.ev[i]) ctx.Count(std::string{"events: "} + (i < 7 ? EventName(i) : "?"), t.ev[i]);
  }
  ctx.Count("problems: " + kind);
  ctx.Count("secondaries", t.secondaries);
  if (c.threads > 1) ctx.Count("problems with several threads");
  if (events) k.Nontrivial(HashConfig(c));
  if (kind != "k-eigenvalue" && t.histories != (uint64_t)c.histories && !k.failed)
    k.Fail("histories", fmt("%d histories of %d ended", (int)t.histories, c.histories));
  if (k.id.size() % 2)
    ctx.Sample(fmt("{\"kind\":\"%s\",\"histories\":%d,\"threads\":%d,\"events\":%llu,\"printed\":%zu}",
                   kind.c_str(), c.histories, c.threads, (unsigned long long)events, length));
#if defined(__SANITIZE_ADDRESS__)
  if (__lsan_do_recoverable_leak_check())
    k.Fail("leak", "memory of a finished run is leaked (see the report of LeakSanitizer)\n" + Describe(c));
#endif
  fs::remove_all(dir);
}
// bins at values of every size
void BinIndices(Ctx& ctx, Case& k) {
  Rng& r = k.rng;
  for (int t = 0; t < 20; t++) {
    std::string xml;
    const int kind = I(r, 0, 2);
    if (kind == 2) {
      xml = "<boundaries>";
      double b = U(r, -10, 10);
      for (int n = I(r, 1, 30); n > 0; n--) {
        xml += G17(b) + " ";
        b += LogU(r, 1e-12, 1e6);
      }
      xml += "</boundaries>";
    }
    else {
      double lo, hi;
      if (kind == 0) {
        lo = B(r) ? U(r, -1e3, 1e3) : -LogU(r, 1e-300, 1e300);
        hi = std::max(lo + LogU(r, 1e-3, 1e6), lo * (lo > 0 ? 1.001 : 0.999));
      }
      else {
        lo = U(r, -20, 5);
        hi = lo + U(r, 0.01, 20);
      }
      xml = fmt("<%s min=\"%.17g\" max=\"%.17g\" bins=\"%d\"", kind ? "logspace" : "linspace", lo, hi,
                B(r, 0.2) ? I(r, 1000, 1000000) : I(r, 1, 50));
      if (kind && B(r)) xml += fmt(" base=\"%.17g\"", B(r) ? U(r, 1.0001, 20) : 2.718281828459045);
      xml += "/>";
    }
    pugi::xml_document d;
    d.load_string(xml.c_str());
    std::unique_ptr<const Bins> b;
    try {
      b = Bins::Create(d.first_child());
    }
    catch (const std::exception&) {
      continue;
    }
    const size_t n = b->size();
    if (n < 1000) b->to_string();
    std::vector<double> v{0, -0.0, 1, -1, 5e-324, -5e-324, 1e308, -1e308, 1e-308, HUGE_VAL, -HUGE_VAL};
    for (int i = 0; i < 60; i++) v.push_back((B(r) ? 1 : -1) * LogU(r, 1e-300, 1e300));
    for (int i = 0; i < 60; i++) v.push_back(U(r, -20, 20));
    for (double x : v) {
      k.Eval();
      const size_t i = b->GetIndex(x);
      if (i >= n) {
        k.Fail("bin", fmt("%s: value %.17g is put into bin %zu of %zu", xml.c_str(), x, i, n));
        return;
      }
    }
    ctx.Count("bin indices", v.size());
  }
}
// the program under valgrind: uninitialised values too
void Valgrind(Ctx& ctx, Case& k) {
  const char* exe = getenv("MINIMC_PROGRAM");
  if (!exe) return;
  Rng& r = k.rng;
  std::string kind;
  Config c = Problem(r, kind);
  c.histories = std::min(c.histories, 40);
  fs::path dir;
  ScratchDir(k, dir);
  const auto path = WriteProblem(c, dir);
  std::string out;
  const int rc = Forked([&] {
    setenv("MALLOC_PERTURB_", "0", 1);
    execlp("valgrind", "valgrind", "-q", "--error-exitcode=55", "--leak-check=full",
           "--errors-for-leak-kinds=definite", "--track-origins=no", exe, path.c_str(), (char*)nullptr);
    return 96;
  }, &out, 300);
  k.Eval();
  ctx.Count("program runs under valgrind");
  if (rc == 96) {
    ctx.Count("valgrind could not be started");
  }
  else if (rc != 0)
    k.Fail("valgrind", fmt("the program under valgrind ended with %d\n", rc) + out.substr(0, 4000) + "\n" + Describe(c));
  else k.Nontrivial(Mix(5, HashConfig(c)));
  fs::remove_all(dir);
}
} // namespace

void Run(Ctx& ctx) {
#if defined(__SANITIZE_ADDRESS__)
  ctx.Cases("bins", ctx.N(60, 2000), [&](Case& k) { BinIndices(ctx, k); });
  ctx.Cases("run", ctx.N(500, 20000), [&](Case& k) { InProcess(ctx, k); });
#else
  ctx.Cases("valgrind", ctx.N(40, 1200), [&](Case& k) { Valgrind(ctx, k); });
#endif
}
} // namespace mon
