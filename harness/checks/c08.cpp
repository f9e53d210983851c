// C08: parallel workers run each history exactly once, without data races.
#include "drive.hpp"

#include <algorithm>
#include <atomic>
#include <sched.h>
#include <time.h>

namespace mon {
const char* const kRule =
    "one evaluation is one history of a parallel run; distinct non-trivial "
    "ones are runs whose histories were divided over two or more workers, "
    "identified by which worker ran which history";

#if defined(__SANITIZE_THREAD__)
static constexpr bool kTsan = true;
#else
static constexpr bool kTsan = false;
#endif

// Watches claims without any synchronisation of its own (relaxed atomics
// order nothing), so that it hides no data race, and delays the workers.
struct Watch : Observer {
  struct Slot {
    std::atomic<int> begun{0}, ended{0}, births{0}, thread{-1};
    std::atomic<uint64_t> rng{0}, dir{0};
  };
  std::vector<Slot> slots;
  std::atomic<int> outside{0}, next{0}, running{0}, most{0};
  std::atomic<uint64_t> misplaced{0};
  const uint64_t seed;
  const int mode;
  static thread_local uint64_t own, state;
  static thread_local int me;
  static thread_local long current;
  Watch(size_t n, uint64_t seed, int mode)
      : slots(n), seed{seed}, mode{mode} {}
  static constexpr auto rx = std::memory_order_relaxed;
  void Delay() {
    if (!mode) return;
    state = state * 6364136223846793005ull + 1442695040888963407ull;
    const unsigned u = state >> 40;
    if (mode == 1) {
      if (u % 4 == 0) sched_yield();
    }
    else if (mode == 2) {
      if (u % 8 == 0) {
        timespec t{0, (long)(u % 30000)};
        nanosleep(&t, nullptr);
      }
    }
    else {
      for (volatile unsigned i = 0; i < u % 2000; i = i + 1)
        ;
    }
  }
  void Enter() {
    if (own != seed) { // a worker of another run
      own = seed;
      me = next.fetch_add(1, rx);
      state = seed + 77 * me;
      current = -1;
    }
  }
  void HistoryBegin(size_t i) override {
    Enter();
    if (i >= slots.size()) {
      outside.fetch_add(1, rx);
      current = -2;
      return;
    }
    if (current != -1) misplaced.fetch_add(1, rx);
    current = i;
    slots[i].begun.fetch_add(1, rx);
    slots[i].thread.store(me, rx);
    const int n = running.fetch_add(1, rx) + 1;
    int m = most.load(rx);
    while (m < n && !most.compare_exchange_weak(m, n, rx))
      ;
    Delay();
  }
  void HistoryEnd(size_t i) override {
    if (i < slots.size()) slots[i].ended.fetch_add(1, rx);
    if (current != (long)i) misplaced.fetch_add(1, rx);
    current = -1;
    running.fetch_sub(1, rx);
    Delay();
  }
  void TransportBegin(const Particle& p) override {
    if (current < 0) {
      if (current == -1) misplaced.fetch_add(1, rx);
      return;
    }
    if (slots[current].births.fetch_add(1, rx) == 0) {
      slots[current].rng.store(RngPrint(p.rng), rx);
      slots[current].dir.store(Print(p), rx);
    }
  }
  void Step(const Particle&) override { Delay(); }
  static uint64_t Print(const Particle& p) {
    const V3 d = ToV3(p.GetDirection()), x = ToV3(p.GetPosition());
    return HashD(HashD(HashD(HashD(HashD(HashD(HashD(1, d.x), d.y), d.z), x.x),
                       x.y), x.z), EnergyValue(p.GetEnergy()));
  }
};
thread_local uint64_t Watch::own = 0, Watch::state = 0;
thread_local int Watch::me = 0;
thread_local long Watch::current = -1;

static void Check(Case& k, Config c, int mode) {
  Ctx& ctx = k.ctx;
  auto l = Load(c, k);
  Watch w(c.histories, k.rng() | 1, mode);
  Quiet q;
  SetObserver(&w);
  const auto est = l->probe->Solve();
  SetObserver(nullptr);
  const Source source{
      l->doc->root.child("problemtype").child("fixedsource")};
  const auto seed = c.seed.value_or(1);
  k.Eval(c.histories);
  if (w.outside)
    return k.Fail("extra", fmt("%d histories beyond the %d asked for were run",
                               (int)w.outside, c.histories));
  uint64_t h = 1;
  std::set<int> workers;
  for (int i = 0; i < c.histories; i++) {
    auto& s = w.slots[i];
    if (s.begun != 1 || s.ended != 1)
      return k.Fail("once", fmt("history %d of %d was begun %d and completed "
                                "%d times by %d threads", i, c.histories,
                                (int)s.begun, (int)s.ended, c.threads));
    const auto p = source.Sample(seed + i);
    if (s.births < 1 || RngPrint(p.rng) != s.rng || Watch::Print(p) != s.dir)
      return k.Fail("seed", fmt("history %d did not start with the particle "
                                "of seed %d + %d", i, seed, i));
    h = Mix(h, s.thread);
    workers.insert(s.thread);
  }
  if (w.misplaced)
    return k.Fail("nesting", "histories of one worker overlap");
  if (workers.size() > 1) k.Nontrivial(h);
  ctx.Count("runs");
  ctx.Count("histories", c.histories);
  if (c.threads > c.histories) ctx.Count("runs with more threads than histories");
  ctx.Count(fmt("runs with %s workers at the same time",
                w.most > 4 ? "5 or more" : w.most > 1 ? "2 to 4" : "1"));
  if (ctx.samples.size() < 3 && workers.size() > 2) {
    std::string s;
    for (int i = 0; i < std::min(c.histories, 30); i++)
      s += fmt("%s%d", i ? "," : "", (int)w.slots[i].thread);
    ctx.Sample(fmt("{\"histories\": %d, \"threads\": %d, \"worker of each "
                   "history\": [%s]}", c.histories, c.threads, s.c_str()));
  }
  // the same sums as one thread gets
  Config one = c;
  one.threads = 1;
  auto l1 = Load(one, k, "one");
  const auto est1 = l1->probe->Solve();
  const auto a = ParseOutput(est.to_string()),
             b = ParseOutput(est1.to_string());
  if (!a || !b || a->size() != b->size())
    return k.Fail("sums", "results of different form");
  for (size_t i = 0; i < a->size(); i++) {
    auto &x = (*a)[i], &y = (*b)[i];
    if (x.name != y.name || x.mean.size() != y.mean.size())
      return k.Fail("sums", "results of different form");
    double scale = 0;
    for (auto& s : y.mean) scale = std::max(scale, std::abs(atof(s.c_str())));
    for (size_t j = 0; j < x.mean.size(); j++) {
      k.Eval();
      const double m1 = atof(x.mean[j].c_str()), m2 = atof(y.mean[j].c_str()),
                   s1 = atof(x.sd[j].c_str()), s2 = atof(y.sd[j].c_str());
      // sums of scores of both signs and variances may cancel
      const double tm = x.is_sensitivity ? 1e-9 * scale : 0;
      const double ts = x.is_sensitivity ? 1e-6 * (scale + std::abs(s2)) : 1e-12;
      const bool same =
          std::abs(m1 - m2) <= 3e-6 * std::abs(m2) + tm &&
          std::abs(s1 - s2) <= 3e-6 * std::abs(s2) + ts;
      if (!same)
        return k.Fail("sums", fmt("%s bin %zu: mean %s sd %s with %d threads, "
                                  "mean %s sd %s with one",
                                  x.name.c_str(), j, x.mean[j].c_str(),
                                  x.sd[j].c_str(), c.threads,
                                  y.mean[j].c_str(), y.sd[j].c_str()));
      if (!x.is_sensitivity) {
        const double g1 = est.FindEstimatorByName(x.name).GetScore(j, 1),
                     g2 = est1.FindEstimatorByName(x.name).GetScore(j, 1);
        if (g1 != g2)
          return k.Fail("sums", fmt("%s bin %zu: sum %.17g with %d threads, "
                                    "%.17g with one", x.name.c_str(), j, g1,
                                    c.threads, g2));
        if (g1) ctx.Count("bins with scores compared");
      }
    }
  }
}

void Run(Ctx& ctx) {
  auto clean = [](Case& k) {
    std::filesystem::path dir;
    ScratchDir(k, dir);
    std::filesystem::remove_all(dir);
  };
  auto problem = [&](const char* kind) {
    return [&ctx, clean, kind = std::string{kind}](Case& k) {
      Rng& r = k.rng;
      GenOpt o;
      o.max_surfaces = 4;
      o.photon = B(r, 0.2);
      o.density = LogU(r, 0.3, 2);
      o.sensitivities = B(r);
      Config c;
      if (kind == "continuous") {
        o.linear_temperature = B(r, 0.3);
        c = GenCE(r, o);
      }
      else c = GenMG(r, o);
      const int cell = RefFindCell(c, c.src);
      if (cell < 0 || c.cells[cell].is_void) return;
      c.histories = I(r, 1, B(r, 0.3) ? 12 : kTsan ? 150 : 400);
      c.threads = B(r, 0.01) ? I(r, 200, 300) : B(r, 0.2) ? I(r, 1, 64) : I(r, 2, 12);
      Check(k, c, I(r, 0, 3));
      clean(k);
    };
  };
  ctx.Cases("multigroup", ctx.N(kTsan ? 160 : 700, kTsan ? 4000 : 20000),
            problem("multigroup"));
  ctx.Cases("continuous", ctx.N(kTsan ? 60 : 200, kTsan ? 1500 : 5000),
            problem("continuous"));
  // short histories: workers meet at the claim
  ctx.Cases("contention", ctx.N(kTsan ? 30 : 150, kTsan ? 600 : 4000),
            [&](Case& k) {
    Rng& r = k.rng;
    Config c = Infinite(U(r, 0.5, 3));
    NuclideCfg n;
    n.name = "n";
    n.mg_neutron = MGData{};
    n.mg_neutron->capture = std::vector<double>{U(r, 0.5, 2)};
    c.nuclides = {n};
    c.materials = {{"m", U(r, 0.1, 1), {{0, 1}}}};
    EstCfg e;
    e.name = "e";
    c.estimators = {e};
    c.seed = I(r, 1, 1 << 30);
    c.histories = I(r, 500, B(r, 0.3) ? 20500 : 4000);
    c.threads = I(r, 2, 24);
    Check(k, c, B(r, 0.7) ? 0 : 1);
    clean(k);
  });
}
} // namespace mon
