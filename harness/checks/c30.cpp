// C30: memory, files and threads do not accumulate.
#include "drive.hpp"

#include "H5Cpp.h"

#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <malloc.h>
#include <new>

// All memory of C++ objects, counted
static std::atomic<long> live{0};
static thread_local long mine = 0; // of this thread: freed elsewhere too
static void* Take(std::size_t n, std::size_t align) {
  void* p = align > 16 ? std::aligned_alloc(align, (n + align - 1) / align * align)
                       : std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc{};
  const long u = static_cast<long>(malloc_usable_size(p));
  live.fetch_add(u, std::memory_order_relaxed);
  mine += u;
  return p;
}
static void Give(void* p) noexcept {
  if (!p) return;
  const long u = static_cast<long>(malloc_usable_size(p));
  live.fetch_sub(u, std::memory_order_relaxed);
  mine -= u;
  std::free(p);
}
void* operator new(std::size_t n) { return Take(n, 1); }
void* operator new[](std::size_t n) { return Take(n, 1); }
void* operator new(std::size_t n, std::align_val_t a) { return Take(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return Take(n, static_cast<std::size_t>(a)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return Take(n, 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return Take(n, 1); }
void operator delete(void* p) noexcept { Give(p); }
void operator delete[](void* p) noexcept { Give(p); }
void operator delete(void* p, std::size_t) noexcept { Give(p); }
void operator delete[](void* p, std::size_t) noexcept { Give(p); }
void operator delete(void* p, std::align_val_t) noexcept { Give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { Give(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { Give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Give(p); }

namespace mon {
const char* const kRule =
    "one evaluation is one history at whose end the memory held by its worker "
    "was compared with that after earlier histories, or one load-run-destroy "
    "cycle after which memory, open files and threads were compared with those "
    "after earlier cycles; distinct non-trivial ones are runs and cycles, "
    "identified by problem";

namespace {
size_t Entries(const char* dir) {
  size_t n = 0;
  for (auto& e : std::filesystem::directory_iterator(dir)) {
    (void)e;
    n++;
  }
  return n;
}

/// Memory allocated by each worker (less what it freed) between its histories
struct Meter : Observer {
  static constexpr size_t kMax = 64;
  struct Line {
    std::vector<long> at; // reserved in advance
  };
  explicit Meter(size_t n) {
    for (auto& l : lines) l.at.reserve(n + 1);
  }
  void HistoryBegin(std::size_t) override {
    auto& l = lines[Slot()].at;
    if (l.size() < l.capacity()) l.push_back(mine);
  }
  size_t Slot() {
    static thread_local const Meter* of = nullptr;
    static thread_local size_t slot = 0;
    if (of != this || gen != last_gen()) {
      of = this;
      last_gen() = gen;
      slot = next.fetch_add(1) % kMax;
    }
    return slot;
  }
  static size_t& last_gen() {
    static thread_local size_t g = 0;
    return g;
  }
  static inline std::atomic<size_t> generation{1};
  const size_t gen = generation++;
  std::atomic<size_t> next{0};
  std::array<Line, kMax> lines;
};

struct Effort : Observer {
  std::atomic<long> steps{1};
  void Step(const Particle&) override { steps++; }
};

Config Problem(Rng& r) {
  GenOpt o;
  o.max_surfaces = 5;
  o.photon = B(r, 0.3);
  o.density = LogU(r, 0.3, 2);
  o.sensitivities = B(r);
  if (B(r, 0.6)) return GenMG(r, o);
  o.tsl = B(r, 0.3);
  if (o.tsl) o.max_surfaces = 2;
  o.linear_temperature = !o.tsl && B(r, 0.3);
  return GenCE(r, o);
}

void Histories(Ctx& ctx, Case& k) {
  Rng& r = k.rng;
  Config c = Problem(r);
  const int cell = RefFindCell(c, c.src);
  std::filesystem::path dir;
  ScratchDir(k, dir);
  if (cell >= 0 && !c.cells[cell].is_void && !c.estimators.empty()) {
    c.threads = 1;
    c.histories = 200;
    // long runs of short histories (a linear temperature is only that within
    // reach of the source)
    const bool cheap = B(r, 0.15) && c.temperature.kind != Field::Linear;
    if (cheap) {
      c.estimators.resize(1);
      for (auto& m : c.materials) m.aden *= 1e-3;
    }
    Effort effort;
    {
      auto l = Load(c, k);
      Quiet q;
      SetObserver(&effort);
      auto e = l->probe->Solve();
      SetObserver(nullptr);
    }
    c.threads = B(r) ? 1 : I(r, 2, 8);
    c.histories = I(r, 400, 1200) * c.threads;
    if (cheap) // as many as can be afforded
      c.histories *= std::clamp(1e6 / (effort.steps.load() / 200. * c.histories), 1., 20.);
    // A buffer which is kept grows to what the largest history needs, and may
    // do so late: what grows in a run must grow in others like it, too
    std::string what;
    for (int repeat = 0; repeat < 5; repeat++) {
      auto l = Load(c, k);
      Meter m(c.histories);
      {
        Quiet q;
        SetObserver(&m);
        auto e = l->probe->Solve();
        SetObserver(nullptr);
      }
      bool grows = false;
      for (auto& line : m.lines) {
        const auto& v = line.at;
        if (v.size() < 100) continue;
        const size_t h = v.size() / 2;
        const long a = *std::max_element(v.begin(), v.begin() + h),
                   b = *std::max_element(v.begin() + h, v.end());
        const long end = v.back(), mid = v[h];
        k.Eval(v.size());
        k.Nontrivial(Mix(HashConfig(c), v.size()));
        ctx.Count("workers watched");
        ctx.Count("histories watched", v.size());
        ctx.Count("bytes gained in second halves", std::max(0L, b - a));
        ctx.Count("workers that gained", b > a);
        // what little is left behind each time, too
        bool creeps = true;
        std::vector<long> least;
        for (size_t i = 0; i < 8; i++)
          least.push_back(*std::min_element(v.begin() + v.size() * i / 8,
                                            v.begin() + v.size() * (i + 1) / 8));
        for (size_t i = 2; i < 8; i++) creeps &= least[i] > least[i - 1];
        if (creeps || (b - a > 2048 && end - mid > 2048)) {
          grows = true;
          what = fmt("a worker held at most %ld bytes more than at its start between its "
                     "first %zu histories and %ld between the next %zu; ",
                     a - v[0], h, b - v[0], v.size() - h);
        }
      }
      if (!grows) break;
      if (repeat == 4) k.Fail("histories", what + Describe(c));
      c.seed = Seed31(r);
    }
  }
  std::filesystem::remove_all(dir);
}

void Cycles(Ctx& ctx, Case& k) {
  Rng& r = k.rng;
  Config c = Problem(r);
  const int cell = RefFindCell(c, c.src);
  std::filesystem::path dir;
  ScratchDir(k, dir);
  if (cell >= 0 && !c.cells[cell].is_void && !c.estimators.empty()) {
    c.threads = I(r, 1, 8);
    c.histories = I(r, 1, 40);
    const int fault = B(r) ? 0 : I(r, 1, 6);
    const auto path = WriteProblem(c, dir);
    if (fault == 1) { // text cut off
      const auto n = std::filesystem::file_size(path);
      std::filesystem::resize_file(path, I(r, 0, static_cast<int>(n) - 1));
    }
    else if (fault == 2) { // the last of the data files is missing or broken
      std::vector<std::filesystem::path> h5;
      for (auto& e : std::filesystem::directory_iterator(dir))
        if (e.path().extension() == ".h5") h5.push_back(e.path());
      std::sort(h5.begin(), h5.end());
      if (h5.empty()) std::filesystem::remove(path);
      else {
        const auto f = Pick(r, h5);
        if (B(r)) std::filesystem::remove(f);
        else std::filesystem::resize_file(f, std::filesystem::file_size(f) * U(r));
      }
    }
    else if (fault == 3) { // a source in no cell's reach
      Config d = c;
      d.particle = d.particle == "photon" ? "neutron" : "photon";
      if (d.particles.size() > 1) d.particles = {c.particle};
      WriteProblem(d, dir);
    }
    else if (fault == 4) {
      Config d = c;
      d.estimators.back().surface = 0;
      d.surfaces[0].name += "'";
      std::string x = ToXML(c, (dir / "problem_").string());
      const auto i = x.find("<current name=");
      x.insert(x.find("surface=\"", i) + 9, "no such ");
      std::ofstream{path} << x;
    }
    else if (fault >= 5) { // a data file is HDF5, but not what it should be
      std::vector<std::filesystem::path> h5;
      for (auto& e : std::filesystem::directory_iterator(dir))
        if (e.path().extension() == ".h5") h5.push_back(e.path());
      std::sort(h5.begin(), h5.end());
      if (!h5.empty()) {
        const auto f = Pick(r, h5).string();
        if (fault == 5) { // another number of dimensions
          const size_t n = B(r) ? 3 : I(r, 4, 6);
          WriteH5(f, std::vector<std::vector<double>>(n, {1.}), {1.});
        }
        else { // something is missing
          const char* what[] = {"/pandas/axis1_level0", "/pandas/block0_values", "/pandas"};
          const H5::H5File file(f, H5F_ACC_RDWR);
          file.unlink(what[I(r, 0, 2)]);
        }
      }
    }
    // files which are open still can be told from those in their place
    const bool renew = B(r);
    auto Renew = [&] {
      std::vector<std::filesystem::path> all;
      for (auto& e : std::filesystem::directory_iterator(dir))
        if (e.is_regular_file()) all.push_back(e.path());
      for (auto& f : all) {
        std::filesystem::copy_file(f, f.string() + "~");
        std::filesystem::rename(f.string() + "~", f);
      }
    };
    std::vector<long> objects, heap;
    std::vector<size_t> files, threads;
    const int N = 12;
    objects.reserve(N), heap.reserve(N), files.reserve(N), threads.reserve(N);
    std::string what;
    bool ok = true;
    for (int i = 0; i < N; i++) {
      if (renew) Renew();
      {
        Quiet q;
        try {
          Loaded l{path};
          auto e = l.probe->Solve();
        }
        catch (...) { // some of HDF5's are no std::exception
          ok = false;
        }
      }
      objects.push_back(live.load());
      // what the libraries keep for later is not held by the program
      try {
        H5::H5Library::garbageCollect();
      }
      catch (...) {
      }
      heap.push_back(static_cast<long>(mallinfo2().uordblks));
      files.push_back(Entries("/proc/self/fd"));
      threads.push_back(Entries("/proc/self/task"));
    }
    k.Eval(N);
    k.Nontrivial(HashConfig(c));
    ctx.Count(ok ? "cycles of runs" : "cycles of refused inputs", N);
    ctx.Count("bytes of objects gained", std::max(0L, objects[N - 1] - objects[3]));
    ctx.Count("bytes of the heap gained", std::max(0L, heap[N - 1] - heap[3]));
    auto fail = [&](const char* w, double a, double b) {
      k.Fail("cycles", fmt("%s: %g after 4 cycles of loading%s, %g after %d (fault %d); ", w, a,
                           ok ? ", running and destroying" : " what is refused", b, N, fault) +
                           Describe(c));
    };
    if (files[N - 1] > files[3]) fail("open files", files[3], files[N - 1]);
    if (threads[N - 1] > threads[3]) fail("threads", threads[3], threads[N - 1]);
    bool grows = true, hgrows = true;
    for (int i = 4; i < N; i++) {
      grows &= objects[i] > objects[i - 1];
      hgrows &= heap[i] > heap[i - 1];
    }
    if (grows) fail("bytes of objects", objects[3], objects[N - 1]);
    if (hgrows) fail("bytes of the heap", heap[3], heap[N - 1]);
  }
  std::filesystem::remove_all(dir);
}
} // namespace

void Run(Ctx& ctx) {
  ctx.Cases("histories", ctx.N(300, 5000), [&](Case& k) { Histories(ctx, k); });
  ctx.Cases("cycles", ctx.N(400, 6000), [&](Case& k) { Cycles(ctx, k); });
}
} // namespace mon
