// C28: the outcome depends on what an input says, not on how it is spelled.
#include "drive.hpp"

#include <algorithm>
#include <fstream>
#include <numeric>

namespace mon {
const char* const kRule =
    "one evaluation is one history compared, event by event and bit by bit, "
    "with the same history of the same problem declared in other words; "
    "distinct non-trivial ones are histories with at least two events, "
    "identified by their events and the other spelling";

namespace {
std::string Slurp(const std::string& f) {
  std::ifstream i{f, std::ios::binary};
  return {std::istreambuf_iterator<char>{i}, {}};
}

template <class T> std::vector<int> Shuffle(Rng& r, std::vector<T>& v) {
  std::vector<int> at(v.size()); // new position -> old
  std::iota(at.begin(), at.end(), 0);
  std::shuffle(at.begin(), at.end(), r);
  std::vector<T> w;
  for (int i : at) w.push_back(v[i]);
  v = w;
  return at;
}
std::vector<int> Inverse(const std::vector<int>& p) {
  std::vector<int> q(p.size());
  for (size_t i = 0; i < p.size(); i++) q[p[i]] = static_cast<int>(i);
  return q;
}

struct Base {
  Config c;
  Result res;
  std::vector<uint64_t> prints;
};

/// Compares a run with the first one; `old` maps surfaces to those of the
/// first run.
bool Same(
    Ctx& ctx, Case& k, const Base& b, const Config& d, const char* what,
    const std::vector<int>* old,
    const std::function<std::string(const std::string&)>& xml) {
  Result res;
  try {
    res = RunProblem(d, k, "other");
  }
  catch (const std::exception& e) {
    k.Fail("refused", fmt("%s: refused: %s\n", what, e.what()) + xml("other"));
    return false;
  }
  if (res.hist.size() != b.res.hist.size()) {
    k.Fail("histories", fmt("%s: %zu histories instead of %zu\n", what,
                            res.hist.size(), b.res.hist.size()) + xml("other"));
    return false;
  }
  for (size_t i = 0; i < res.hist.size(); i++) {
    k.Eval();
    const auto p = HistPrint(res.hist[i], old);
    if (p != b.prints[i]) {
      k.Fail("histories", fmt("%s: history %zu differs: ", what, i) +
                              HistTell(b.res.hist[i], res.hist[i]) + "\n" +
                              xml("other"));
      return false;
    }
    if (HistSteps(res.hist[i]) > 1) k.Nontrivial(Mix(p, d.style));
  }
  ctx.Count(fmt("histories compared: %s", what), res.hist.size());
  return true;
}

void Body(Ctx& ctx, Case& k, const std::string& kind) {
  Rng& r = k.rng;
  GenOpt o;
  o.max_surfaces = 5;
  o.photon = B(r, 0.3);
  o.density = LogU(r, 0.3, 2);
  o.sensitivities = B(r);
  Config c;
  if (kind != "multigroup") {
    o.tsl = B(r, 0.4);
    o.linear_temperature = !o.tsl && B(r, 0.3);
    if (o.tsl) o.max_surfaces = 2;
    c = GenCE(r, o);
  }
  else c = GenMG(r, o);
  const int cell = RefFindCell(c, c.src);
  std::filesystem::path dir;
  ScratchDir(k, dir);
  c.histories = I(r, 2, ctx.N(60, 120));
  c.threads = 1;
  c.style = 0;
  c.reorder_reactions = false;
  if (B(r, 0.1)) c.seed = std::nullopt;
  if (cell >= 0 && !c.cells[cell].is_void && !c.estimators.empty()) {
    Base b;
    b.c = c;
    b.res = RunProblem(c, k, "base");
    for (auto& h : b.res.hist) b.prints.push_back(HistPrint(h));
    const std::string text = b.res.est->to_string();
    auto shown = [&](const std::string& stem) {
      return Slurp((dir / (stem + ".xml")).string()).substr(0, 12000);
    };
    auto result = [&](const Config& d, const char* what) {
      // run without recording: what the program reports
      auto res = RunProblem(d, k, "other", false);
      const auto got = res.est->to_string();
      if (got != text) {
        size_t i = 0;
        while (i < got.size() && i < text.size() && got[i] == text[i]) i++;
        const size_t f = i > 200 ? i - 200 : 0;
        k.Fail("result", fmt("%s: reports\n", what) + got.substr(f, 500) +
                             "\ninstead of\n" + text.substr(f, 500) + "\n" +
                             shown("other"));
        return false;
      }
      ctx.Count("reported results compared");
      return true;
    };
    bool good = true;
    for (int i = 0; i < 4 && good; i++) {
      Config d = c;
      d.style = r() | 1;
      good = Same(ctx, k, b, d, "other spelling", nullptr, shown) &&
             result(d, "other spelling");
    }
    if (good) {
      // other order of the declarations
      Config d = c;
      d.style = B(r) ? r() | 1 : 0;
      const auto s = Shuffle(r, d.surfaces);
      const auto si = Inverse(s);
      const auto ni = Inverse(Shuffle(r, d.nuclides));
      const auto mi = Inverse(Shuffle(r, d.materials));
      for (auto& m : d.materials) {
        for (auto& [n, f] : m.nuclides) n = ni[n];
        Shuffle(r, m.nuclides);
      }
      for (auto& x : d.cells) {
        if (!x.is_void) x.material = mi[x.material];
        for (auto& [n, f] : x.surfaces) n = si[n];
      }
      for (auto& e : d.estimators) e.surface = si[e.surface];
      for (auto& [n, i] : d.perturbations) i = ni[i];
      if (B(r)) std::reverse(d.particles.begin(), d.particles.end());
      good = Same(ctx, k, b, d, "other order", &s, shown) && result(d, "other order");
    }
    if (good) {
      // declarations nothing refers to
      Config d = c;
      d.style = B(r) ? r() | 1 : 0;
      Surf extra = Pick(r, d.surfaces);
      extra.name = "\t unused surface" + std::to_string(I(r, 0, 99));
      extra.r += 0.25;
      d.surfaces.push_back(extra);
      MaterialCfg m = Pick(r, d.materials);
      m.name = "unused material";
      m.aden *= 3;
      d.materials.push_back(m);
      NuclideCfg n = Pick(r, d.nuclides);
      n.name = "000 unused nuclide";
      if (B(r)) d.nuclides.push_back(n);
      good = Same(ctx, k, b, d, "unused declarations", nullptr, shown) &&
             result(d, "unused declarations");
    }
    if (good && c.surfaces.size() < 200) {
      // other names of everything but nuclides (which are sampled by name)
      Config d = c;
      for (auto& x : d.surfaces) x.name = "S" + std::to_string(r() % 1000) + x.name;
      for (auto& x : d.materials) x.name = "M" + std::to_string(r() % 1000) + x.name;
      for (auto& x : d.cells)
        if (!x.is_void) x.name = "C" + std::to_string(r() % 1000) + x.name;
      good = Same(ctx, k, b, d, "other names", nullptr, shown) &&
             result(d, "other names");
    }
  }
  std::filesystem::remove_all(dir);
}
} // namespace

void Run(Ctx& ctx) {
  for (const char* kind : {"multigroup", "continuous"})
    ctx.Cases(kind, kind[0] == 'm' ? ctx.N(700, 12000) : ctx.N(300, 5000),
              [&ctx, kind](Case& k) { Body(ctx, k, kind); });
}
} // namespace mon
