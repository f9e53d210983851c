// C06: reported mean and standard error are those of the per-history scores.
#include "tally.hpp"

#include <algorithm>

namespace mon {
const char* const kRule =
    "one evaluation is one reported bin compared with the recorded histories; "
    "distinct non-trivial ones are bins with a score, identified by their sums "
    "of scores and of squared scores over the histories of the run";

static void CheckEstimators(Case& k, const Config& c, Result& res) {
  Ctx& ctx = k.ctx;
  const double N = c.histories;
  std::string why;
  const auto out = ParseOutput(res.est->to_string(), &why);
  if (!out) return k.Fail("format", "cannot read the reported scores: " + why);
  // sensitivities are C24's
  std::vector<Block> b;
  for (auto& x : *out)
    if (!x.is_sensitivity) b.push_back(x);
  if (b.size() != c.estimators.size())
    return k.Fail("estimators", fmt("%zu estimators reported, %zu declared",
                                    b.size(), c.estimators.size()));
  for (size_t i = 0; i < b.size(); i++) {
    auto& e = c.estimators[i];
    const auto it = std::find_if(b.begin(), b.end(),
                                 [&](auto& x) { return x.name == e.name; });
    if (it == b.end())
      return k.Fail("estimators", "estimator " + e.name + " is not reported");
    const auto ref =
        RefTally(e, res.hist, [](const Track&, size_t) { return 1.; });
    k.Eval(ref.sum.size());
    ctx.Count("crossings counted", ref.crossings);
    ctx.Count("histories with several crossings", ref.histories_multiple);
    const auto m = CompareScores(*it, ref, N);
    if (!m.empty()) return k.Fail("score", m);
    bool skip = false;
    for (size_t j = 0; j < ref.sum.size(); j++) {
      if (ref.undecidable[j]) {
        skip = true;
        continue;
      }
      const double g = res.Mean(e.name, j);
      if (std::abs(g - ref.sum[j] / N) > 1e-12 * (1 + ref.sum[j] / N))
        return k.Fail("score", fmt("%s: GetScore of bin %zu is %.17g, expected "
                                   "%.17g", e.name.c_str(), j, g,
                                   ref.sum[j] / N));
      if (ref.sum[j]) {
        ctx.Count("bins with scores");
        k.Nontrivial(HashD(HashD(j + 1, ref.sum[j]), ref.sum2[j] / N));
      }
    }
    ctx.Count("bins", ref.sum.size());
    ctx.Count("estimators");
    if (skip) ctx.Count("estimators with an event on a rounded boundary");
    if (ctx.samples.size() < 3 && ref.crossings > 20 && ref.sum.size() > 2) {
      std::string s;
      for (double x : ref.sum) s += fmt("%s%g", s.empty() ? "" : ", ", x);
      std::string t;
      for (double x : ref.sum2) t += fmt("%s%g", t.empty() ? "" : ", ", x);
      ctx.Sample(fmt("{\"histories\": %d, \"threads\": %d, \"crossings\": "
                     "%llu, \"sums\": [%s], \"sums of squares\": [%s]}",
                     c.histories, c.threads, (unsigned long long)ref.crossings,
                     s.c_str(), t.c_str()));
    }
  }
}

void Run(Ctx& ctx) {
  auto body = [&](const std::string& kind) {
    return [&ctx, kind](Case& k) {
      Rng& r = k.rng;
      GenOpt o;
      o.max_surfaces = 5;
      o.photon = B(r, 0.2);
      o.density = LogU(r, 0.2, 2);
      o.sensitivities = B(r, 0.3);
      Config c;
      if (kind == "continuous") {
        o.linear_temperature = B(r, 0.3);
        o.density = std::max(o.density, 0.4);
        c = GenCE(r, o);
      }
      else c = GenMG(r, o);
      c.histories = I(r, 1, B(r, 0.2) ? 5 : ctx.N(300, 1000));
      c.threads = B(r, 0.5) ? 1 : I(r, 1, 16);
      // several estimators at the same surface, and around the source
      const int n = c.estimators.size();
      for (int i = 0; i < n; i++)
        if (B(r, 0.4)) {
          auto e = c.estimators[i];
          e.name = fmt("again%d", i);
          if (B(r)) e.cosine = {};
          if (B(r)) e.energy = {};
          c.estimators.insert(c.estimators.begin() + I(r, 0, i), e);
        }
      const int cell = RefFindCell(c, c.src);
      if (cell < 0 || c.cells[cell].is_void) return;
      auto res = RunProblem(c, k);
      if (res.hist.size() != (size_t)c.histories) {
        // C08's business; the reported results are still to be those of N
        ctx.Count("runs with another number of histories");
      }
      CheckEstimators(k, c, res);
      std::filesystem::path dir;
      ScratchDir(k, dir);
      std::filesystem::remove_all(dir);
    };
  };
  ctx.Cases("multigroup", ctx.N(1500, 30000), body("multigroup"));
  ctx.Cases("continuous", ctx.N(300, 6000), body("continuous"));
  // estimators with very many bins
  ctx.Cases("fine", ctx.N(24, 300), [&](Case& k) {
    Rng& r = k.rng;
    GenOpt o;
    o.max_surfaces = 3;
    o.density = LogU(r, 0.05, 0.5);
    Config c = GenMG(r, o);
    if (c.estimators.size() > 1) c.estimators.resize(1);
    for (auto& e : c.estimators) {
      e.ref = RandDir(r);
      e.cosine = {};
      e.cosine.kind = BinsCfg::Lin;
      e.cosine.lo = U(r, -2, -1.001);
      e.cosine.hi = U(r, 1.001, 2);
      e.cosine.n = (int)LogU(r, 2e3, ctx.N(4e5, 3e6));
      if (B(r)) {
        e.energy = {};
        e.energy.kind = BinsCfg::Lin;
        e.energy.lo = 0;
        e.energy.hi = I(r, 1, 5);
        e.energy.n = I(r, 1, 5);
      }
      else e.energy = {};
    }
    c.histories = I(r, 50, 300);
    c.threads = I(r, 1, 3);
    const int cell = RefFindCell(c, c.src);
    if (cell < 0 || c.cells[cell].is_void || c.estimators.empty()) return;
    auto res = RunProblem(c, k);
    CheckEstimators(k, c, res);
    ctx.Count("runs with thousands of bins");
    std::filesystem::path dir;
    ScratchDir(k, dir);
    std::filesystem::remove_all(dir);
  });
  // histories that score very often, and very many histories
  ctx.Cases("busy", ctx.N(24, 300), [&](Case& k) {
    Rng& r = k.rng;
    const double R = U(r, 0.5, 3);
    Config c = Infinite(R);
    Surf plane;
    plane.kind = Surf::PlaneX;
    plane.name = "s1";
    plane.c.x = U(r, -0.7, 0.7) * R;
    c.surfaces.push_back(plane);
    CellCfg half = c.cells[0];
    c.cells[0].surfaces.push_back({1, -1});
    half.name = "half";
    half.surfaces.push_back({1, +1});
    c.cells.insert(c.cells.begin() + 1, half);
    c.src = {(B(r) ? -0.85 : 0.85) * R, 0, 0};
    c.groups = 2;
    NuclideCfg n;
    n.name = "n";
    MGData d;
    const bool often = B(r, 0.7);
    d.capture = std::vector<double>{often ? 0. : 0.1, U(r, 0.01, 0.3)};
    d.scatter = {{0, 0}, {0, U(r, 0.01, 0.5)}};
    if (often) {
      d.fission = std::vector<double>{1e6, 0};
      d.nubar = std::vector<double>{B(r) ? U(r, 1e5, 1.6e5) : LogU(r, 2e3, ctx.N(1e5, 4e5)), 0};
      d.chi = {{0, 0}, {1, 1}};
      c.histories = I(r, 2, 4);
      ctx.Count("runs with histories that score thousands of times");
    }
    else {
      c.histories = I(r, 66000, ctx.N(90000, 300000));
      ctx.Count("runs of more than 65536 histories");
    }
    n.mg_neutron = d;
    c.nuclides = {n};
    c.materials = {{"m", 1. / R, {{0, 1}}}};
    for (int i = 0; i < 3; i++) {
      EstCfg e;
      e.name = fmt("e%d", i);
      e.surface = I(r, 0, 1);
      e.ref = RandDir(r);
      if (i == 1) {
        e.cosine.kind = BinsCfg::Lin;
        e.cosine.lo = -1;
        e.cosine.hi = 1;
        e.cosine.n = I(r, 1, 300);
      }
      c.estimators.push_back(e);
    }
    c.threads = I(r, 1, 4);
    auto res = RunProblem(c, k);
    CheckEstimators(k, c, res);
    std::filesystem::path dir;
    ScratchDir(k, dir);
    std::filesystem::remove_all(dir);
  });
  // every history scores the same non-integer amount: the variance is zero
  // and must not come out negative
  ctx.Cases("equal", ctx.N(60, 1000), [&](Case& k) {
    Rng& r = k.rng;
    Config c = Infinite(U(r, 0.5, 3));
    c.groups = 1;
    NuclideCfg n;
    n.name = "n";
    n.mg_neutron = MGData{};
    n.mg_neutron->capture = std::vector<double>{U(r, 0.5, 2)};
    c.nuclides = {n};
    c.materials = {{"m", 1e-9, {{0, 1}}}};
    c.dir_kind = "constant";
    c.dir = RandDir(r);
    c.perturbations = {{"p", 0}};
    EstCfg e;
    e.name = "e";
    e.sensitivities = {"p"};
    c.estimators = {e};
    c.histories = I(r, 2, 400);
    c.threads = I(r, 1, 4);
    auto res = RunProblem(c, k);
    const auto out = ParseOutput(res.est->to_string());
    if (!out) return k.Fail("format", "cannot read the reported scores");
    for (auto& b : *out)
      for (size_t i = 0; i < b.sd.size(); i++) {
        double m, s;
        k.Eval();
        if (!ParseNumber(b.mean[i], m) || !ParseNumber(b.sd[i], s))
          return k.Fail("finite",
                        fmt("%s: %d histories with equal scores gave mean %s "
                            "and standard error %s", b.name.c_str(),
                            c.histories, b.mean[i].c_str(), b.sd[i].c_str()));
      }
    ctx.Count("runs with equal scores");
  });
}
} // namespace mon
