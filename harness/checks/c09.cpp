// C09: runs are reproducible; a history depends on its own seed only.
#include "drive.hpp"

#include <algorithm>

namespace mon {
const char* const kRule =
    "one evaluation is one history compared, event by event and bit by bit, "
    "with the same history of a differently arranged run; distinct non-trivial "
    "ones are histories with at least two events, identified by their events";

static void Variants(Ctx& ctx, Case& k, const Config& c) {
  Rng& r = k.rng;
  // disturb the heap, so that nothing can depend on addresses
  std::vector<std::unique_ptr<char[]>> junk;
  auto disturb = [&] {
    for (int i = 0; i < 400; i++) {
      junk.push_back(std::make_unique<char[]>(I(r, 8, B(r, 0.1) ? 5000 : 300)));
      if (junk.size() > 10 && B(r))
        junk.erase(junk.begin() + I(r, 0, junk.size() - 1));
    }
  };
  auto base = RunProblem(c, k, "base");
  std::vector<uint64_t> prints;
  for (auto& h : base.hist) {
    prints.push_back(HistPrint(h));
    if (HistSteps(h) > 1) k.Nontrivial(prints.back());
  }
  if (base.hist.size() != (size_t)c.histories) {
    ctx.Count("runs with another number of histories"); // C08
    return;
  }
  const std::string text = base.est->to_string();
  auto compare = [&](const char* what, const Config& d, int shift) {
    disturb();
    auto res = RunProblem(d, k, "variant");
    size_t n = 0;
    for (auto& h : res.hist) {
      const long i = (long)h.id + shift;
      if (i < 0 || i >= (long)base.hist.size()) continue;
      n++;
      if (HistPrint(h) != prints[i]) {
        k.Fail("differs", fmt("%s: history %zu differs from history %ld of the "
                              "first run: ", what, h.id, i) +
                              HistTell(h, base.hist[i]));
        return false;
      }
    }
    k.Eval(n);
    ctx.Count(fmt("histories compared: %s", what), n);
    return true;
  };
  {
    disturb();
    auto res = RunProblem(c, k, "again");
    for (size_t i = 0; i < base.hist.size(); i++)
      if (i >= res.hist.size() || HistPrint(res.hist[i]) != prints[i])
        return k.Fail("differs",
                      fmt("loaded and run again: history %zu differs: ", i) +
                          (i < res.hist.size()
                               ? HistTell(res.hist[i], base.hist[i])
                               : "missing"));
    k.Eval(base.hist.size());
    ctx.Count("histories compared: again", base.hist.size());
    if (c.threads == 1 && res.est->to_string() != text)
      return k.Fail("result", "the same run reports another result");
    ctx.Count("results compared");
  }
  Config d = c;
  d.threads = I(r, 2, 12);
  if (!compare("other number of threads", d, 0)) return;
  d = c;
  d.histories += I(r, 1, 60);
  if (!compare("more histories", d, 0)) return;
  d = c;
  d.histories = I(r, 1, c.histories);
  if (!compare("fewer histories", d, 0)) return;
  d = c;
  const int s = I(r, 1, c.histories - 1);
  d.seed = base.loaded->probe->Seed() + s;
  d.histories = std::max(1, c.histories - s);
  d.threads = I(r, 1, 4);
  if (!compare("later seed", d, s)) return;
  d = c;
  d.estimators.clear();
  d.perturbations.clear();
  if (!c.estimators.empty()) {
    // one estimator has to stay
    d.estimators = {c.estimators.back()};
    d.estimators[0].sensitivities.clear();
    d.estimators[0].energy = {};
    d.estimators[0].cosine = {};
  }
  if (!compare("other estimators", d, 0)) return;
  d = c;
  d.chunksize = I(r, 1, 1000);
  for (auto& e : d.estimators)
    if (B(r)) e.name += "x";
  if (B(r)) d.perturbations.clear();
  if (d.perturbations.empty())
    for (auto& e : d.estimators) e.sensitivities.clear();
  compare("other chunk size and names", d, 0);
}

void Run(Ctx& ctx) {
  auto body = [&](const std::string& kind) {
    return [&ctx, kind](Case& k) {
      Rng& r = k.rng;
      GenOpt o;
      o.max_surfaces = 5;
      o.photon = B(r, 0.2);
      o.density = LogU(r, 0.3, 2);
      o.sensitivities = B(r);
      Config c;
      if (kind != "multigroup") {
        o.linear_temperature = B(r, 0.4);
        c = GenCE(r, o);
      }
      else c = GenMG(r, o);
      if (c.estimators.empty()) return;
      const int cell = RefFindCell(c, c.src);
      if (cell < 0 || c.cells[cell].is_void) return;
      c.histories = I(r, 2, ctx.N(150, 300));
      c.threads = B(r, 0.7) ? 1 : I(r, 2, 8);
      if (B(r, 0.1)) {
        c.seed = std::nullopt;
        ctx.Count("runs without a declared seed");
      }
      Variants(ctx, k, c);
      std::filesystem::path dir;
      ScratchDir(k, dir);
      std::filesystem::remove_all(dir);
    };
  };
  ctx.Cases("multigroup", ctx.N(900, 15000), body("multigroup"));
  ctx.Cases("continuous", ctx.N(250, 4000), body("continuous"));
}
} // namespace mon
