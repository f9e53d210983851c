// C05: particle balance.
#include "drive.hpp"

#include <algorithm>

namespace mon {
const char* const kRule =
    "one evaluation is one transported particle; distinct non-trivial ones "
    "are the trees of particles of histories with fissions (per particle: "
    "terminal event, number of events and secondaries)";

static void Balance(Case& k, const Config& c, Result& res, bool threads) {
  Ctx& ctx = k.ctx;
  if (!res.protocol_error.empty())
    return k.Fail("protocol", res.protocol_error);
  uint64_t captures = 0, fissions = 0, leaks = 0, secondaries = 0;
  for (auto& h : res.hist) {
    auto fail = [&](const char* key, const std::string& m) {
      k.Fail(key, fmt("history %zu: ", h.id) + m);
    };
    if (h.tracks.empty()) return fail("source", "no particle was transported");
    std::vector<Birth> made, born;
    uint64_t tree = 0;
    for (size_t ti = 0; ti < h.tracks.size(); ti++) {
      auto& t = h.tracks[ti];
      k.Eval();
      if (!t.ended) return fail("unended", "a particle's transport did not end");
      if (t.steps.empty())
        return fail("terminal", fmt("particle %zu had no event at all", ti));
      for (size_t i = 0; i < t.steps.size(); i++) {
        auto& e = t.steps[i];
        const bool terminal = e.event == eCapture || e.event == eFission ||
                              e.event == eLeak;
        const bool last = i + 1 == t.steps.size();
        if (terminal != last)
          return fail("terminal",
                      fmt("particle %zu: event %zu of %zu is %s", ti, i + 1,
                          t.steps.size(), EventName(e.event)));
        if (e.event == eBirth || e.event == eOther)
          return fail("terminal", fmt("particle %zu: event %s", ti,
                                      EventName(e.event)));
        if (e.cell < 0)
          return fail("cell", "a particle in no cell of the world");
        if ((e.event == eLeak) != c.cells[e.cell].is_void)
          return fail("leak", fmt("particle %zu: event %s in a %s cell", ti,
                                  EventName(e.event),
                                  c.cells[e.cell].is_void ? "void" : "filled"));
      }
      const Ev& end = t.steps.back();
      captures += end.event == eCapture;
      fissions += end.event == eFission;
      leaks += end.event == eLeak;
      for (size_t i = 0; i < t.secondaries.size(); i++) {
        const Birth& b = t.secondaries[i];
        if (t.sec_at[i] + 1 != t.steps.size() || end.event != eFission)
          return fail("secondary", fmt("particle %zu: a secondary was produced "
                                       "by another event than a fission", ti));
        if (b.pos.x != end.pos.x || b.pos.y != end.pos.y ||
            b.pos.z != end.pos.z)
          return fail("secondary",
                      fmt("particle %zu: secondary starts at (%.17g, %.17g, "
                          "%.17g), the fission was at (%.17g, %.17g, %.17g)",
                          ti, b.pos.x, b.pos.y, b.pos.z, end.pos.x, end.pos.y,
                          end.pos.z));
        if (b.cell != end.cell)
          return fail("secondary", fmt("particle %zu: secondary starts in cell "
                                       "%d, the fission was in cell %d", ti,
                                       b.cell, end.cell));
        if (b.type != (int)Particle::Type::neutron || b.event != eBirth)
          return fail("secondary", "a secondary is not a newborn neutron");
        made.push_back(b);
      }
      secondaries += t.secondaries.size();
      if (ti > 0) born.push_back(t.birth);
      tree = Mix(tree, Mix(end.event, Mix(t.steps.size(), t.secondaries.size())));
    }
    // every secondary is transported exactly once, nothing else is
    std::sort(made.begin(), made.end());
    std::sort(born.begin(), born.end());
    if (made.size() != born.size())
      return fail("conservation",
                  fmt("%zu secondaries were produced, %zu particles besides "
                      "the source particle were transported", made.size(),
                      born.size()));
    for (size_t i = 0; i < made.size(); i++)
      if (!(made[i] == born[i]))
        return fail("conservation",
                    fmt("the secondaries transported are not those produced: "
                        "produced at (%.17g, %.17g, %.17g) energy %g, "
                        "transported from (%.17g, %.17g, %.17g) energy %g",
                        made[i].pos.x, made[i].pos.y, made[i].pos.z,
                        made[i].energy, born[i].pos.x, born[i].pos.y,
                        born[i].pos.z, born[i].energy));
    auto& s = h.tracks[0].birth;
    if (s.pos.x != c.src.x || s.pos.y != c.src.y || s.pos.z != c.src.z)
      return fail("source", "the first particle of the history does not start "
                            "at the source");
    if (h.tracks.size() > 1) k.Nontrivial(Mix(tree, h.tracks.size()));
  }
  const uint64_t n = res.hist.size();
  if (n + secondaries != captures + fissions + leaks)
    return k.Fail("conservation",
                  fmt("%llu histories + %llu secondaries != %llu captures + "
                      "%llu fissions + %llu leaks", (unsigned long long)n,
                      (unsigned long long)secondaries,
                      (unsigned long long)captures,
                      (unsigned long long)fissions, (unsigned long long)leaks));
  if (n != (uint64_t)c.histories)
    return k.Fail("conservation", fmt("%llu histories were run, not %d",
                                      (unsigned long long)n, c.histories));
  ctx.Count("captures", captures);
  ctx.Count("fissions", fissions);
  ctx.Count("leaks", leaks);
  ctx.Count("secondaries", secondaries);
  ctx.Count("histories", n);
  if (threads) ctx.Count("parallel runs");
  size_t big = 0;
  for (auto& h : res.hist) big = std::max(big, h.tracks.size());
  uint64_t& mx = ctx.counters["histories with more than 20 particles"];
  for (auto& h : res.hist) mx += h.tracks.size() > 20;
  if (ctx.samples.size() < 2)
    ctx.Sample(fmt("{\"problem\": %s, \"histories\": %llu, \"secondaries\": "
                   "%llu, \"captures\": %llu, \"fissions\": %llu, \"leaks\": "
                   "%llu, \"largest history\": %zu}", Describe(c).c_str(),
                   (unsigned long long)n, (unsigned long long)secondaries,
                   (unsigned long long)captures, (unsigned long long)fissions,
                   (unsigned long long)leaks, big));
}

void Run(Ctx& ctx) {
  auto body = [&](const std::string& kind) {
    return [&ctx, kind](Case& k) {
      Rng& r = k.rng;
      GenOpt o;
      o.max_surfaces = 5;
      o.photon = B(r, 0.3);
      o.density = LogU(r, 0.2, 3);
      Config c;
      if (kind == "continuous") {
        o.linear_temperature = B(r, 0.5);
        o.density = std::max(o.density, 0.4);
        c = GenCE(r, o);
      }
      else c = GenMG(r, o);
      c.histories = ctx.N(200, 500);
      if (kind == "multiplying") {
        // long chains: nearly critical with large yields
        const bool lots = B(r, 0.3);
        for (auto& n : c.nuclides) {
          auto& d = *n.mg_neutron;
          d.fission = std::vector<double>(c.groups);
          d.nubar = *d.fission;
          d.chi = std::vector<std::vector<double>>(
              c.groups, std::vector<double>(c.groups, 1. / c.groups));
          for (int g = 0; g < c.groups; g++) {
            (*d.fission)[g] = lots ? U(r, 0.02, 0.05) : U(r, 0.5, 2);
            const double p =
                (*d.fission)[g] / ((*d.fission)[g] + (*d.capture)[g]);
            (*d.nubar)[g] = U(r, 0.5, 0.93) / p;
          }
        }
        for (auto& m : c.materials) m.aden *= 3;
        c.particle = "neutron";
      }
      c.threads = kind == "parallel" ? I(r, 2, 8) : 1;
      const int cell = RefFindCell(c, c.src);
      if (cell < 0 || c.cells[cell].is_void) return;
      auto res = RunProblem(c, k);
      Balance(k, c, res, c.threads > 1);
      std::filesystem::path dir;
      ScratchDir(k, dir);
      std::filesystem::remove_all(dir);
    };
  };
  // few, huge histories: fissions lead from group to group, so that a history
  // has thousands of particles, or one fission does; or particles that scatter
  // thousands of times before anything else happens to them
  ctx.Cases("huge", ctx.N(40, 600), [&](Case& k) {
    Rng& r = k.rng;
    Config c = Infinite(B(r) ? 1e6 : LogU(r, 3, 1e3));
    NuclideCfg n;
    n.name = "n";
    MGData d;
    const int kind = I(r, 0, 2);
    c.threads = B(r) ? 1 : I(r, 2, 8);
    c.histories = I(r, 1, 4);
    if (kind == 2) {
      c.groups = I(r, 1, 3);
      const double survive = LogU(r, 1e-5, 1e-3);
      d.capture = std::vector<double>(c.groups, survive);
      d.scatter = std::vector<std::vector<double>>(
          c.groups, std::vector<double>(c.groups, 1. / c.groups));
    }
    else {
      // about `size` particles after `gen` generations
      const double size = LogU(r, 2e3, ctx.N(60000, 400000));
      const int gen = kind == 1 ? 1 : I(r, 2, 12);
      const double nu = std::pow(size, 1. / gen);
      c.groups = gen + 1;
      d.fission = std::vector<double>(c.groups, 1.);
      d.capture = std::vector<double>(c.groups, 0.);
      d.nubar = std::vector<double>(c.groups, nu);
      d.fission->back() = 0;
      d.capture->back() = 1;
      d.chi = std::vector<std::vector<double>>(
          c.groups, std::vector<double>(c.groups, 0.));
      for (int g = 0; g < c.groups; g++)
        (*d.chi)[std::min(g + 1, gen)][g] = 1;
      c.histories = size > 30000 ? 1 : c.histories;
    }
    n.mg_neutron = d;
    c.nuclides = {n};
    MaterialCfg m;
    m.name = "mat";
    m.aden = 1;
    m.nuclides = {{0, 1.}};
    c.materials = {m};
    for (auto& q : c.cells)
      if (!q.is_void) q.material = 0;
    c.tracking = B(r) ? "surface" : "cell delta";
    c.seed = I(r, 1, 1000000);
    auto res = RunProblem(c, k);
    Balance(k, c, res, c.threads > 1);
    for (auto& h : res.hist) {
      size_t events = 0;
      for (auto& t : h.tracks) events = std::max(events, t.steps.size());
      ctx.Count(h.tracks.size() > 20000  ? "histories of more than 20000 particles"
                : h.tracks.size() > 2000 ? "histories of more than 2000 particles"
                : events > 2000          ? "particles with more than 2000 events"
                                         : "smaller histories");
    }
    std::filesystem::path dir;
    ScratchDir(k, dir);
    std::filesystem::remove_all(dir);
  });
  ctx.Cases("multigroup", ctx.N(400, 8000), body("multigroup"));
  ctx.Cases("multiplying", ctx.N(200, 4000), body("multiplying"));
  ctx.Cases("continuous", ctx.N(150, 3000), body("continuous"));
  ctx.Cases("parallel", ctx.N(100, 2000), body("parallel"));
}
} // namespace mon
