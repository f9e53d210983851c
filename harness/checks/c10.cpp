// C10: collision distances follow the exponential law of the local material.
#include "drive.hpp"
#include "refxs.hpp"

#include <algorithm>

namespace mon {
const char* const kRule =
    "one evaluation is one flight, mapped to a uniform variate by the "
    "reference cross section and chord (or one material total compared); "
    "distinct non-trivial ones are flights that could have ended either way "
    "(collision probability between 1% and 99%), identified by their start "
    "and length";

struct Sampled {
  std::map<std::string, std::vector<double>> u;
  std::vector<double> all;
};

// a point in some filled cell
static bool Start(Rng& r, const Config& c, V3& p, int& cell, double scale) {
  for (int i = 0; i < 200; i++) {
    p = i < 60 ? V3{c.src.x + U(r, -2, 2) * scale, c.src.y + U(r, -2, 2) * scale,
                    c.src.z + U(r, -2, 2) * scale}
               : c.src;
    cell = RefFindCell(c, p);
    if (cell >= 0 && !c.cells[cell].is_void &&
        RefMargin(c, c.cells[cell], p) > 1e-9 * scale)
      return true;
  }
  return false;
}
static double RefChord(const Config& c, const CellCfg& k, V3 p, V3 d,
                       bool& ambiguous) {
  double L = INFINITY;
  for (auto& [s, sense] : k.surfaces) {
    const auto x = RefCross(c.surfaces[s], p, d);
    if (x.ambiguous) ambiguous = true;
    if (x.t > 0) L = std::min(L, (double)x.t);
  }
  return L;
}

static void Flights(Case& k, const Config& c, const Track& t, Rng& r,
                    Sampled& out, int type) {
  Ctx& ctx = k.ctx;
  V3 start = t.birth.pos, dir = t.birth.dir, pos = start;
  double energy = t.birth.energy;
  int cell = RefFindCell(c, start);
  const char* after = "birth";
  for (auto& e : t.steps) {
    if (e.event == eVirtual) {
      pos = e.pos;
      continue;
    }
    if (cell < 0 || c.cells[cell].is_void) return;
    const auto& q = c.cells[cell];
    bool skip = false;
    const double T = RefTemperature(c, q, start);
    const auto& m = c.materials[q.material];
    const double rate = m.aden * RefMaterial(c, m, type, energy, T, &skip);
    const double L = RefChord(c, q, start, dir, skip);
    const bool crossed = e.event == eCross || e.event == eLeak;
    const double d = Norm(e.pos - start);
    if (!skip && rate > 0) {
      const double stay = std::isinf(L) ? 0 : std::exp(-rate * L);
      const double u = crossed ? 1 - U(r) * stay : 1 - std::exp(-rate * d);
      out.all.push_back(u);
      out.u[fmt("in cell %d", cell)].push_back(u);
      out.u[fmt("after %s", after)].push_back(u);
      out.u[c.groups ? fmt("of group %g", energy)
                     : fmt("of energy 1e%d", (int)std::floor(std::log10(energy)))]
          .push_back(u);
      k.Eval();
      if (stay > 0.01 && stay < 0.99)
        k.Nontrivial(HashD(HashD(HashD(7, start.x), dir.y), d));
      ctx.Count(crossed ? "flights to a boundary" : "flights to a collision");
    }
    after = EventName(e.event);
    start = pos = e.pos;
    dir = e.dir;
    energy = e.energy;
    cell = e.cell;
  }
}

// Flights at an energy at which nothing can be hit end at the boundary
static void Nothing(Ctx& ctx, Case& k) {
  Rng& r = k.rng;
  double lo, hi;
  const bool continuous = B(r);
  const Config c = Transparent(r, continuous, B(r) ? "surface" : "cell delta", &lo, &hi);
  const double R = c.surfaces[0].r;
  Single single{c, k};
  for (int i = 0; i < 200; i++) {
    const V3 p = R * U(r) * RandDir(r), d = RandDirSpecial(r);
    const int cell = RefFindCell(c, p);
    if (cell < 0 || c.cells[cell].is_void || c.cells[cell].material != 0 ||
        RefMargin(c, c.cells[cell], p) < 1e-9 * R)
      continue;
    const double E = continuous ? LogU(r, lo, hi) : lo;
    const auto& t = single.Run(Particle{ToPt(p), Direction{d.x, d.y, d.z},
                                        continuous ? Energy{E} : Energy{(Group)E},
                                        Particle::Type::neutron, Seed31(r)});
    bool ambiguous = false;
    const double L = RefChord(c, c.cells[cell], p, t.birth.dir, ambiguous);
    if (ambiguous) continue;
    k.Eval();
    if (t.steps.empty()) return k.Fail("nothing", "a flight without any event");
    const auto& e = t.steps[0];
    const double l = Norm(e.pos - p);
    if ((e.event != eCross && e.event != eLeak) || std::abs(l - L) > 1e-6 * R)
      return k.Fail("nothing",
                    fmt("at %s %.17g the total cross section of cell %s is zero and its "
                        "boundary is %.12g away, but the flight from %.17g %.17g %.17g "
                        "ends after %.12g with %s\n",
                        continuous ? "energy" : "group", E, c.cells[cell].name.c_str(), L,
                        p.x, p.y, p.z, l, EventName(e.event)) +
                        Describe(c));
    k.Nontrivial(HashD(HashD(11, p.x), l));
    ctx.Count("flights where nothing can be hit");
  }
}

void Run(Ctx& ctx) {
  ctx.Cases("nothing to hit", ctx.N(60, 3000), [&](Case& k) { Nothing(ctx, k); });
  auto body = [&](const std::string& kind) {
    return [&ctx, kind](Case& k) {
      Rng& r = k.rng;
      GenOpt o;
      o.max_surfaces = 5;
      o.fission = B(r, 0.3);
      o.photon = B(r, 0.3);
      o.scale = B(r, 0.8) ? 1 : B(r) ? LogU(r, 1e-3, 1e3) : LogU(r, 1e3, 1e9);
      o.density = LogU(r, 0.1, 3);
      o.estimators = false;
      Config c;
      if (kind != "multigroup") {
        if (kind == "layers") {
          o.min_surfaces = 3;
          o.density = LogU(r, 0.03, 0.5);
        }
        c = GenCE(r, o);
        // thermal laws are C19's and C20's
        if (kind == "layers") {
          // the same material everywhere, at very different temperatures
          const int m = I(r, 0, c.materials.size() - 1);
          for (auto& q : c.cells) {
            if (q.is_void) continue;
            q.material = m;
            q.temperature = B(r) ? LogU(r, 1, 50) : LogU(r, 2e4, 2e6);
          }
          for (auto& [n, f] : c.materials[m].nuclides) {
            auto& d = *c.nuclides[n].ce_neutron;
            if (B(r, 0.7)) c.nuclides[n].awr = LogU(r, 0.9, 20);
            d.scatter = d.total;
            for (auto& y : d.capture->y) y *= 0.2;
            d.T_scatter = LogU(r, 0.5, 1e3);
            d.T_total = LogU(r, 100, 1e4);
          }
          ctx.Count("problems of one material at several temperatures");
        }
      }
      else c = GenMG(r, o);
      c.tracking = B(r) ? "surface" : "cell delta";
      const int type = o.photon && c.particles.size() > 1 && B(r) ? 1 : 0;
      V3 p0;
      int cell0;
      if (!Start(r, c, p0, cell0, o.scale)) return;
      Single single{c, k};
      // totals of the materials, cell by cell
      for (auto& cell : c.cells) {
        if (cell.is_void) continue;
        const auto& real = single.L().W().cells[&cell - c.cells.data()];
        for (int i = 0; i < 4; i++) {
          bool skip = false;
          const double E = c.groups ? I(r, 1, c.groups) : LogU(r, 1e-11, 20);
          Particle p{ToPt(p0), Direction{1, 0, 0},
                     c.groups ? Energy{(Group)E} : Energy{E},
                     type ? Particle::Type::photon : Particle::Type::neutron,
                     1};
          p.SetCell(real);
          const auto& m = c.materials[cell.material];
          const double want = RefMaterial(
              c, m, type, E, RefTemperature(c, cell, p0), &skip);
          const double got = real.material->GetMicroscopicTotal(p);
          k.Eval();
          if (!skip && std::abs(got - want) > 1e-9 * want)
            return k.Fail("total",
                          fmt("material %s in cell %s: total cross section at "
                              "%s %g is %.12g, declared %.12g",
                              m.name.c_str(), cell.name.c_str(),
                              c.groups ? "group" : "energy", E, got, want));
          ctx.Count("material totals compared");
        }
      }
      Sampled last;
      double worst = 1;
      std::string where;
      auto pvalue = [&](int n, Rng& r) {
        Sampled s;
        for (int i = 0; i < n; i++) {
          V3 x;
          int cell;
          if (!Start(r, c, x, cell, o.scale)) continue;
          const double E = c.groups ? I(r, 1, c.groups)
                           : B(r)   ? LogU(r, 1e-10, 1e-6)
                                    : LogU(r, 1e-6, 15);
          const auto& t = single.Run(
              Particle{ToPt(x), Direction{RandDir(r).x, U(r, -1, 1), U(r, -1, 1)},
                       c.groups ? Energy{(Group)E} : Energy{E},
                       type ? Particle::Type::photon : Particle::Type::neutron,
                       Seed31(r)});
          Flights(k, c, t, r, s, type);
        }
        auto uni = [](double x) { return std::min(1., std::max(0., x)); };
        double p = s.all.size() > 50 ? KS(s.all, uni) : 1;
        where = "all";
        int keys = 1;
        for (auto& [key, u] : s.u) keys += u.size() >= 150;
        for (auto& [key, u] : s.u) {
          if (u.size() < 150) continue;
          const double q = KS(u, uni);
          if (q < p) p = q, where = "flights " + key;
        }
        last = std::move(s);
        return std::min(1., p * keys);
      };
      if (Rejected(pvalue, ctx.N(400, 1500), r, &worst))
        return k.Fail("law", fmt("%s: %zu flights do not follow the "
                                 "exponential law (p = %.3g, in %s): ",
                                 c.tracking.c_str(), last.all.size(), worst,
                                 where.c_str()) + Describe(c));
      ctx.Count("problems with " + c.tracking + " tracking");
      ctx.Count("groups of flights tested", last.u.size());
      if (worst < 0.01) ctx.Count("problems with p below 1%");
      if (ctx.samples.size() < 3)
        ctx.Sample(fmt("{\"flights\": %zu, \"p value\": %.4g, \"tracking\": "
                       "\"%s\"}", last.all.size(), worst, c.tracking.c_str()));
      std::filesystem::path dir;
      ScratchDir(k, dir);
      std::filesystem::remove_all(dir);
    };
  };
  ctx.Cases("multigroup", ctx.N(480, 8000), body("multigroup"));
  ctx.Cases("continuous", ctx.N(320, 6000), body("continuous"));
  ctx.Cases("layers", ctx.N(480, 6000), body("layers"));
}
} // namespace mon
