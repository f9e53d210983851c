// C15: cell delta tracking is equivalent to exact tracking.
#include "drive.hpp"
#include "refxs.hpp"

#include <algorithm>

namespace mon {
const char* const kRule =
    "one evaluation is one path between real collisions or boundaries, mapped "
    "to a uniform variate by the integral of the reference cross section, or "
    "one virtual collision; distinct non-trivial ones are paths along which "
    "the cross section varies by more than 5%, identified by start and length";

// A sphere of radius R in void, perhaps with another one within, with a
// temperature that varies strongly over it
static Config Problem(Rng& r, double& R, bool thermal_law) {
  Config c = Infinite(1);
  R = LogU(r, 0.3, 30);
  c.surfaces[0].r = R;
  c.surfaces[0].c = B(r) ? V3{} : U(r, 0, 20) * R * RandDir(r);
  if (B(r, 0.6)) {
    Surf s;
    s.name = "inner";
    if (B(r)) {
      s.kind = Surf::Sphere;
      s.r = U(r, 0.3, 0.6) * R;
      s.c = c.surfaces[0].c + U(r, 0, 0.3) * R * RandDir(r);
    }
    else {
      s.kind = Surf::PlaneX;
      s.c.x = c.surfaces[0].c.x + U(r, -0.5, 0.5) * R;
    }
    c.surfaces.push_back(s);
    CellCfg in = c.cells[0];
    in.name = "other";
    in.surfaces.push_back({1, +1});
    c.cells[0].surfaces.push_back({1, -1});
    c.cells.insert(c.cells.begin() + 1, in);
  }
  GenOpt o;
  o.scale = R;
  o.fission = B(r, 0.3);
  o.density = LogU(r, 0.5, 3);
  GenCEData(c, r, o);
  for (auto& n : c.nuclides) {
    auto& d = *n.ce_neutron;
    // scattering dominates, and depends on temperature
    if (B(r, 0.8)) {
      n.awr = B(r) ? 0.9991673 : LogU(r, 1, 30);
      if (!d.scatter) d.scatter = d.capture;
      for (auto& y : d.scatter->y) y *= 3;
      for (auto& y : d.capture->y) y *= 0.3;
      std::vector<const Table1*> t{&*d.capture, &*d.scatter};
      if (d.fission) t.push_back(&*d.fission);
      d.total = SumTables(t);
    }
  }
  (void)thermal_law;
  const double T = LogU(r, 30, 1500);
  auto& f = c.temperature;
  f.kind = Field::Linear;
  f.g = (T / R * U(r, 0.3, 0.97)) * RandDirSpecial(r);
  f.b = T - Dot(f.g, c.surfaces[0].c);
  const double w = Norm(f.g) * R * (1 + 1e-9);
  f.lo = T - w;
  f.hi = (T + w) * (B(r) ? 1 : U(r, 1, 1.4));
  if (c.cells.size() > 2 && B(r, 0.3)) c.cells[0].temperature = U(r, 50, 1500);
  c.tracking = "cell delta";
  c.src = c.surfaces[0].c + 0.1 * R * RandDir(r);
  c.energy = "1e-8";
  return c;
}
static double Chord(const Config& c, const CellCfg& k, V3 p, V3 d, bool& amb) {
  double L = INFINITY;
  for (auto& [s, sense] : k.surfaces) {
    const auto x = RefCross(c.surfaces[s], p, d);
    amb |= x.ambiguous;
    if (x.t > 0) L = std::min(L, (double)x.t);
  }
  return L;
}
// integral of the macroscopic cross section over [0, L]
static double Depth(const Config& c, const CellCfg& k, V3 p, V3 d, double E,
                    double L, double* lo, double* hi) {
  static const double x[8] = {0.0950125098376374, 0.2816035507792589,
                              0.4580167776572274, 0.6178762444026438,
                              0.7554044083550030, 0.8656312023878318,
                              0.9445750230732326, 0.9894009349916499};
  static const double w[8] = {0.1894506104550685, 0.1826034150449236,
                              0.1691565193950025, 0.1495959888165767,
                              0.1246289712555339, 0.0951585116824928,
                              0.0622535239386479, 0.0271524594117541};
  const auto& m = c.materials[k.material];
  double sum = 0;
  *lo = INFINITY, *hi = 0;
  const int panels = 2;
  for (int q = 0; q < panels; q++)
    for (int i = 0; i < 16; i++) {
      const double s = (i < 8 ? -x[i] : x[i - 8]) / 2 + 0.5;
      const double t = L * (q + s) / panels;
      const double xs = m.aden * RefMaterial(c, m, 0, E,
                                             RefTemperature(c, k, p + t * d));
      sum += w[i % 8] * xs;
      *lo = std::min(*lo, xs);
      *hi = std::max(*hi, xs);
    }
  return sum * L / (2 * panels);
}

void Run(Ctx& ctx) {
  ctx.Cases("law", ctx.N(240, 4000), [&](Case& k) {
    Rng& r = k.rng;
    double R;
    const Config c = Problem(r, R, false);
    Single single{c, k};
    double worst = 1;
    std::string where, bad;
    size_t flights = 0;
    uint64_t varied = 0;
    auto pvalue = [&](int n, Rng& r) {
      std::map<std::string, std::vector<double>> u;
      std::vector<double> all;
      varied = 0;
      for (int i = 0; i < n; i++) {
        V3 x;
        int cell = -1;
        do {
          x = c.surfaces[0].c + R * V3{U(r, -1, 1), U(r, -1, 1), U(r, -1, 1)};
          cell = RefFindCell(c, x);
        } while (cell < 0 || c.cells[cell].is_void);
        const double E0 = B(r, 0.8) ? LogU(r, 1e-10, 1e-7) : LogU(r, 1e-7, 10);
        const auto& t = single.Run(
            Particle{ToPt(x), Direction{U(r, -1, 1), U(r, -1, 1), U(r, -1, 1)},
                     Energy{E0}, Particle::Type::neutron, Seed31(r)});
        V3 start = t.birth.pos, dir = t.birth.dir;
        double E = E0;
        const char* after = "birth";
        V3 prev = start;
        for (auto& e : t.steps) {
          if (e.event == eVirtual) {
            k.Eval();
            ctx.Count("virtual collisions");
            if (e.dir.x != dir.x || e.dir.y != dir.y || e.dir.z != dir.z ||
                e.energy != E || e.cell != cell) {
              bad = fmt("a virtual collision changed direction (%.17g, %.17g, "
                        "%.17g) -> (%.17g, %.17g, %.17g), energy %.17g -> "
                        "%.17g or cell %d -> %d", dir.x, dir.y, dir.z, e.dir.x,
                        e.dir.y, e.dir.z, E, e.energy, cell, e.cell);
              return 0.;
            }
            prev = e.pos;
            continue;
          }
          if (cell < 0 || c.cells[cell].is_void) break;
          const auto& q = c.cells[cell];
          const double d = Norm(e.pos - start);
          bool amb = false;
          const double L = Chord(c, q, start, dir, amb);
          const bool crossed = e.event == eCross || e.event == eLeak;
          if (!amb && std::isfinite(L)) {
            double lo, hi;
            const double tau =
                Depth(c, q, start, dir, E, crossed ? L : d, &lo, &hi);
            const double v =
                crossed ? 1 - U(r) * std::exp(-tau) : 1 - std::exp(-tau);
            all.push_back(v);
            u[fmt("in cell %d", cell)].push_back(v);
            u[fmt("after %s", after)].push_back(v);
            // up or down the temperature gradient
            const double g = Dot(c.temperature.g, dir) / Norm(c.temperature.g);
            u[g > 0.3 ? "towards hot" : g < -0.3 ? "towards cold" : "across"]
                .push_back(v);
            k.Eval();
            ctx.Count(crossed ? "paths to a boundary" : "paths to a collision");
            if (hi > 1.05 * lo) {
              varied++;
              k.Nontrivial(HashD(HashD(HashD(1, start.x), dir.x), d));
            }
          }
          after = EventName(e.event);
          start = prev = e.pos;
          dir = e.dir;
          E = e.energy;
          cell = e.cell;
        }
      }
      auto uni = [](double x) { return std::min(1., std::max(0., x)); };
      flights = all.size();
      double p = all.size() > 50 ? KS(all, uni) : 1;
      where = "all";
      int keys = 1;
      for (auto& [key, v] : u) {
        if (v.size() < 150) continue;
        keys++;
        const double q = KS(v, uni);
        if (q < p) p = q, where = "paths " + key;
      }
      return std::min(1., p * keys);
    };
    const bool rej = Rejected(pvalue, ctx.N(500, 2000), r, &worst);
    if (!bad.empty()) return k.Fail("virtual", bad);
    if (rej)
      return k.Fail("law", fmt("%zu paths of cell delta tracking do not follow "
                               "the local cross section (p = %.3g, %s), "
                               "temperatures %.4g to %.4g",
                               flights, worst, where.c_str(), c.temperature.lo,
                               c.temperature.hi));
    ctx.Count("problems with varying temperature");
    if (worst < 0.01) ctx.Count("problems with p below 1%");
    ctx.Count("paths with cross sections varying by 5% or more", varied);
    if (ctx.samples.size() < 3)
      ctx.Sample(fmt("{\"temperatures\": [%.4g, %.4g], \"paths\": %zu, \"p "
                     "value\": %.3g}", c.temperature.lo, c.temperature.hi,
                     flights, worst));
    std::filesystem::path dir;
    ScratchDir(k, dir);
    std::filesystem::remove_all(dir);
  });
  // constant temperature: what becomes of particles is the same with both
  ctx.Cases("agreement", ctx.N(160, 3000), [&](Case& k) {
    Rng& r = k.rng;
    GenOpt o;
    o.max_surfaces = 4;
    o.density = LogU(r, 0.3, 2);
    o.estimators = false;
    Config c = B(r) ? GenMG(r, o) : GenCE(r, o);
    const int cell = RefFindCell(c, c.src);
    if (cell < 0 || c.cells[cell].is_void) return;
    const double E0 = c.groups ? I(r, 1, c.groups) : LogU(r, 1e-9, 10);
    const Energy en = c.groups ? Energy{(Group)E0} : Energy{E0};
    double worst = 1;
    std::string what;
    auto gather = [&](const char* tracking, int n, Rng& r,
                      std::map<int, double>& fate, std::map<int, double>& coll,
                      std::vector<double>& energy) {
      Config d = c;
      d.tracking = tracking;
      Single single{d, k, "p"};
      for (int i = 0; i < n; i++) {
        const auto& t = single.Run(
            Particle{ToPt(c.src), Direction{U(r, -1, 1), U(r, -1, 1), U(r, -1, 1)},
                     en, Particle::Type::neutron, Seed31(r)});
        if (t.steps.empty()) continue;
        const auto& e = t.steps.back();
        fate[e.event * 100 + e.cell]++;
        int n = 0;
        for (auto& s : t.steps)
          n += s.event == eScatter || (s.event == eCross) * 100;
        coll[std::min(n % 100, 9) + 10 * std::min(n / 100, 9)]++;
        energy.push_back(e.energy);
        k.Eval();
      }
    };
    auto pvalue = [&](int n, Rng& r) {
      std::map<int, double> f1, f2, c1, c2;
      std::vector<double> e1, e2;
      gather("surface", n, r, f1, c1, e1);
      gather("cell delta", n, r, f2, c2, e2);
      auto two = [](std::map<int, double>& a, std::map<int, double>& b) {
        std::vector<double> x, y;
        std::set<int> keys;
        for (auto& [k, v] : a) keys.insert(k);
        for (auto& [k, v] : b) keys.insert(k);
        for (int k : keys) x.push_back(a[k]), y.push_back(b[k]);
        return Chi2Two(x, y);
      };
      double p = two(f1, f2);
      what = "fates";
      const double q = two(c1, c2);
      if (q < p) p = q, what = "numbers of collisions and crossings";
      if (!c.groups) {
        const double s = KS2(e1, e2);
        if (s < p) p = s, what = "final energies";
      }
      return std::min(1., 3 * p);
    };
    if (Rejected(pvalue, ctx.N(1200, 5000), r, &worst))
      return k.Fail("agreement", fmt("%s of particles differ between the "
                                     "tracking methods (p = %.3g): ",
                                     what.c_str(), worst) + Describe(c));
    ctx.Count("problems compared between tracking methods");
    std::filesystem::path dir;
    ScratchDir(k, dir);
    std::filesystem::remove_all(dir);
  });
}
} // namespace mon
