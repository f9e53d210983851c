// C17: cross sections are evaluated as tabulated and adjusted to temperature.
#include "drive.hpp"
#include "refxs.hpp"

#include <algorithm>
#include <set>

namespace mon {
const char* const kRule =
    "one evaluation compares one nuclide's or material's total with the "
    "reference; all are non-trivial (random data), distinct ones identified "
    "by problem, nuclide, energy and temperature";

static Table1 Table(Rng& r, double lo, double hi, double a, double b) {
  Table1 t;
  const int n = B(r, 0.1)     ? 1
                : B(r, 0.1)   ? I(r, 50, 300)
                : B(r, 0.004) ? (int)LogU(r, 300, 1e5)
                              : I(r, 2, 12);
  std::set<double> x;
  while ((int)x.size() < n) x.insert(B(r, 0.8) ? LogU(r, lo, hi) : U(r, lo, hi));
  for (double v : x) {
    t.x.push_back(v);
    t.y.push_back(B(r, 0.1) ? 0 : B(r, 0.1) ? LogU(r, 1e-6, 1e4) : U(r, a, b));
  }
  return t;
}

void Run(Ctx& ctx) {
  auto compare = [&ctx](Case& k, const std::string& key, double got, double want,
                        double scale, const std::string& where) {
    k.Eval();
    if (!(std::abs(got - want) <= 1e-10 * std::abs(want) + 1e-13 * scale)) {
      k.Fail(key, where + fmt(": got %.17g, declared data give %.17g", got, want));
      return false;
    }
    return true;
  };
  ctx.Cases("continuous", ctx.N(2500, 60000), [&](Case& k) {
    Rng& r = k.rng;
    GenOpt o;
    o.max_surfaces = 2;
    o.estimators = false;
    o.voids = false;
    o.photon = B(r, 0.5);
    o.linear_temperature = B(r, 0.5);
    Config c = GenCE(r, o);
    if (c.temperature.kind == Field::Linear) {
      auto& f = c.temperature;
      const double T = LogU(r, 1, 3000);
      f.g = (T * LogU(r, 1e-3, 0.6)) * RandDir(r);
      f.b = T;
      f.lo = 0;
      f.hi = T * 10;
    }
    else if (B(r, 0.1)) {
      c.temperature.kind = Field::Constant;
      c.temperature.c = 0;
    }
    const double T0 = std::max(1.0, c.temperature.At({}));
    double scale = 0;
    for (auto& n : c.nuclides) {
      if (B(r, 0.2)) n.awr = B(r) ? 1 : std::nextafter(1.0, B(r) ? 0 : 2);
      auto make = [&](CEData& d, bool neutron) {
        auto t = [&](std::optional<Table1>& q, bool on) {
          if (on) q = Table(r, B(r) ? 1e-12 : 1e-8, 20, 0.1, 2);
          else q.reset();
          if (q) for (double y : q->y) scale = std::max(scale, y);
        };
        auto temp = [&] {
          return B(r, 0.4)   ? T0 * U(r, 0.97, 1.03)
                 : B(r, 0.3) ? T0 / (1 + 0.01 * (B(r) ? 1 : -1) * U(r, 0.98, 1.02))
                 : B(r, 0.2) ? 293.6
                             : LogU(r, 1, 3000);
        };
        const int which = I(r, 1, 7);
        t(d.capture, which & 1);
        t(d.scatter, which & 2);
        t(d.fission, which & 4);
        d.nubar.reset();
        if (d.fission) d.nubar = Table(r, 1e-12, 20, 0, 3);
        t(d.total, true); // not the sum: tells which one was used
        d.T_capture = temp();
        d.T_scatter = temp();
        d.T_fission = temp();
        d.T_total = temp();
        // thermal scattering, also at temperatures beyond its tables
        if (neutron && d.scatter && B(r, 0.3))
          d.tsl = GenTSL(r, LogU(r, 1e-7, 4e-6), n.awr);
      };
      make(*n.ce_neutron, true);
      if (n.ce_photon) make(*n.ce_photon, false);
    }
    auto l = Load(c, k);
    const uint64_t hc = HashConfig(c);
    for (int rep = 0; rep < 120; rep++) {
      const int ci = I(r, 0, (int)c.cells.size() - 1);
      const auto& q = c.cells[ci];
      const auto& m = c.materials[q.material];
      const V3 x{U(r, -3, 3), U(r, -3, 3), U(r, -3, 3)};
      const double T = RefTemperature(c, q, x);
      if (T < 0) continue;
      const int type = c.particles.size() > 1 && B(r) ? 1 : 0;
      const auto& n = c.nuclides[Pick(r, m.nuclides).first];
      const auto& d = type ? *n.ce_photon : *n.ce_neutron;
      double E;
      switch (I(r, 0, 5)) {
      case 0: E = LogU(r, 1e-13, 100); break;
      case 1: {
        const auto& t = *Pick(r, std::vector<const std::optional<Table1>*>{
                                     &d.total, &d.capture, &d.scatter, &d.fission});
        E = t ? Pick(r, t->x) : LogU(r, 1e-12, 20);
        if (B(r, 0.3)) E = std::nextafter(E, B(r) ? 0 : 100);
        break;
      }
      case 2:
        E = 500 * kBoltzmann * std::max(T, 1.0) / n.awr * U(r, 0.9, 1.1);
        break;
      case 3:
        E = n.ce_neutron->tsl ? n.ce_neutron->tsl->E.back() : 1e-6;
        if (B(r)) E = std::nextafter(E, B(r) ? 0 : 1);
        break;
      default: E = LogU(r, 1e-10, 1e-5);
      }
      if (RefThermal(n, type, E)) ctx.Count("thermal scattering");
      Particle p{ToPt(x), Direction{0, 0, 1}, Energy{E},
                 type ? Particle::Type::photon : Particle::Type::neutron, 1};
      const Cell& cell = l->W().cells[ci];
      p.SetCell(cell);
      const std::string where =
          fmt("%s in %s at T = %.17g K, E = %.17g", type ? "photon" : "neutron",
              q.name.c_str(), T, E);
      bool all_near = false;
      for (auto& [nuc, f] : cell.material->afracs) {
        const NuclideCfg* ref = nullptr;
        for (auto& [ni, f2] : m.nuclides)
          if (c.nuclides[ni].name == nuc->name) ref = &c.nuclides[ni];
        if (!ref) {
          k.Fail("nuclide", where + ": unexpected nuclide " + nuc->name);
          return;
        }
        bool near = false;
        const double want = RefTotal(c, *ref, type, E, T, &near);
        all_near |= near;
        if (near) continue;
        const auto& dd = type ? *ref->ce_photon : *ref->ce_neutron;
        ctx.Count(std::abs(T - dd.T_total) / dd.T_total < 0.01 && !RefThermal(*ref, type, E)
                      ? "tabulated total used"
                      : "sum of reactions used");
        if (!compare(k, "nuclide-total", nuc->GetTotal(p), want, scale,
                     where + ", " + nuc->name +
                         fmt(" awr %.17g, T_total %.17g, T_scatter %.17g",
                             ref->awr, dd.T_total, dd.T_scatter)))
          return;
        k.Nontrivial(HashD(HashD(Hash(nuc->name) ^ hc, E), T) + type);
      }
      if (!all_near && !compare(k, "material-total",
                                cell.material->GetMicroscopicTotal(p),
                                RefMaterial(c, m, type, E, T), scale, where))
        return;
    }
    if (k.id.back() == '7')
      ctx.Sample("{\"problem\": " + Describe(c) + "}");
    std::filesystem::path dir;
    ScratchDir(k, dir);
    std::filesystem::remove_all(dir);
  });
  ctx.Cases("multigroup", ctx.N(1000, 20000), [&](Case& k) {
    Rng& r = k.rng;
    GenOpt o;
    o.max_surfaces = 2;
    o.estimators = false;
    o.voids = false;
    o.photon = B(r, 0.5);
    o.max_groups = 9;
    Config c = GenMG(r, o);
    auto l = Load(c, k);
    const uint64_t hc = HashConfig(c);
    for (size_t ci = 0; ci < c.cells.size(); ci++)
      for (int g = 1; g <= c.groups; g++)
        for (int type = 0; type < (int)c.particles.size(); type++) {
          Particle p{Point{0, 0, 0}, Direction{0, 0, 1}, Energy{Group(g)},
                     type ? Particle::Type::photon : Particle::Type::neutron, 1};
          const Cell& cell = l->W().cells[ci];
          p.SetCell(cell);
          const auto& m = c.materials[c.cells[ci].material];
          const std::string where = fmt("group %d, cell %zu, type %d", g, ci, type);
          for (auto& [nuc, f] : cell.material->afracs)
            for (auto& [ni, f2] : m.nuclides)
              if (c.nuclides[ni].name == nuc->name) {
                k.Nontrivial(Mix(hc, g * 1000 + ni * 2 + type));
                if (!compare(k, "group-total", nuc->GetTotal(p),
                             RefTotal(c, c.nuclides[ni], type, g, 0), 10,
                             where + ", " + nuc->name))
                  return;
              }
          if (!compare(k, "material-total", cell.material->GetMicroscopicTotal(p),
                       RefMaterial(c, m, type, g, 0), 10, where))
            return;
        }
    std::filesystem::path dir;
    ScratchDir(k, dir);
    std::filesystem::remove_all(dir);
  });
}
} // namespace mon
