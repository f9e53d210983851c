// C16: the majorant bounds the total cross section everywhere in a cell.
#include "drive.hpp"
#include "refxs.hpp"

namespace mon {
const char* const kRule =
    "one evaluation compares the majorant with the total at one position and "
    "energy; distinct non-trivial ones have a temperature below the cell's "
    "maximum, a thermal scattering law or data at another temperature, "
    "identified by problem, cell, energy and temperature";

// energies at which rules change, between and far beyond all data
static double HostileEnergy(Rng& r, const Config& c, const CellCfg& q, double T,
                            double Tmax) {
  const auto& m = c.materials[q.material];
  const auto& n = c.nuclides[Pick(r, m.nuclides).first];
  switch (I(r, 0, 5)) {
  case 0: return LogU(r, 1e-14, 1e3);
  case 1: return LogU(r, 1e-11, 1e-6);
  case 2:
  case 3: {
    // around the end of free gas scattering, at the position or the maximum
    const double lim =
        500 * kBoltzmann * (B(r) ? std::max(T, 1.0) : std::max(Tmax, 1.0)) / n.awr;
    return B(r, 0.3)   ? lim * (1 + U(r, -1e-6, 1e-6))
           : B(r, 0.3) ? std::nextafter(lim, B(r) ? 0 : 1)
                       : lim * LogU(r, 0.3, 3);
  }
  case 4:
    if (n.ce_neutron && n.ce_neutron->tsl) {
      const double E = Pick(r, n.ce_neutron->tsl->E);
      return B(r) ? E : B(r) ? std::nextafter(E, 0) : E * U(r, 0.5, 1.1);
    }
    return LogU(r, 1e-9, 1e-5);
  default:
    if (n.ce_neutron && n.ce_neutron->scatter)
      return Pick(r, n.ce_neutron->scatter->x) * (B(r) ? 1 : U(r, 0.9, 1.1));
    return LogU(r, 1e-9, 20);
  }
}

void Run(Ctx& ctx) {
  auto body = [&ctx](const std::string& kind) {
    return [&ctx, kind](Case& k) {
      Rng& r = k.rng;
      GenOpt o;
      o.max_surfaces = 2;
      o.estimators = false;
      o.photon = B(r, 0.4);
      o.tsl = kind == "thermal";
      const bool mg = kind == "multigroup";
      o.linear_temperature = !mg && B(r, 0.7);
      Config c = mg ? GenMG(r, o) : GenCE(r, o);
      if (c.temperature.kind == Field::Linear) {
        // tight bounds, a steep field
        auto& f = c.temperature;
        const double T = LogU(r, 20, 1500);
        f.g = (T * U(r, 0.01, 0.6)) * RandDir(r);
        f.b = T;
        f.lo = B(r, 0.3) ? 0 : T * U(r, 0, 1);
        f.hi = T * (B(r, 0.3) ? 1.005 : B(r, 0.3) ? 1.02 : U(r, 1, 3));
      }
      if (!mg)
        for (auto& n : c.nuclides) {
          auto& d = *n.ce_neutron;
          const double T = B(r, 0.2)   ? LogU(r, 1e-3, 10)
                           : B(r, 0.3) ? std::max(1.0, c.temperature.At({}))
                           : B(r, 0.5) ? LogU(r, 1, 3000)
                                       : d.T_total;
          d.T_total = d.T_scatter = T;
          if (kind == "thermal" && d.scatter && (B(r, 0.6) || &n == &c.nuclides[0]))
            d.tsl = GenTSL(r, LogU(r, 1e-7, 1e-5), n.awr);
        }
      auto l = Load(c, k);
      const uint64_t hc = HashConfig(c);
      for (int rep = 0; rep < 150; rep++) {
        int ci = I(r, 0, (int)c.cells.size() - 1);
        const auto& q = c.cells[ci];
        if (q.is_void) continue;
        const auto& m = c.materials[q.material];
        const V3 x{U(r, -3, 3), U(r, -3, 3), U(r, -3, 3)};
        const double Tmax = mg ? 1 : RefTmax(c, q);
        const double T = mg ? 1 : RefTemperature(c, q, x);
        if (!mg && !q.temperature && c.temperature.kind == Field::Linear &&
            (T < c.temperature.lo || T > c.temperature.hi))
          continue;
        if (T < 0) continue;
        const int type = c.particles.size() > 1 && B(r, 0.3) ? 1 : 0;
        const double E = mg ? I(r, 1, c.groups) : HostileEnergy(r, c, q, T, Tmax);
        Particle p{ToPt(x), Direction{1, 0, 0},
                   mg ? Energy{(Group)E} : Energy{E},
                   type ? Particle::Type::photon : Particle::Type::neutron, 1};
        const Cell& cell = l->W().cells[ci];
        p.SetCell(cell);
        bool near = false;
        const double want = RefMaterial(c, m, type, E, T, &near);
        const double total = cell.material->GetMicroscopicTotal(p);
        const double major = cell.material->GetMicroscopicMajorant(p);
        k.Eval();
        const std::string where = fmt(
            "%s in %s (material %s) at (%.17g, %.17g, %.17g), T = %.17g K, "
            "maximum %.17g K, E = %.17g", type ? "photon" : "neutron",
            q.name.c_str(), m.name.c_str(), x.x, x.y, x.z, T, Tmax, E);
        if (!std::isfinite(major)) {
          k.Fail("majorant-not-finite", where + ": " + G17(major));
          return;
        }
        const double low = std::max(total, near ? 0 : want);
        if (major < low * (1 - 1e-12)) {
          k.Fail("majorant-below-total",
                 where + fmt(": majorant %.17g, total %.17g (declared %.17g)",
                             major, total, want));
          return;
        }
        bool thermal = false, shifted = false;
        for (auto& [ni, f] : m.nuclides) {
          if (mg) break;
          thermal |= RefThermal(c.nuclides[ni], type, E);
          shifted |= c.nuclides[ni].ce_neutron->T_scatter != T;
        }
        const bool varies = !mg && !q.temperature &&
                            c.temperature.kind == Field::Linear;
        if (!varies && !thermal && std::abs(major - total) > 1e-12 * total) {
          k.Fail("majorant-differs",
                 where + fmt(": nothing varies but majorant %.17g, total %.17g",
                             major, total));
          return;
        }
        // from elsewhere in the cell the bound is needed here, too
        for (int y = 0; y < 3 && !mg; y++) {
          const V3 z = y ? V3{U(r, -3, 3), U(r, -3, 3), U(r, -3, 3)} : V3{};
          const double Tz = RefTemperature(c, q, z);
          if (Tz < 0 || (!q.temperature && c.temperature.kind == Field::Linear &&
                         (Tz < c.temperature.lo || Tz > c.temperature.hi)))
            continue;
          Particle there{ToPt(z), Direction{0, -1, 0}, Energy{E}, p.GetType(), 7};
          there.SetCell(cell);
          const double bound = cell.material->GetMicroscopicMajorant(there);
          k.Eval();
          if (!(bound >= low * (1 - 1e-12))) {
            k.Fail("majorant-below-total-elsewhere",
                   where + fmt(": total %.17g (declared %.17g), but the majorant at "
                               "(%.17g, %.17g, %.17g), where T = %.17g K, is %.17g",
                               total, want, z.x, z.y, z.z, Tz, bound));
            return;
          }
          ctx.Count("majorants compared across the cell");
        }
        // nuclide by nuclide
        for (auto& [nuc, f] : cell.material->afracs) {
          const double a = nuc->GetMajorant(p), b = nuc->GetTotal(p);
          if (!std::isfinite(a) || a < b * (1 - 1e-12)) {
            k.Fail("nuclide-majorant-below-total",
                   where + fmt(": nuclide %s majorant %.17g, total %.17g",
                               nuc->name.c_str(), a, b));
            return;
          }
        }
        ctx.Count(thermal ? "with thermal scattering"
                  : varies ? "varying temperature"
                           : "constant temperature");
        if (type) ctx.Count("photons");
        if (major > total * (1 + 1e-9)) ctx.Count("majorant above total");
        if (T < Tmax || thermal || shifted)
          k.Nontrivial(HashD(HashD(Mix(hc, ci), E), T));
        if (rep == 0 && k.id.back() == '3')
          ctx.Sample("{\"where\": \"" + JsonEscape(where) + fmt("\", \"majorant\": "
                     "%.9g, \"total\": %.9g}", major, total));
      }
      std::filesystem::path dir;
      ScratchDir(k, dir);
      std::filesystem::remove_all(dir);
    };
  };
  ctx.Cases("multigroup", ctx.N(300, 6000), body("multigroup"));
  ctx.Cases("continuous", ctx.N(1500, 30000), body("continuous"));
  ctx.Cases("thermal", ctx.N(1500, 30000), body("thermal"));
}
} // namespace mon
