// C19: thermal scattering cross sections interpolate the factorised tables.
#include "drive.hpp"
#include "refxs.hpp"

#include <algorithm>

namespace mon {
const char* const kRule =
    "one evaluation compares one total cross section at or below, or above "
    "the thermal cutoff with the reconstruction of the tables; distinct "
    "non-trivial ones are below the cutoff, identified by problem, energy and "
    "temperature";

void Run(Ctx& ctx) {
  ctx.Cases("tables", ctx.N(3000, 60000), [&](Case& k) {
    Rng& r = k.rng;
    GenOpt o;
    o.max_surfaces = 2;
    o.estimators = false;
    o.voids = false;
    o.photon = B(r, 0.4);
    o.tsl = true;
    o.linear_temperature = true;
    Config c = GenCE(r, o);
    // the whole range of temperatures of the tables and beyond
    auto& f = c.temperature;
    const double T0 = LogU(r, 60, 3000);
    f.g = (T0 * U(r, 0.01, 1)) * RandDir(r);
    f.b = T0;
    f.lo = 0;
    f.hi = 1e5;
    bool any = false;
    for (auto& n : c.nuclides) {
      any |= n.ce_neutron->tsl.has_value();
      if (!n.ce_neutron->tsl) continue;
      auto& t = *n.ce_neutron->tsl;
      // a temperature grid that the problem exceeds at both ends
      const double w = T0 * U(r, 0.01, 0.5);
      double T = T0 - w * U(r);
      for (size_t i = 0; i < t.T.size(); i++, T += w * U(r, 0.1, 1)) t.T[i] = T;
      // the tabulated total is usually at the local temperature
      if (B(r, 0.5)) n.ce_neutron->T_total = n.ce_neutron->T_scatter = T0;
      if (B(r, 0.3))
        n.ce_neutron->T_total = T0 * U(r, 0.9, 1.1);
      // the tabulated total is not the sum: tells whether it was used
      if (B(r))
        for (auto& y : n.ce_neutron->total->y) y += U(r, 0, 3);
    }
    if (!any) return;
    // cells: constant temperatures on the grid
    for (auto& q : c.cells)
      if (B(r, 0.4)) {
        const auto& n = c.nuclides[Pick(r, c.materials[q.material].nuclides).first];
        if (n.ce_neutron->tsl) q.temperature = Pick(r, n.ce_neutron->tsl->T);
      }
    auto l = Load(c, k);
    const uint64_t hc = HashConfig(c);
    for (int rep = 0; rep < 150; rep++) {
      const int ci = I(r, 0, (int)c.cells.size() - 1);
      const auto& q = c.cells[ci];
      const auto& m = c.materials[q.material];
      const V3 x{U(r, -1, 1), U(r, -1, 1), U(r, -1, 1)};
      const double T = RefTemperature(c, q, x);
      if (T < 0) continue;
      const int type = c.particles.size() > 1 && B(r, 0.2) ? 1 : 0;
      for (auto& [ni, fr] : m.nuclides) {
        const auto& n = c.nuclides[ni];
        if (!n.ce_neutron->tsl) continue;
        const auto& t = *n.ce_neutron->tsl;
        double E;
        switch (I(r, 0, 4)) {
        case 0: E = Pick(r, t.E); break;
        case 1: {
          E = std::nextafter(Pick(r, t.E), B(r) ? 0 : 1);
          break;
        }
        case 2: E = t.E.front() * LogU(r, 1e-4, 1); break;
        case 3: E = t.E.back() * LogU(r, 0.5, 50); break;
        default: E = LogU(r, t.E.front(), t.E.back());
        }
        Particle p{ToPt(x), Direction{0, 0, 1}, Energy{E},
                   type ? Particle::Type::photon : Particle::Type::neutron, 1};
        const Cell& cell = l->W().cells[ci];
        p.SetCell(cell);
        const Nuclide* nuc = nullptr;
        for (auto& [a, b] : cell.material->afracs)
          if (a->name == n.name) nuc = a.get();
        if (!nuc) return k.Fail("nuclide", "no nuclide " + n.name);
        bool near = false;
        const double want = RefTotal(c, n, type, E, T, &near);
        if (near) continue;
        const double got = nuc->GetTotal(p);
        k.Eval();
        const bool thermal = RefThermal(n, type, E);
        double scale = 1e-3;
        for (double y : n.ce_neutron->total->y) scale = std::max(scale, y);
        for (size_t e = 0; e < t.E.size(); e++)
          for (size_t j = 0; j < t.T.size(); j++)
            scale = std::max(scale, t.Recon(e, j));
        if (!(std::abs(got - want) <= 1e-11 * scale)) {
          std::string Ts, Es;
          for (double v : t.T) Ts += " " + G17(v);
          for (double v : t.E) Es += " " + G17(v);
          return k.Fail(
              thermal ? "thermal-total" : "above-cutoff",
              fmt("%s in %s, %s at T = %.17g K, E = %.17g (grid energies%s, "
                  "grid temperatures%s, tabulated total at %.9g K): got %.17g, "
                  "the tables give %.17g", type ? "photon" : "neutron",
                  n.name.c_str(), q.name.c_str(), T, E, Es.c_str(), Ts.c_str(),
                  n.ce_neutron->T_total, got, want));
        }
        if (!thermal) {
          ctx.Count(type ? "photons" : "at or above the cutoff");
          continue;
        }
        ctx.Count(E < t.E.front()   ? "below the energy grid"
                  : T < t.T.front() ? "below the temperature grid"
                  : T > t.T.back()  ? "above the temperature grid"
                                    : "inside both grids");
        k.Nontrivial(HashD(HashD(Mix(hc, ni), E), T));
      }
    }
    if (k.id.back() == '5') ctx.Sample("{\"problem\": " + Describe(c) + "}");
    std::filesystem::path dir;
    ScratchDir(k, dir);
    std::filesystem::remove_all(dir);
  });
  // the law used by collisions: with a scatterer only, a thermal collision
  // changes the energy by at most what the beta table allows, while free-gas
  // ones do not know about it; and captures keep their share of the total
  ctx.Cases("share", ctx.N(60, 1200), [&](Case& k) {
    Rng& r = k.rng;
    Config c = Infinite();
    c.groups = 0;
    c.energy = "1e-6";
    NuclideCfg n;
    n.name = "target";
    n.awr = LogU(r, 1, 20);
    CEData d;
    d.capture = Table1{{1e-12, 20}, {U(r, 0.2, 2), U(r, 0.2, 2)}};
    d.scatter = Table1{{1e-12, 20}, {U(r, 0.2, 2), U(r, 0.2, 2)}};
    d.total = SumTables({&*d.capture, &*d.scatter});
    const double T = U(r, 200, 800);
    d.T_total = d.T_capture = d.T_scatter = B(r) ? T : 293.6;
    d.tsl = GenTSL(r, LogU(r, 1e-7, 1e-6), n.awr);
    n.ce_neutron = d;
    c.nuclides = {n};
    MaterialCfg m;
    m.name = "mat";
    m.aden = 1;
    m.nuclides = {{0, 1.}};
    c.materials = {m};
    for (auto& q : c.cells)
      if (!q.is_void) q.material = 0, q.temperature = T;
    auto l = Load(c, k);
    const Cell* cell = nullptr;
    for (auto& q : l->W().cells)
      if (q.material) cell = &q;
    const Nuclide& nuc = *cell->material->afracs.begin()->first;
    for (int e = 0; e < 3; e++) {
      const double E = d.tsl->E.back() * (e == 0 ? U(r, 0.05, 0.99) : e == 1 ? 1 : U(r, 1, 3));
      const double sc = RefReaction(c, n, 0, rScatter, E, T);
      const double share = sc / RefSumOfReactions(c, n, 0, E, T);
      double worst = 1;
      auto pvalue = [&](int N, Rng& r) {
        int hits = 0;
        for (int i = 0; i < N; i++) {
          Particle p{Point{0, 0, 0}, Direction{1, 0, 0}, Energy{E},
                     Particle::Type::neutron, Seed31(r)};
          p.SetCell(*cell);
          nuc.Interact(p);
          hits += EventKind(p) == eScatter;
        }
        k.Eval(N);
        return PBinom(hits, N, share);
      };
      if (Rejected(pvalue, ctx.N(5000, 50000), r, &worst))
        return k.Fail("share", fmt("E = %.9g, cutoff %.9g, T = %.9g: scatters "
                                   "are not a share of %.6g of collisions "
                                   "(p = %.3g)", E, d.tsl->E.back(), T, share, worst));
      ctx.Count("shares tested");
    }
    std::filesystem::path dir;
    ScratchDir(k, dir);
    std::filesystem::remove_all(dir);
  });
}
} // namespace mon
