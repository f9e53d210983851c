// C12: scattering matrices and fission data are sampled as declared.
#include "drive.hpp"
#include "refxs.hpp"

#include <algorithm>

namespace mon {
const char* const kRule =
    "one evaluation is one scattering or fission (or one secondary); distinct "
    "non-trivial ones are the (data, incident group or energy, outgoing group "
    "or number of secondaries) seen";

static double Clamp(double lo, double hi, double x) {
  return std::min(1., std::max(0., (x - lo) / (hi - lo)));
}
// isotropy of unit vectors, also relative to `in`
static double Isotropy(const std::vector<V3>& d, V3 in) {
  if (d.size() < 100) return 1;
  double p = 1;
  const V3 axes[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, in};
  for (auto a : axes) {
    std::vector<double> mu;
    for (auto& v : d) mu.push_back(Dot(a, v));
    p = std::min(p, KS(mu, [](double x) { return Clamp(-1, 1, x); }));
  }
  std::vector<double> phi;
  for (auto& v : d) phi.push_back(std::atan2(v.z, v.y));
  p = std::min(p, KS(phi, [](double x) { return Clamp(-M_PI, M_PI, x); }));
  // octants: dependence between the components
  std::vector<double> o(8);
  for (auto& v : d) o[(v.x > 0) + 2 * (v.y > 0) + 4 * (v.z > 0)]++;
  p = std::min(p, Chi2(o, std::vector<double>(8, 0.125)));
  return std::min(1., 6 * p);
}
// independence of two classifications
static double Independent(const std::vector<std::pair<int, int>>& x, int na,
                          int nb) {
  std::vector<double> a(na), b(nb), t(na * nb), e(na * nb);
  for (auto& [i, j] : x) a[i]++, b[j]++, t[i * nb + j]++;
  const double n = x.size();
  if (n < 200) return 1;
  for (int i = 0; i < na; i++)
    for (int j = 0; j < nb; j++) e[i * nb + j] = a[i] / n * b[j] / n;
  return Chi2(t, e); // conservative: more degrees of freedom than it has
}

static double Nubar(const MGData* mg, const CEData* cd, double E) {
  return mg ? (*mg->nubar)[(int)E - 1] : cd->nubar->At(E);
}
// the columns of a matrix, and the cross sections, are of any scale
static void Scale(MGData& d, int G, Rng& r) {
  for (int g = 0; g < G; g++) {
    const double chi = B(r, 0.3) ? LogU(r, 1e-14, 1e8) : 1;
    const double xs = B(r, 0.2) ? LogU(r, 1e-14, 1e8) : 1;
    if (d.chi)
      for (auto& row : *d.chi) row[g] *= chi;
    if (d.scatter)
      for (auto& row : *d.scatter) row[g] *= xs;
    for (auto* v : {&d.capture, &d.fission})
      if (*v) (**v)[g] *= xs;
  }
}

struct Outcome {
  int event;
  Energy energy;
  V3 dir, pos;
  std::vector<Birth> sec;
};

void Run(Ctx& ctx) {
  auto body = [&](const std::string& kind) {
    return [&ctx, kind](Case& k) {
      Rng& r = k.rng;
      GenOpt o;
      o.max_surfaces = 3;
      o.photon = B(r, 0.2);
      o.max_groups = 7;
      o.estimators = false;
      const bool ce = kind == "continuous";
      Config c;
      if (ce) c = GenCE(r, o);
      else c = GenMG(r, o);
      // yields: whole, zero, large
      for (auto& n : c.nuclides) {
        if (n.mg_neutron && n.mg_neutron->nubar)
          for (auto& x : *n.mg_neutron->nubar)
            if (B(r, 0.5))
              x = B(r, 0.1) ? LogU(r, 12, 1500)
                  : B(r)    ? I(r, 0, 4)
                            : U(r, 0, 12);
        if (n.mg_neutron) Scale(*n.mg_neutron, c.groups, r);
        if (n.mg_photon) Scale(*n.mg_photon, c.groups, r);
        if (n.ce_neutron && n.ce_neutron->nubar)
          for (auto& y : n.ce_neutron->nubar->y)
            if (B(r, 0.3))
              y = B(r, 0.1) ? LogU(r, 12, 1500)
                  : B(r)    ? I(r, 0, 4)
                            : U(r, 0, 12);
      }
      auto l = Load(c, k);
      const uint64_t hc = HashConfig(c);
      for (int rep = 0; rep < 5; rep++) {
        // any nuclide of any cell's material
        std::vector<std::pair<int, int>> all;
        for (size_t i = 0; i < c.cells.size(); i++)
          if (!c.cells[i].is_void)
            for (auto& [n, f] : c.materials[c.cells[i].material].nuclides)
              all.emplace_back(i, n);
        if (all.empty()) return;
        const auto [ci, ni] = Pick(r, all);
        const auto& n = c.nuclides[ni];
        const auto nuc = l->W().FindNuclideByName(n.name);
        const auto& cell = l->W().cells[ci];
        const int type = c.particles.size() > 1 && B(r, 0.3) ? 1 : 0;
        const double E = c.groups ? I(r, 1, c.groups)
                         : B(r)   ? LogU(r, 1e-11, 1e-5)
                                  : LogU(r, 1e-5, 20);
        if (!(RefTotal(c, n, type, E, 293.6) > 0)) continue;
        const Energy en = c.groups ? Energy{(Group)E} : Energy{E};
        const MGData* mg =
            c.groups ? (type ? &*n.mg_photon : &*n.mg_neutron) : nullptr;
        const CEData* cd =
            c.groups ? nullptr : (type ? &*n.ce_photon : &*n.ce_neutron);
        std::string bad, what;
        double worst = 1;
        auto pvalue = [&](int N, Rng& r) {
          std::map<double, double> group;
          std::vector<V3> dirs, sdirs;
          std::map<int, double> yield;
          std::map<double, double> sgroup;
          std::vector<std::pair<int, int>> gd, sgd, pairs;
          uint64_t scatters = 0, fissions = 0;
          const V3 x{U(r, -1, 1), U(r, -1, 1), U(r, -1, 1)};
          const V3 in = RandDirSpecial(r);
          for (int i = 0; i < N; i++) {
            Particle p{ToPt(x), Direction{in.x, in.y, in.z}, en,
                       type ? Particle::Type::photon : Particle::Type::neutron,
                       Seed31(r)};
            p.SetCell(cell);
            nuc->Interact(p);
            const int ev = EventKind(p);
            Bank bank;
            p.MoveSecondariesTo(bank);
            if (ev != eFission && !bank.empty()) {
              bad = fmt("a %s produced secondaries", EventName(ev));
              return 0.;
            }
            const V3 pos = ToV3(p.GetPosition());
            if (pos.x != x.x || pos.y != x.y || pos.z != x.z) {
              bad = fmt("a %s moved the particle", EventName(ev));
              return 0.;
            }
            if (ev == eScatter && mg) {
              scatters++;
              k.Eval();
              if (!std::holds_alternative<Group>(p.GetEnergy())) {
                bad = "a multigroup scatter left no group";
                return 0.;
              }
              const double g = EnergyValue(p.GetEnergy());
              if (!(g >= 1 && g <= c.groups)) {
                bad = fmt("scattered to group %g", g);
                return 0.;
              }
              group[g]++;
              const V3 d = ToV3(p.GetDirection());
              if (std::abs(Norm(d) - 1) > 1e-12) {
                bad = fmt("scattered to a direction of length %.17g", Norm(d));
                return 0.;
              }
              dirs.push_back(d);
              gd.emplace_back((int)g - 1, (d.x > 0) + 2 * (d.y > 0) + 4 * (d.z > 0));
              k.Nontrivial(Mix(HashD(Mix(hc, ni * 2 + type), E), g));
            }
            if (ev == eFission) {
              fissions++;
              k.Eval();
              int y = 0;
              int first = -1;
              while (!bank.empty()) {
                const Particle& s = bank.back();
                y++;
                const double g = EnergyValue(s.GetEnergy());
                if (s.GetEnergy().index() != en.index()) {
                  bad = "a secondary has the other kind of energy";
                  return 0.;
                }
                const V3 sp = ToV3(s.GetPosition());
                if (sp.x != x.x || sp.y != x.y || sp.z != x.z) {
                  bad = fmt("a secondary starts at (%.17g, %.17g, %.17g), "
                            "not at the site (%.17g, %.17g, %.17g)",
                            sp.x, sp.y, sp.z, x.x, x.y, x.z);
                  return 0.;
                }
                if (s.GetType() != Particle::Type::neutron) {
                  bad = "a secondary is not a neutron";
                  return 0.;
                }
                if (cd && g != E) {
                  bad = fmt("a secondary has energy %.17g, the incident one is "
                            "%.17g", g, E);
                  return 0.;
                }
                if (mg && !(g >= 1 && g <= c.groups)) {
                  bad = fmt("a secondary in group %g", g);
                  return 0.;
                }
                const V3 d = ToV3(s.GetDirection());
                if (std::abs(Norm(d) - 1) > 1e-12) {
                  bad = fmt("a secondary's direction has length %.17g", Norm(d));
                  return 0.;
                }
                const int oct = (d.x > 0) + 2 * (d.y > 0) + 4 * (d.z > 0);
                sdirs.push_back(d);
                sgroup[g]++;
                if (mg) {
                  sgd.emplace_back((int)g - 1, oct);
                  if (first >= 0) pairs.emplace_back(first, (int)g - 1);
                  first = (int)g - 1;
                  k.Nontrivial(Mix(HashD(Mix(hc, ni * 2 + type), E), 100 + g));
                }
                ctx.Count("secondaries");
                bank.pop_back();
              }
              yield[y]++;
              k.Nontrivial(Mix(HashD(Mix(hc, ni * 2 + type), E), 1000 + y));
            }
          }
          double p = 1;
          int tests = 0;
          auto test = [&](double q, const char* w) {
            tests++;
            if (q < p) p = q, what = w;
          };
          if (mg && scatters > 50) {
            std::vector<double> n(c.groups), e(c.groups);
            for (int g = 0; g < c.groups; g++) {
              n[g] = group.count(g + 1) ? group[g + 1] : 0;
              e[g] = (*mg->scatter)[g][(int)E - 1] / mg->Scat((int)E - 1);
            }
            test(Chi2(n, e), "outgoing group of scattering");
            test(Isotropy(dirs, in), "direction of scattering");
            test(Independent(gd, c.groups, 8),
                 "independence of group and direction of scattering");
            ctx.Count("multigroup scatterings", scatters);
          }
          if (fissions > 0) {
            const double nu = Nubar(mg, cd, E);
            const double fl = std::floor(nu * (1 + 1e-14));
            const double frac = std::max(0., nu - fl);
            double up = 0;
            for (auto& [y, n] : yield) {
              const bool lo = y == fl, hi = y == fl + 1;
              if (hi) up += n;
              // a whole nubar may be a whole number but for rounding
              if ((!lo && !hi && !(y == fl - 1 && frac < 1e-9 && n < 3)) ||
                  (hi && frac < 1e-12)) {
                bad = fmt("%g fissions with nubar %.17g gave %d secondaries", n,
                          nu, y);
                return 0.;
              }
            }
            if (fissions <= 50) return std::min(1., p * std::max(1, tests));
            test(frac > 0 && frac < 1 ? PBinom(up, fissions, frac) : 1,
                 "number of secondaries");
            test(Isotropy(sdirs, in), "direction of secondaries");
            if (mg && !sdirs.empty()) {
              double t = 0;
              std::vector<double> n(c.groups), e(c.groups);
              for (int g = 0; g < c.groups; g++) {
                n[g] = sgroup.count(g + 1) ? sgroup[g + 1] : 0;
                e[g] = (*mg->chi)[g][(int)E - 1];
                t += e[g];
              }
              for (auto& v : e) v /= t;
              test(Chi2(n, e), "group of secondaries");
              test(Independent(sgd, c.groups, 8),
                   "independence of group and direction of secondaries");
              test(Independent(pairs, c.groups, c.groups),
                   "independence of the groups of siblings");
            }
            ctx.Count(mg ? "multigroup fissions" : "continuous fissions",
                      fissions);
          }
          return std::min(1., p * std::max(1, tests));
        };
        // many secondaries of few fissions, where there are many
        const bool fissile = mg ? bool(mg->fission) : bool(cd->fission);
        const double many = fissile ? std::max(1., Nubar(mg, cd, E) / 40) : 1;
        const bool rej =
            Rejected(pvalue, ctx.N(2500, 10000) / many, r, &worst);
        if (many > 1) ctx.Count("situations with many secondaries");
        const std::string at =
            fmt("nuclide %s, %s %s %.17g: ", n.name.c_str(),
                type ? "photon" : "neutron", c.groups ? "group" : "energy", E);
        if (!bad.empty()) return k.Fail("outcome", at + bad);
        if (rej)
          return k.Fail("distribution", at + what + fmt(" deviates (p = %.3g)",
                                                        worst));
        ctx.Count("situations");
        if (ctx.samples.size() < 3)
          ctx.Sample(fmt("{\"situation\": \"%s\", \"p value\": %.4g, \"least "
                         "likely\": \"%s\"}", JsonEscape(at).c_str(), worst,
                         what.c_str()));
      }
      std::filesystem::path dir;
      ScratchDir(k, dir);
      std::filesystem::remove_all(dir);
    };
  };
  ctx.Cases("multigroup", ctx.N(800, 8000), body("multigroup"));
  ctx.Cases("continuous", ctx.N(400, 4000), body("continuous"));
}
} // namespace mon
