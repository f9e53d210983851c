// C11: collisions pick nuclide and reaction by their cross sections.
#include "drive.hpp"
#include "refxs.hpp"

#include <algorithm>

namespace mon {
const char* const kRule =
    "one evaluation is one collision; distinct non-trivial ones are collisions "
    "with two or more possible outcomes, identified by the problem, the cell, "
    "the energy and the (nuclide, reaction) they led to";

static bool Start(Rng& r, const Config& c, V3& p, int& cell) {
  for (int i = 0; i < 200; i++) {
    p = i < 60 ? V3{U(r, -2, 2), U(r, -2, 2), U(r, -2, 2)} : c.src;
    cell = RefFindCell(c, p);
    if (cell >= 0 && !c.cells[cell].is_void &&
        RefMargin(c, c.cells[cell], p) > 1e-9)
      return true;
  }
  return false;
}
// zero cross sections in places
static void Zeros(Config& c, Rng& r) {
  for (auto& n : c.nuclides) {
    for (auto* d : {&n.mg_neutron, &n.mg_photon}) {
      if (!*d) continue;
      auto& m = **d;
      for (int g = 0; g < c.groups; g++) {
        const bool other = m.Tot(g) > (m.capture ? (*m.capture)[g] : 0);
        if (m.capture && other && B(r, 0.3)) (*m.capture)[g] = 0;
        if (m.fission && m.Tot(g) > (*m.fission)[g] && B(r, 0.3))
          (*m.fission)[g] = 0;
        if (m.scatter && m.Tot(g) > m.Scat(g) * (1 + 1e-9) && B(r, 0.2))
          for (auto& row : *m.scatter) row[g] = 0;
      }
    }
    if (n.ce_neutron && B(r, 0.4)) {
      auto& d = *n.ce_neutron;
      Table1* t = d.scatter && B(r) ? &*d.scatter
                  : d.fission       ? &*d.fission
                                    : nullptr;
      if (!t) continue;
      for (size_t i = 0; i < t->x.size(); i++)
        if (t->x[i] < 1e-6) t->y[i] = 0;
      std::vector<const Table1*> all{&*d.capture};
      if (d.scatter) all.push_back(&*d.scatter);
      if (d.fission) all.push_back(&*d.fission);
      d.total = SumTables(all);
    }
  }
}

void Run(Ctx& ctx) {
  auto body = [&](const std::string& kind) {
    return [&ctx, kind](Case& k) {
      Rng& r = k.rng;
      GenOpt o;
      o.max_surfaces = 3;
      o.photon = B(r, 0.3);
      o.estimators = false;
      Config c;
      const bool ce = kind == "continuous";
      if (ce) {
        o.linear_temperature = B(r, 0.4);
        c = GenCE(r, o);
      }
      else c = GenMG(r, o);
      if (ce && B(r, 0.4))
        // reactions which are not declared are part of the total
        for (auto& n : c.nuclides)
          for (auto* d : {&n.ce_neutron, &n.ce_photon}) {
            if (!*d || B(r, 0.3)) continue;
            for (auto& y : (*d)->total->y) y *= B(r, 0.3) ? 1 : U(r, 1, 3);
            const auto& q = c.cells[I(r, 0, c.cells.size() - 1)];
            if (const double T = RefTemperature(c, q, c.src); T > 1)
              (*d)->T_total = T;
            ctx.Count("nuclides with a total above the sum of reactions");
          }
      Config absorbing = c; // histories surely end
      if (B(r, 0.6)) Zeros(c, r);
      auto l = Load(c, k);
      const uint64_t hc = HashConfig(c);
      for (int rep = 0; rep < 6; rep++) {
        V3 x;
        int cell;
        if (!Start(r, c, x, cell)) return;
        const int type = c.particles.size() > 1 && B(r) ? 1 : 0;
        const double E = c.groups ? I(r, 1, c.groups)
                         : B(r)   ? LogU(r, 1e-11, 1e-5)
                                  : LogU(r, 1e-5, 20);
        const auto& q = c.cells[cell];
        const auto& m = c.materials[q.material];
        const double T = RefTemperature(c, q, x);
        if (T < 0) continue;
        bool skip = false;
        // outcomes: nuclide x reaction
        std::vector<double> probs;
        std::vector<std::string> names;
        double total = 0;
        int possible = 0;
        for (auto& [ni, f] : m.nuclides) {
          const auto& n = c.nuclides[ni];
          const double s = RefTotal(c, n, type, E, T, &skip);
          const double sum = RefSumOfReactions(c, n, type, E, T, &skip);
          total += f * s;
          for (int e = 0; e < 3; e++) {
            const double p =
                sum ? f * s * RefReaction(c, n, type, e, E, T, &skip) / sum : 0;
            probs.push_back(p);
            possible += p > 0;
            names.push_back(n.name);
          }
          // a total less than its parts has no meaning
          if (s < sum * (1 - 1e-6)) skip = true;
          if (s > sum * (1 + 1e-6)) ctx.Count("totals above the sum of reactions");
        }
        if (skip || !(total > 0)) continue;
        for (auto& p : probs) p /= total;
        const auto& real = l->W().cells[cell];
        std::vector<double> counts;
        double worst = 1;
        std::string impossible;
        auto pvalue = [&](int n, Rng& r) {
          counts.assign(probs.size(), 0);
          for (int i = 0; i < n; i++) {
            Particle p{ToPt(x), Direction{1, 0, 0},
                       c.groups ? Energy{(Group)E} : Energy{E},
                       type ? Particle::Type::photon : Particle::Type::neutron,
                       Seed31(r)};
            p.SetCell(real);
            const Nuclide& nuc = p.SampleNuclide();
            nuc.Interact(p);
            const int ev = EventKind(p);
            const int e = ev == eCapture ? rCapture
                          : ev == eScatter ? rScatter
                          : ev == eFission ? rFission
                                           : -1;
            int idx = -1;
            for (size_t j = 0; j < names.size(); j += 3)
              if (names[j] == nuc.name) idx = j + e;
            if (e < 0 || idx < 0 || probs[idx] == 0) {
              impossible = fmt("nuclide %s, event %s", nuc.name.c_str(),
                               EventName(ev));
              return 0.;
            }
            counts[idx]++;
            k.Eval();
            if (possible > 1)
              k.Nontrivial(Mix(HashD(Mix(hc, cell * 10 + type), E), idx));
          }
          ctx.Count("collisions", n);
          return Chi2(counts, probs);
        };
        const bool bad = Rejected(pvalue, ctx.N(1500, 6000), r, &worst);
        if (!impossible.empty())
          return k.Fail("impossible",
                        fmt("at %s %g, %g K: %s has no cross section",
                            c.groups ? "group" : "energy", E, T,
                            impossible.c_str()));
        if (bad) {
          std::string s;
          double n = 0;
          for (double v : counts) n += v;
          for (size_t j = 0; j < probs.size(); j++)
            s += fmt(" %s/%d: %g (expected %g)", names[j].c_str(), (int)j % 3,
                     counts[j], n * probs[j]);
          return k.Fail("proportions",
                        fmt("outcomes at %s %g, %g K (p = %.3g):%s",
                            c.groups ? "group" : "energy", E, T, worst,
                            s.c_str()));
        }
        ctx.Count(fmt("situations with %s outcomes", possible > 3 ? "4 or more"
                      : possible > 1 ? "2 or 3" : "1"));
        if (ctx.samples.size() < 3 && possible > 2) {
          std::string a, b;
          for (double v : probs) a += fmt("%s%.4g", a.empty() ? "" : ",", v);
          for (double v : counts) b += fmt("%s%g", b.empty() ? "" : ",", v);
          ctx.Sample("{\"expected\": [" + a + "], \"counts\": [" + b + "]}");
        }
      }
      // whole histories: what the collisions of transported particles were
      c = absorbing;
      c.tracking = c.temperature.kind == Field::Linear || B(r) ? "cell delta"
                                                               : "surface";
      Single single{c, k, "transport"};
      double worst = 1;
      auto pvalue = [&](int n, Rng& r) {
        double d[3] = {}, v[3] = {};
        for (int i = 0; i < n; i++) {
          V3 x;
          int cell;
          if (!Start(r, c, x, cell)) continue;
          const double E = c.groups ? I(r, 1, c.groups) : LogU(r, 1e-10, 15);
          const auto& t = single.Run(
              Particle{ToPt(x), Direction{U(r, -1, 1), U(r, -1, 1), U(r, 0.1, 1)},
                       c.groups ? Energy{(Group)E} : Energy{E},
                       Particle::Type::neutron, Seed31(r)});
          double energy = E;
          for (auto& e : t.steps) {
            const int kind = e.event == eCapture ? rCapture
                             : e.event == eScatter ? rScatter
                             : e.event == eFission ? rFission
                                                   : -1;
            if (kind >= 0 && e.cell >= 0 && !c.cells[e.cell].is_void) {
              const auto& q = c.cells[e.cell];
              const double T = RefTemperature(c, q, e.pos);
              double s[3] = {}, tot = 0;
              bool skip = T < 0;
              for (auto& [ni, f] : c.materials[q.material].nuclides)
{
                  const auto& n = c.nuclides[ni];
                  const double sigma = RefTotal(c, n, 0, energy, T, &skip);
                  const double sum =
                      RefSumOfReactions(c, n, 0, energy, T, &skip);
                  if (sigma < sum * (1 - 1e-6)) skip = true;
                  for (int j = 0; j < 3; j++) {
                    const double xs =
                        sum ? f * sigma / sum *
                                  RefReaction(c, n, 0, j, energy, T, &skip)
                            : 0;
                    s[j] += xs;
                    tot += xs;
                  }
                }
              if (!skip && tot > 0) {
                k.Eval();
                ctx.Count("collisions in transport");
                for (int j = 0; j < 3; j++) {
                  const double p = s[j] / tot;
                  d[j] += (j == kind) - p;
                  v[j] += p * (1 - p);
                }
              }
            }
            energy = e.energy;
          }
        }
        double p = 1;
        for (int j = 0; j < 3; j++)
          if (v[j] > 30) p = std::min(p, PZ(d[j] / std::sqrt(v[j])));
        return std::min(1., 3 * p);
      };
      if (Rejected(pvalue, ctx.N(300, 1500), r, &worst))
        return k.Fail("transport", fmt("the reactions along transported "
                                       "particles deviate (p = %.3g): ", worst) +
                                       Describe(c));
      std::filesystem::path dir;
      ScratchDir(k, dir);
      std::filesystem::remove_all(dir);
    };
  };
  ctx.Cases("multigroup", ctx.N(400, 6000), body("multigroup"));
  ctx.Cases("continuous", ctx.N(400, 6000), body("continuous"));
}
} // namespace mon
