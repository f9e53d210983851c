// C20: thermal scattering samples energy and momentum transfer from the tables.
#include "drive.hpp"
#include "reflaws.hpp"

#include <algorithm>

namespace mon {
const char* const kRule =
    "one evaluation is one thermal scatter; all are non-trivial, distinct ones "
    "identified by problem, incident energy, outgoing energy and cosine";

namespace {
struct Problem {
  Config c;
  std::unique_ptr<Loaded> l;
  const Cell* cell = nullptr;
  const Nuclide* nuc = nullptr;
  RefTSL law;
};
Problem Make(Case& k, Rng& r, const Field& temperature, double T) {
  Problem p;
  p.c = Infinite();
  Config& c = p.c;
  c.groups = 0;
  c.energy = "1e-8";
  NuclideCfg n;
  n.name = "target";
  n.awr = B(r, 0.4) ? 0.9991673 : LogU(r, 0.9, 60);
  CEData d;
  d.scatter = Table1{{1e-12, 20}, {1, 1}};
  d.total = d.scatter;
  d.tsl = GenTSL(r, LogU(r, 5e-8, 4e-6), n.awr, 150,
                 B(r, 0.2) ? T : B(r, 0.8) ? T * U(r, 1, 1.5) : 5000);
  n.ce_neutron = d;
  c.nuclides = {n};
  MaterialCfg m;
  m.name = "mat";
  m.aden = 1;
  m.nuclides = {{0, 1.}};
  c.materials = {m};
  for (auto& q : c.cells)
    if (!q.is_void) q.material = 0;
  c.temperature = temperature;
  c.tracking = "cell delta";
  p.l = Load(c, k);
  for (auto& q : p.l->W().cells)
    if (q.material) p.cell = &q;
  p.nuc = p.cell->material->afracs.begin()->first.get();
  p.law = RefTSL{*d.tsl, n.awr};
  return p;
}
} // namespace

void Run(Ctx& ctx) {
  ctx.Cases("laws", ctx.N(1500, 20000), [&](Case& k) {
    Rng& r = k.rng;
    Field f;
    const V3 x{U(r, -5, 5), U(r, -5, 5), U(r, -5, 5)};
    const double T = B(r, 0.8) ? U(r, 150, 1000) : U(r, 1000, 4000);
    if (B(r)) {
      f.kind = Field::Linear;
      f.g = (T * U(r, 0.01, 0.1)) * RandDir(r);
      f.b = T - Dot(f.g, x);
      f.lo = 0;
      f.hi = 10 * T;
    }
    else {
      f.kind = Field::Constant;
      f.c = T;
    }
    Problem q = Make(k, r, f, T);
    const RefTSL& ref = q.law;
    const auto& Es = ref.Es;
    const auto& betas = ref.betas;
    const uint64_t hc = HashConfig(q.c);
    for (int e = 0; e < 3; e++) {
      double E;
      switch (I(r, 0, 5)) {
      case 0: E = Es[0] * LogU(r, 1e-3, 1); break;
      case 1: E = Es[I(r, 0, Es.size() - 2)]; break; // exactly on the grid
      case 2:
      case 3: E = ref.t.E.back() * U(r, 0.2, 1); break;
      default: E = LogU(r, Es[0], ref.t.E.back());
      }
      const double real_T = q.c.temperature.At(x);
      const double kT = kBoltzmann * real_T;
      const auto law = ref.Beta(E, real_T);
      std::string bad, what;
      const std::string where =
          fmt("awr %.6g, T = %.9g K, E = %.9g MeV (E/kT %.5g, %zu grid energies "
              "in %zu partitions, %zu grid betas in %zu partitions, beta cutoff "
              "%.5g)", ref.awr, real_T, E, E / kT, Es.size(), ref.t.beta.size(),
              betas.size(), ref.t.alpha.size(), ref.t.beta_cutoff);
      double worst = 1;
      uint64_t down = 0, below = 0;
      auto pvalue = [&](int n, Rng& r) {
        std::vector<double> b, u, uneg, usmall, ulow;
        const V3 w = RandDir(r);
        for (int i = 0; i < n; i++) {
          const Direction d{w.x, w.y, w.z};
          Particle p{ToPt(x), d, Energy{E}, Particle::Type::neutron, Seed31(r)};
          p.SetCell(*q.cell);
          q.nuc->Interact(p);
          const double Eo = std::get<ContinuousEnergy>(p.GetEnergy());
          const double mu = Dot(ToV3(d), ToV3(p.GetDirection()));
          k.Nontrivial(HashD(HashD(HashD(hc, E), Eo), mu));
          if (EventKind(p) != eScatter) bad = "no scatter";
          if (!(Eo >= 0) || !(Eo <= (E + ref.t.beta_cutoff * kT) * (1 + 1e-9)))
            bad = fmt("outgoing energy %.17g", Eo);
          if (!(std::abs(mu) <= 1 + 1e-13)) bad = fmt("cosine %.17g", mu);
          if (!bad.empty()) return 0.;
          const double beta = (Eo - E) / kT;
          const double alpha = (E + Eo - 2 * mu * std::sqrt(E * Eo)) / (ref.awr * kT);
          b.push_back(law.At(beta));
          const double v = ref.AlphaAt(E, real_T, beta, alpha);
          u.push_back(v);
          if (beta < 0) uneg.push_back(v), down++;
          if (std::abs(beta) < betas[0]) usmall.push_back(v), below++;
          if (beta > 0 && *std::upper_bound(betas.begin(), betas.end(), beta) >=
              ref.t.beta_cutoff) ulow.push_back(v);
        }
        k.Eval(n);
        auto uniform = [](double v) { return std::min(1., std::max(0., v)); };
        double p = 1;
        auto test = [&](const std::vector<double>& v, const char* name) {
          if (v.size() < 100) return;
          const double pi = KS(v, uniform);
          if (pi < p) p = pi, what = name;
        };
        test(b, "beta");
        test(u, "alpha");
        test(uneg, "alpha of losses");
        test(usmall, "alpha below the beta grid");
        test(ulow, "alpha near the beta cutoff");
        return std::min(1., 5 * p);
      };
      const bool no = Rejected(pvalue, ctx.N(8000, 30000), r, &worst);
      if (!bad.empty()) return k.Fail("kinematics", where + ": " + bad);
      if (no)
        return k.Fail("law", where + ": " + what +
                                 fmt(" does not follow the tables (p = %.3g)", worst));
      ctx.Count("laws tested");
      ctx.Count("energy losses", down);
      ctx.Count("below the beta grid", below);
      if (E < Es[0]) ctx.Count("below the energy grid");
      if (e == 0 && k.id.back() == '1')
        ctx.Sample("{\"where\": \"" + where + fmt("\", \"p\": %.3g}", worst));
    }
    std::filesystem::path dir;
    ScratchDir(k, dir);
    std::filesystem::remove_all(dir);
  });
}
} // namespace mon
