// C18: free-gas scattering has the exact thermal-motion kinematics.
#include "drive.hpp"
#include "reflaws.hpp"

#include <algorithm>

namespace mon {
const char* const kRule =
    "one evaluation is one free-gas collision; all are non-trivial, distinct "
    "ones identified by problem, energy, temperature, outgoing energy and "
    "cosine";
constexpr double kMass = 1.045354912280858e-18; // MeV s^2 / cm^2

namespace {
using Out = FreeGasOut;
struct Problem {
  Config c;
  std::unique_ptr<Loaded> l;
  const Cell* cell = nullptr;
  const Nuclide* nuc = nullptr;
  double awr = 1;
};
// one cell filling all space with one scatterer
Problem Make(Case& k, double awr, const Field& temperature) {
  Problem p;
  p.c = Infinite();
  Config& c = p.c;
  c.groups = 0;
  c.energy = "1e-6";
  NuclideCfg n;
  n.name = "target";
  n.awr = awr;
  CEData d;
  d.scatter = Table1{{1e-12, 20}, {1, 1}};
  d.total = d.scatter;
  d.T_total = d.T_scatter = 293.6;
  n.ce_neutron = d;
  c.nuclides = {n};
  c.materials.clear();
  MaterialCfg m;
  m.name = "mat";
  m.aden = 1;
  m.nuclides = {{0, 1.}};
  c.materials.push_back(m);
  for (auto& q : c.cells)
    if (!q.is_void) q.material = 0;
  c.temperature = temperature;
  c.tracking = "cell delta";
  p.l = Load(c, k);
  for (auto& q : p.l->W().cells)
    if (q.material) p.cell = &q;
  p.nuc = p.cell->material->afracs.begin()->first.get();
  p.awr = awr;
  return p;
}
} // namespace

void Run(Ctx& ctx) {
  auto collide = [](const Problem& q, V3 x, V3 d, double E, unsigned seed,
                    Out& o, V3 e1, V3 e2, std::string& bad) {
    Particle p{ToPt(x), Direction{d.x, d.y, d.z}, Energy{E},
               Particle::Type::neutron, seed};
    p.SetCell(*q.cell);
    q.nuc->Interact(p);
    const V3 dd = ToV3(p.GetDirection());
    o.E = std::get<ContinuousEnergy>(p.GetEnergy());
    o.mu = Dot(d, dd);
    o.phi = std::atan2(Dot(dd, e2), Dot(dd, e1));
    if (EventKind(p) != eScatter) bad = "no scatter";
    if (!(o.E > 0) || !std::isfinite(o.E)) bad = "outgoing energy " + G17(o.E);
    if (!(std::abs(o.mu) <= 1 + 1e-14)) bad = "cosine " + G17(o.mu);
    if (!(std::abs(Norm(dd) - 1) < 1e-13)) bad = "direction of length " + G17(Norm(dd));
  };
  auto awrs = [](Rng& r) {
    return B(r, 0.2)   ? 0.9991673
           : B(r, 0.1) ? 1.
           : B(r, 0.1) ? U(r, 0.2, 1)
                       : LogU(r, 1, 250);
  };
  ctx.Cases("spectrum", ctx.N(900, 12000), [&](Case& k) {
    Rng& r = k.rng;
    const double awr = awrs(r);
    Field f;
    V3 x{U(r, -5, 5), U(r, -5, 5), U(r, -5, 5)};
    const double T = LogU(r, 5, 3000);
    if (B(r)) {
      f.kind = Field::Linear;
      f.g = (T * U(r, 0.01, 0.1)) * RandDir(r);
      f.b = T - Dot(f.g, x);
      f.lo = 0;
      f.hi = 10 * T;
    }
    else {
      f.kind = Field::Constant;
      f.c = T;
    }
    const Problem q = Make(k, awr, f);
    const double kT = kBoltzmann * T;
    const double E = kT * (B(r, 0.2) ? LogU(r, 1e-4, 0.1) : B(r, 0.3) ? LogU(r, 10, 3000) : LogU(r, 0.1, 10));
    const V3 d = ToV3(Direction{RandDir(r).x, RandDir(r).y, RandDir(r).z});
    const V3 e1 = Unit(Cross(d, RandDir(r))), e2 = Cross(d, e1);
    const std::string where =
        fmt("awr %.9g, T = %.9g K, E = %.9g MeV (E/kT = %.4g)", awr, T, E, E / kT);
    std::string bad, what;
    double worst = 1;
    auto pvalue = [&](int n, Rng& r) {
      std::vector<std::vector<double>> a(6), b(6);
      std::vector<double> phi;
      auto add = [&](std::vector<std::vector<double>>& v, const Out& o) {
        const double s = std::sqrt(o.E / E);
        v[0].push_back(o.E);
        v[1].push_back(o.mu);
        v[2].push_back(s * o.mu);                   // forward velocity
        v[3].push_back(o.E - 2 * o.mu * s * E);     // momentum transfer
        v[4].push_back(s * std::sqrt(std::max(0., 1 - o.mu * o.mu)));
        v[5].push_back(s - 3 * o.mu);
      };
      for (int i = 0; i < n && bad.empty(); i++) {
        Out o;
        collide(q, x, d, E, Seed31(r), o, e1, e2, bad);
        k.Nontrivial(HashD(HashD(HashD(HashD(3, E), o.E), o.mu), awr));
        add(a, o);
        phi.push_back(o.phi);
        for (int j = 0; j < 2; j++) add(b, RefFreeGas(r, E, T, awr));
      }
      k.Eval(n);
      if (!bad.empty()) return 0.;
      double p = 1;
      static const char* const names[] = {
          "energy", "cosine", "forward velocity", "momentum transfer",
          "transverse velocity", "joint energy and cosine"};
      for (int i = 0; i < 6; i++) {
        const double pi = KS2(a[i], b[i]);
        if (pi < p) p = pi, what = names[i];
      }
      const double pp = KS(phi, [](double t) { return t / (2 * M_PI) + 0.5; });
      if (pp < p) p = pp, what = "azimuth";
      // azimuth independent of the energy: uniform in either half
      std::vector<double> half;
      std::vector<double> s = a[0];
      std::nth_element(s.begin(), s.begin() + s.size() / 2, s.end());
      for (size_t i = 0; i < phi.size(); i++)
        if (a[0][i] < s[s.size() / 2]) half.push_back(phi[i]);
      const double ph = KS(half, [](double t) { return t / (2 * M_PI) + 0.5; });
      if (ph < p) p = ph, what = "azimuth at low energies";
      return std::min(1., 8 * p);
    };
    const bool no = Rejected(pvalue, ctx.N(12000, 40000), r, &worst);
    if (!bad.empty()) return k.Fail("kinematics", where + ": " + bad);
    if (no)
      return k.Fail("spectrum", where + ": " + what +
                                    fmt(" does not follow the law (p = %.3g)", worst));
    ctx.Count("spectra tested");
    if (k.id.back() == '1')
      ctx.Sample("{\"where\": \"" + where + fmt("\", \"p\": %.3g}", worst));
    std::filesystem::path dir;
    ScratchDir(k, dir);
    std::filesystem::remove_all(dir);
  });
  // every single collision obeys the kinematics of the cold limit
  ctx.Cases("cold", ctx.N(300, 6000), [&](Case& k) {
    Rng& r = k.rng;
    const double awr = awrs(r);
    Field f;
    f.kind = Field::Constant;
    f.c = 0;
    const Problem q = Make(k, awr, f);
    for (int i = 0; i < 2000; i++) {
      const double E = LogU(r, 1e-11, 20);
      const V3 x{U(r, -5, 5), U(r, -5, 5), U(r, -5, 5)};
      const V3 w = RandDir(r);
      const V3 d = ToV3(Direction{w.x, w.y, w.z});
      const V3 e1 = Unit(Cross(d, RandDir(r))), e2 = Cross(d, e1);
      Out o;
      std::string bad;
      collide(q, x, d, E, Seed31(r), o, e1, e2, bad);
      k.Nontrivial(HashD(HashD(HashD(4, E), o.E), awr));
      k.Eval();
      const double lo = std::pow((awr - 1) / (awr + 1), 2) * E;
      if (bad.empty() && !(o.E >= lo * (1 - 1e-9) - 1e-9 * E && o.E <= E * (1 + 1e-9)))
        bad = fmt("outgoing energy %.17g is not in [%.17g, %.17g]", o.E, lo, E);
      const double s = std::sqrt(o.E / E);
      const double mu = ((awr + 1) * s - (awr - 1) / s) / 2;
      const double tol = 1e-9 * (awr + 1) * (1 + 1 / s);
      if (bad.empty() && !(std::abs(o.mu - mu) < tol + 1e-12 / s / s))
        bad = fmt("outgoing energy %.17g with cosine %.17g instead of %.17g",
                  o.E, o.mu, mu);
      if (!bad.empty())
        return k.Fail("cold", fmt("awr %.17g at 0 K, E = %.17g: ", awr, E) + bad);
    }
    ctx.Count("cold collisions", 2000);
    std::filesystem::path dir;
    ScratchDir(k, dir);
    std::filesystem::remove_all(dir);
  });
  // extremes: still finite, positive, and the energy change is bounded
  ctx.Cases("extremes", ctx.N(200, 4000), [&](Case& k) {
    Rng& r = k.rng;
    const double awr = awrs(r);
    Field f;
    f.kind = Field::Constant;
    f.c = B(r, 0.3) ? LogU(r, 1e-6, 1) : LogU(r, 1, 1e5);
    const Problem q = Make(k, awr, f);
    for (int i = 0; i < 2000; i++) {
      const double E = B(r) ? LogU(r, 1e-13, 1e-9) : LogU(r, 1e-9, 100);
      const V3 w = RandDirSpecial(r);
      const V3 d = ToV3(Direction{w.x, w.y, w.z});
      const V3 e1 = Unit(Cross(d, RandDir(r))), e2 = Cross(d, e1);
      Out o;
      std::string bad;
      collide(q, V3{}, d, E, Seed31(r), o, e1, e2, bad);
      k.Nontrivial(HashD(HashD(HashD(5, E), o.E), awr));
      k.Eval();
      // a target of at most 60 thermal standard deviations
      const double vn = std::sqrt(E), vt = 60 * std::sqrt(kBoltzmann * f.c / awr);
      const double most = std::pow((vn + awr * vt + awr * (vn + vt)) / (1 + awr), 2);
      if (bad.empty() && o.E > most * (1 + 1e-9))
        bad = fmt("outgoing energy %.17g exceeds %.17g", o.E, most);
      if (!bad.empty())
        return k.Fail("extreme", fmt("awr %.17g at %.17g K, E = %.17g: ", awr,
                                     f.c, E) + bad);
    }
    ctx.Count("extreme collisions", 2000);
    std::filesystem::path dir;
    ScratchDir(k, dir);
    std::filesystem::remove_all(dir);
  });
}
} // namespace mon
