// C14: directions are built and rotated exactly.
#include "drive.hpp"

#include <algorithm>

namespace mon {
const char* const kRule =
    "one evaluation is one constructed direction or scatter; distinct "
    "non-trivial ones are those with a cosine other than +-1, identified by "
    "reference, cosine and azimuth";

static V3 Reference(Rng& r) {
  V3 d = RandDirSpecial(r);
  if (B(r, 0.35)) {
    // nearly along, or nearly perpendicular to, an axis
    d = RandDir(r);
    double* x[3] = {&d.x, &d.y, &d.z};
    std::shuffle(x, x + 3, r);
    const double t = LogU(r, 1e-17, 1e-2);
    *x[0] *= t;
    if (B(r)) *x[1] *= B(r) ? t : LogU(r, 1e-17, 1e-2);
  }
  return d;
}
static double Cosine(Rng& r) {
  switch (I(r, 0, 5)) {
  case 0: return B(r) ? 1 : -1;
  case 1: return 0;
  case 2: return (B(r) ? 1 : -1) * (1 - LogU(r, 1e-16, 1e-2));
  case 3: return (B(r) ? 1 : -1) * LogU(r, 1e-16, 1e-2);
  default: return U(r, -1, 1);
  }
}
static double Azimuth(Rng& r) {
  switch (I(r, 0, 4)) {
  case 0: return 0;
  case 1: return M_PI / 2 * I(r, 0, 3);
  case 2: return 2 * M_PI - LogU(r, 1e-12, 1e-2);
  default: return U(r, 0, 2 * M_PI);
  }
}

void Run(Ctx& ctx) {
  ctx.Cases("frames", ctx.N(400000, 12000000), [&](Case& k) {
    Rng& r = k.rng;
    const V3 w = Reference(r);
    const Direction ref{w.x, w.y, w.z};
    const V3 d = ToV3(ref);
    if (std::abs(Norm(d) - 1) > 1e-14 || Norm(d - Unit(w)) > 1e-14)
      return k.Fail("unit", fmt("direction of (%.17g, %.17g, %.17g) is "
                                "(%.17g, %.17g, %.17g)", w.x, w.y, w.z, d.x,
                                d.y, d.z));
    const double mu = Cosine(r);
    const double s = std::sqrt((1 - mu) * (1 + mu));
    double phi0 = Azimuth(r);
    auto make = [&](double mu, double phi, V3& out) {
      const Direction x{ref, mu, phi};
      out = ToV3(x);
      k.Eval();
      if (std::abs(mu) != 1) k.Nontrivial(HashD(HashD(HashD(HashD(
          HashD(1, d.x), d.y), d.z), mu), phi));
      if (!(std::abs(Norm(out) - 1) < 1e-14)) {
        k.Fail("unit", fmt("about (%.17g, %.17g, %.17g) cosine %.17g azimuth "
                           "%.17g: the length is %.17g", d.x, d.y, d.z, mu,
                           phi, Norm(out)));
        return false;
      }
      // the angle itself, which is finer than its cosine near +-1
      const double sin = Norm(Cross(d, out));
      if (!(std::abs(Dot(d, out) - mu) < 3e-15) ||
          !(std::abs(sin - std::sqrt((1 - mu) * (1 + mu))) < 2e-8 + 1e-14)) {
        k.Fail("cosine", fmt("about (%.17g, %.17g, %.17g) cosine %.17g azimuth "
                             "%.17g: the cosine is %.17g", d.x, d.y, d.z, mu,
                             phi, Dot(d, out)));
        return false;
      }
      return true;
    };
    V3 a, b, c;
    if (!make(mu, phi0, a)) return;
    // rotated about the reference; all azimuths in one sense
    int sense = 0;
    for (int i = 0; i < 3; i++) {
      const double phi = Azimuth(r);
      const double mu2 = B(r) ? mu : Cosine(r);
      const double s2 = std::sqrt((1 - mu2) * (1 + mu2));
      if (!make(mu2, phi, b)) return;
      if (s < 1e-5 || s2 < 1e-5) continue;
      const V3 pa = Unit(a - Dot(a, d) * d), pb = Unit(b - Dot(b, d) * d);
      const double angle = std::atan2(Dot(d, Cross(pa, pb)), Dot(pa, pb));
      const double tol = 1e-14 * (1 / s + 1 / s2) + 1e-13;
      auto off = [&](double want) {
        return std::abs(std::remainder(angle - want, 2 * M_PI));
      };
      const bool plus = off(phi - phi0) < tol, minus = off(phi0 - phi) < tol;
      if (!plus && !minus)
        return k.Fail("azimuth",
                      fmt("about (%.17g, %.17g, %.17g) azimuths %.17g and "
                          "%.17g are %.17g apart", d.x, d.y, d.z, phi0, phi,
                          angle));
      if (plus != minus) {
        const int now = plus ? 1 : -1;
        if (sense && now != sense)
          return k.Fail("azimuth", fmt("about (%.17g, %.17g, %.17g) azimuths "
                                       "turn in both senses", d.x, d.y, d.z));
        sense = now;
      }
      ctx.Count("pairs of azimuths compared");
    }
    ctx.Count("reference directions");
    if (ctx.samples.size() < 3)
      ctx.Sample(fmt("{\"reference\": [%.17g, %.17g, %.17g], \"cosine\": "
                     "%.17g, \"azimuth\": %.17g, \"result\": [%.17g, %.17g, "
                     "%.17g]}", d.x, d.y, d.z, mu, phi0, a.x, a.y, a.z));
  });
  // chains of scatters of one particle
  ctx.Cases("chains", ctx.N(600, 12000), [&](Case& k) {
    Rng& r = k.rng;
    const V3 w = Reference(r);
    const bool group = B(r, 0.3);
    Particle p{Point{U(r), U(r), U(r)}, Direction{w.x, w.y, w.z},
               group ? Energy{Group{1}} : Energy{1.}, Particle::Type::neutron,
               Seed31(r)};
    const V3 at = ToV3(p.GetPosition());
    const int n = ctx.N(2000, 20000);
    for (int i = 0; i < n; i++) {
      const V3 before = ToV3(p.GetDirection());
      const double mu = Cosine(r);
      const Energy e = group ? Energy{(Group)I(r, 1, 20)}
                             : Energy{LogU(r, 1e-12, 20)};
      p.Scatter(mu, e);
      k.Eval();
      const V3 d = ToV3(p.GetDirection()), x = ToV3(p.GetPosition());
      if (std::abs(mu) != 1) k.Nontrivial(HashD(HashD(HashD(2, d.x), d.y), mu));
      if (!(std::abs(Norm(d) - 1) < 1e-14))
        return k.Fail("unit", fmt("after %d scatters the length is %.17g",
                                  i + 1, Norm(d)));
      if (!(std::abs(Dot(d, before) - mu) < 3e-15))
        return k.Fail("scatter", fmt("a scatter with cosine %.17g from (%.17g, "
                                     "%.17g, %.17g) has cosine %.17g", mu,
                                     before.x, before.y, before.z,
                                     Dot(d, before)));
      if (p.GetEnergy() != e)
        return k.Fail("scatter", "a scatter does not set the energy given");
      if (x.x != at.x || x.y != at.y || x.z != at.z)
        return k.Fail("scatter", "a scatter moves the particle");
    }
    ctx.Count("scatters in chains", n);
  });
  // the azimuth of scatters is uniform
  ctx.Cases("azimuths", ctx.N(300, 6000), [&](Case& k) {
    Rng& r = k.rng;
    const V3 w = Reference(r);
    const Direction ref{w.x, w.y, w.z};
    const V3 d = ToV3(ref);
    const double mu = U(r, -0.99, 0.99);
    const V3 e1 = Unit(Cross(d, RandDir(r))), e2 = Cross(d, e1);
    double worst = 1;
    auto pvalue = [&](int n, Rng& r) {
      std::vector<double> phi;
      for (int i = 0; i < n; i++) {
        Particle p{Point{0, 0, 0}, ref, Energy{1.}, Particle::Type::neutron,
                   Seed31(r)};
        p.Scatter(mu, Energy{1.});
        const V3 x = ToV3(p.GetDirection());
        phi.push_back(std::atan2(Dot(x, e2), Dot(x, e1)));
        k.Eval();
      }
      std::vector<double> o(16);
      for (double x : phi)
        o[std::min(15, (int)(16 * (x / (2 * M_PI) + 0.5)))]++;
      const double a = KS(phi, [](double x) {
        return std::min(1., std::max(0., x / (2 * M_PI) + 0.5));
      });
      return std::min(1., 2 * std::min(a, Chi2(o, std::vector<double>(16, 1 / 16.))));
    };
    if (Rejected(pvalue, ctx.N(5000, 20000), r, &worst))
      return k.Fail("uniform", fmt("azimuths of scatters from (%.17g, %.17g, "
                                   "%.17g) are not uniform (p = %.3g)", d.x,
                                   d.y, d.z, worst));
    ctx.Count("distributions of azimuths tested");
  });
}
} // namespace mon
