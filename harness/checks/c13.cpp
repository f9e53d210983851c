// C13: source particles follow the declared source distributions.
#include "drive.hpp"

#include <algorithm>

namespace mon {
const char* const kRule =
    "one evaluation is one source particle; distinct non-trivial ones are "
    "particles with a sampled direction, identified by source and direction";

static double Clamp(double lo, double hi, double x) {
  return std::min(1., std::max(0., (x - lo) / (hi - lo)));
}

void Run(Ctx& ctx) {
  ctx.Cases("sources", ctx.N(1500, 30000), [&](Case& k) {
    Rng& r = k.rng;
    GenOpt o;
    o.max_surfaces = 1;
    o.photon = B(r);
    o.max_groups = 9;
    o.estimators = false;
    o.fission = false;
    Config c = B(r) ? GenMG(r, o) : GenCE(r, o);
    c.dir_kind = Pick<std::string>(r, {"constant", "isotropic",
                                       "isotropic-flux", "isotropic-flux"});
    c.dir = LogU(r, 1e-5, 1e5) * RandDirSpecial(r);
    if (B(r, 0.2)) {
      // components on either side of the tolerance for being on an axis
      c.dir = RandDir(r);
      const int a = I(r, 0, 2);
      const double t = (B(r) ? 1 : -1) * LogU(r, 1e-12, 1e-3);
      (a == 0 ? c.dir.x : a == 1 ? c.dir.y : c.dir.z) = t;
      if (B(r)) (a == 0 ? c.dir.y : a == 1 ? c.dir.z : c.dir.x) *= t;
    }
    if (!c.groups) c.energy = G17(LogU(r, 1e-11, 20));
    // wherever it is declared; it need not be inside a cell here
    c.src = LogU(r, 1e-3, 1e6) * RandDir(r);
    std::filesystem::path dir;
    ScratchDir(k, dir);
    auto doc = std::make_unique<XMLDocument>(WriteProblem(c, dir));
    const auto node = doc->root.child("problemtype").child("fixedsource");
    const Source source{node};
    const Source other{node};
    std::string bad;
    const V3 ref = Unit(c.dir);
    // an arbitrary frame about the reference
    const V3 e1 = Unit(Cross(ref, RandDir(r))), e2 = Cross(ref, e1);
    const uint64_t hc = HashConfig(c);
    const double energy = atof(c.energy.c_str());
    auto sample = [&](const Source& s, RNG::result_type seed) {
      const auto p = s.Sample(seed);
      k.Eval();
      const V3 x = ToV3(p.GetPosition());
      if (x.x != c.src.x || x.y != c.src.y || x.z != c.src.z)
        bad = fmt("starts at (%.17g, %.17g, %.17g)", x.x, x.y, x.z);
      if (std::holds_alternative<Group>(p.GetEnergy()) != (c.groups > 0) ||
          EnergyValue(p.GetEnergy()) != energy)
        bad = fmt("starts with %s %.17g",
                  std::holds_alternative<Group>(p.GetEnergy()) ? "group"
                                                               : "energy",
                  EnergyValue(p.GetEnergy()));
      if ((p.GetType() == Particle::Type::photon) != (c.particle == "photon"))
        bad = "is of the wrong type";
      if (EventKind(p) != eBirth || !p.IsAlive()) bad = "is not newborn";
      const V3 d = ToV3(p.GetDirection());
      if (!(std::abs(Norm(d) - 1) < 1e-12))
        bad = fmt("has a direction of length %.17g", Norm(d));
      if (c.dir_kind == "constant") {
        if (!(Norm(d - ref) < 1e-14))
          bad = fmt("has direction (%.17g, %.17g, %.17g)", d.x, d.y, d.z);
      }
      else k.Nontrivial(HashD(HashD(HashD(hc, d.x), d.y), d.z));
      if (c.dir_kind == "isotropic-flux" && !(Dot(d, ref) > -1e-12))
        bad = fmt("has cosine %.17g with the reference", Dot(d, ref));
      return p;
    };
    // the sample is a function of the seed
    for (int i = 0; i < 20; i++) {
      const unsigned seed = B(r, 0.3) ? I(r, 1, 1000) : Seed31(r);
      const auto a = sample(source, seed);
      for (int j = I(r, 0, 3); j > 0; j--) sample(source, Seed31(r));
      const auto b = sample(B(r) ? source : other, seed);
      const V3 da = ToV3(a.GetDirection()), db = ToV3(b.GetDirection());
      if (da.x != db.x || da.y != db.y || da.z != db.z ||
          RngPrint(a.rng) != RngPrint(b.rng))
        return k.Fail("seed", fmt("two samples with seed %u differ", seed));
    }
    double worst = 1;
    std::string what;
    std::vector<double> mus;
    auto pvalue = [&](int n, Rng& r) {
      std::vector<double> mu, phi, oct(8), quad(16), zs;
      std::vector<V3> ds;
      std::set<uint64_t> streams;
      std::vector<double> first;
      for (int i = 0; i < n; i++) {
        auto p = sample(source, Seed31(r));
        if (!bad.empty()) return 0.;
        const V3 d = ToV3(p.GetDirection());
        mu.push_back(Dot(d, ref));
        phi.push_back(std::atan2(Dot(d, e2), Dot(d, e1)));
        oct[(d.x > 0) + 2 * (d.y > 0) + 4 * (d.z > 0)]++;
        // mu^2 (or mu) quarter by azimuth quarter: independence
        const double m = c.dir_kind == "isotropic" ? (mu.back() + 1) / 2
                                                   : mu.back() * mu.back();
        quad[std::min(3, std::max(0, (int)(4 * m))) * 4 +
             std::min(3, (int)(4 * (phi.back() / (2 * M_PI) + 0.5)))]++;
        first.push_back(p.Sample());
        streams.insert(RngPrint(p.rng));
      }
      double p = 1;
      int tests = 0;
      auto test = [&](double q, const char* w) {
        tests++;
        if (q < p) p = q, what = w;
      };
      test(KS(first, [](double x) { return Clamp(0, 1, x); }),
           "the particle's own random numbers");
      // (the birthday paradox allows a few equal streams)
      if (streams.size() < first.size() - 3 - first.size() / 100) {
        bad = "shares its random stream with many others";
        return 0.;
      }
      if (c.dir_kind == "isotropic") {
        test(KS(mu, [](double x) { return Clamp(-1, 1, x); }), "cosine");
        test(Chi2(oct, std::vector<double>(8, 0.125)), "octants");
      }
      if (c.dir_kind == "isotropic-flux")
        test(KS(mu, [](double x) {
               return std::min(1., std::max(0., x) * std::max(0., x));
             }), "cosine");
      if (c.dir_kind != "constant") {
        test(KS(phi, [](double x) { return Clamp(-M_PI, M_PI, x); }),
             "azimuth");
        test(Chi2(quad, std::vector<double>(16, 1 / 16.)),
             "independence of cosine and azimuth");
        ctx.Count("directions sampled: " + c.dir_kind, n);
      }
      mus = mu;
      return std::min(1., p * tests);
    };
    const bool rej = Rejected(pvalue, ctx.N(1000, 4000), r, &worst);
    const std::string what_src =
        fmt("%s source with reference (%.17g, %.17g, %.17g): ",
            c.dir_kind.c_str(), c.dir.x, c.dir.y, c.dir.z);
    if (!bad.empty())
      return k.Fail("particle", what_src + "a particle " + bad);
    if (rej)
      return k.Fail("distribution",
                    what_src + what + fmt(" deviates (p = %.3g)", worst));
    ctx.Count("sources");
    // the seeds a run uses are consecutive: no region may be left out
    if (c.dir_kind != "constant") {
      std::vector<double> quad(16);
      const int n = 8000;
      const unsigned s0 = I(r, 1, 1000000);
      for (int i = 0; i < n; i++) {
        const auto p = sample(source, s0 + i);
        const V3 d = ToV3(p.GetDirection());
        const double mu = Dot(d, ref);
        const double m = c.dir_kind == "isotropic" ? (mu + 1) / 2 : mu * mu;
        quad[std::min(3, std::max(0, (int)(4 * m))) * 4 +
             std::min(3, (int)(4 * (std::atan2(Dot(d, e2), Dot(d, e1)) /
                                        (2 * M_PI) + 0.5)))]++;
      }
      if (!bad.empty())
        return k.Fail("particle", what_src + "a particle " + bad);
      for (double q : quad)
        if (std::abs(q / n - 1 / 16.) > 0.02)
          return k.Fail("consecutive",
                        what_src + fmt("one sixteenth of the directions gets "
                                       "%.4f of the histories of a run", q / n));
      ctx.Count("runs of consecutive seeds");
    }
    if (ctx.samples.size() < 3 && c.dir_kind != "constant")
      ctx.Sample(fmt("{\"source\": \"%s\", \"first cosines\": [%.4f, %.4f, "
                     "%.4f], \"p value\": %.3g}", JsonEscape(what_src).c_str(),
                     mus[0], mus[1], mus[2], worst));
    std::filesystem::remove_all(dir);
  });
}
} // namespace mon
