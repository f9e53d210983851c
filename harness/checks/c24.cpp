// C24: sensitivity scores are the accumulated indirect effect of each crossing
// particle.
#include "refxs.hpp"
#include "tally.hpp"

#include <algorithm>

namespace mon {
const char* const kRule =
    "one evaluation is one flight's change of an indirect effect, or one "
    "reported sensitivity bin, compared with the reference; distinct "
    "non-trivial ones are flights in material with the perturbed nuclide "
    "(identified by nuclide and flight) and sensitivity bins with a score";

namespace {
// microscopic cross section that governs the sampling of a flight
double Governing(const Config& c, const World& w, bool delta, int cell, V3 pos, V3 dir,
                 double energy, bool group, int type, bool* near) {
  const auto& k = c.cells[cell];
  const double T = RefTemperature(c, k, pos);
  if (delta && !group) {
    // the majorant itself is another property's
    Particle p{ToPt(pos), Direction{ToPt(dir)}, Energy{ContinuousEnergy{energy}},
               type ? Particle::Type::photon : Particle::Type::neutron, 1};
    p.SetCell(w.cells[cell]);
    return w.cells[cell].material->GetMicroscopicMajorant(p);
  }
  return RefMaterial(c, c.materials[k.material], type, energy, T, near);
}

void Check(Case& k, const Config& c) {
  Ctx& ctx = k.ctx;
  auto res = RunProblem(c, k);
  const World& w = res.loaded->W();
  const bool delta = c.tracking == "cell delta";
  const double N = c.histories;
  // ---- every flight
  bool undecided = false;
  for (auto& h : res.hist) {
    for (auto& t : h.tracks) {
      std::vector<double> acc(c.perturbations.size(), 0), mag = acc;
      V3 pos = t.birth.pos, dir = t.birth.dir;
      double energy = t.birth.energy;
      int cell = t.birth.cell >= 0 ? t.birth.cell : RefFindCell(c, pos);
      for (auto& s : t.steps) {
        if (cell < 0 || c.cells[cell].is_void)
          return k.Fail("flight", "a flight begins in a void cell or in none");
        const double d = Norm(s.pos - pos);
        bool near = false;
        const double sig =
            Governing(c, w, delta, cell, pos, dir, energy, t.birth.group, t.birth.type, &near);
        const auto& m = c.materials[c.cells[cell].material];
        for (size_t p = 0; p < c.perturbations.size(); p++) {
          const bool has = RefFraction(m, c.perturbations[p].second) > 0;
          const double add = has ? 1 / sig - d : 0;
          k.Eval();
          if (s.indirect.size() != acc.size())
            return k.Fail("effects", fmt("%zu indirect effects carried for %zu perturbations",
                                         s.indirect.size(), acc.size()));
          const double got = s.indirect[p] - acc[p];
          mag[p] += has ? std::abs(1 / sig) + d : 0;
          const double tol = 1e-9 * mag[p] +
                             1e-13 * (Norm(pos) + Norm(s.pos)) + 1e-15;
          if (!(std::abs(got - add) <= tol)) {
            if (near) {
              undecided = true;
              ctx.Count("flights at a rounded limit of validity");
            }
            else
              return k.Fail(
                  "flight", fmt("history %zu, %s of nuclide %s: a flight of length %.12g in cell "
                                "%d (material %s the nuclide, governing cross section %.12g) ending in %s "
                                "changed the indirect effect by %.12g, expected %.12g\n",
                                h.id, c.perturbations[p].first.c_str(),
                                c.nuclides[c.perturbations[p].second].name.c_str(), d, cell,
                                has ? "with" : "without", sig, EventName(s.event), got, add) +
                                Describe(c));
          }
          acc[p] = s.indirect[p];
          if (has) {
            ctx.Count("flights in material with the nuclide");
            k.Nontrivial(HashD(HashD(p, d), sig));
          }
          else ctx.Count("flights in material without the nuclide");
        }
        pos = s.pos;
        dir = s.dir;
        energy = s.energy;
        cell = s.cell;
      }
      ctx.Count("particles");
      if (t.birth.event == eFission || &t != &h.tracks.front()) ctx.Count("secondaries");
    }
  }
  if (undecided) return;
  // ---- what is reported
  std::string why;
  const auto out = ParseOutput(res.est->to_string(), &why);
  if (!out) return k.Fail("format", "cannot read the reported scores: " + why);
  for (auto& e : c.estimators) {
    auto it = std::find_if(out->begin(), out->end(),
                           [&](auto& b) { return !b.is_sensitivity && b.name == e.name; });
    if (it == out->end()) return k.Fail("estimators", e.name + " is not reported");
    for (auto& pn : e.sensitivities) {
      ++it;
      if (it == out->end() || it->name != e.name + "::" + pn)
        return k.Fail("sensitivities", "the sensitivity to " + pn + " is not reported after " + e.name +
                                           (it == out->end() ? "" : ", but " + it->name));
      size_t p = 0;
      while (c.perturbations[p].first != pn) p++;
      double mag = 0;
      const auto ref = RefTally(e, res.hist, [&](const Track& t, size_t i) {
        mag += std::abs(t.steps[i].indirect[p]);
        return t.steps[i].indirect[p];
      });
      const auto m = CompareScores(*it, ref, N, 2e-6, 1e-12 * mag / N + 1e-300);
      k.Eval(ref.sum.size());
      if (!m.empty()) return k.Fail("score", m + "\n" + Describe(c));
      for (size_t j = 0; j < ref.sum.size(); j++)
        if (ref.sum2[j]) {
          ctx.Count("sensitivity bins with scores");
          k.Nontrivial(HashD(HashD(j + 1, ref.sum[j]), ref.sum2[j]));
        }
      ctx.Count("sensitivities");
      ctx.Count("crossings scored", ref.crossings);
      if (ctx.samples.size() < 4 && ref.crossings > 10) {
        std::string s;
        for (double x : ref.sum) s += fmt("%s%g", s.empty() ? "" : ", ", x);
        ctx.Sample(fmt("{\"sensitivity\":\"%s\",\"crossings\":%llu,\"histories\":%d,\"sums\":[%s]}",
                       JsonEscape(it->name).c_str(), (unsigned long long)ref.crossings, c.histories, s.c_str()));
      }
    }
    const auto nx = std::next(it);
    if (nx != out->end() && nx->is_sensitivity)
      return k.Fail("sensitivities", nx->name + " is reported after " + e.name + " but not asked for");
  }
}
} // namespace

void Run(Ctx& ctx) {
  auto body = [&](int kind) {
    return [&ctx, kind](Case& k) {
      Rng& r = k.rng;
      GenOpt o;
      o.sensitivities = true;
      o.photon = B(r, 0.25);
      o.max_surfaces = 5;
      o.density = kind ? LogU(r, 0.5, 2) : LogU(r, 0.2, 3);
      o.tsl = kind == 2;
      if (o.tsl) o.max_surfaces = 3;
      Config c = kind ? GenCE(r, o) : GenMG(r, o);
      // perturbations of one nuclide under several names, in any order, and
      // asked for in any order
      if (B(r, 0.3)) c.perturbations.push_back({"same", c.perturbations[0].second});
      std::shuffle(c.perturbations.begin(), c.perturbations.end(), r);
      for (auto& e : c.estimators) {
        e.sensitivities.clear();
        for (auto& [n, i] : c.perturbations)
          if (B(r, 0.75)) e.sensitivities.push_back(n);
        std::shuffle(e.sensitivities.begin(), e.sensitivities.end(), r);
      }
      c.histories = I(r, 1, kind ? 60 : 150);
      c.threads = B(r, 0.5) ? 1 : I(r, 1, 8);
      if (kind && B(r, 0.2)) {
        // a spatially varying temperature that stays positive
        c.tracking = "cell delta";
        auto& f = c.temperature;
        f.kind = Field::Linear;
        f.g = LogU(r, 1e-6, 1e-3) * RandDir(r);
        f.b = 400;
        f.lo = 300;
        f.hi = 600;
      }
      Check(k, c);
      std::filesystem::path dir;
      ScratchDir(k, dir);
      std::filesystem::remove_all(dir);
    };
  };
  ctx.Cases("multigroup", ctx.N(1200, 30000), body(0));
  ctx.Cases("continuous", ctx.N(300, 8000), body(1));
  ctx.Cases("thermal", ctx.N(80, 2000), body(2));
}
} // namespace mon
