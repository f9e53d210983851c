// C02: points, materials and temperatures resolve as declared.
#include "drive.hpp"

#include "Driver.hpp"
#include "ScalarField.hpp"

#include <algorithm>

namespace mon {
const char* const kRule =
    "one evaluation is one point looked up (or one cell's declaration "
    "compared); distinct non-trivial ones are points, identified by the set of "
    "cells that contain them within their world";

static void Shuffle(Config& c, Rng& r) {
  // extra declarations which nothing uses, and another order of declaration
  const int ns = c.surfaces.size();
  std::vector<int> perm(ns + 2);
  for (size_t i = 0; i < perm.size(); i++) perm[i] = i;
  for (int i = 0; i < 2; i++) {
    Surf s;
    s.kind = Surf::Kind(I(r, 0, 2));
    s.name = fmt("unused%d", i);
    s.c = {U(r, -1, 1), 0, 0};
    s.r = U(r, 0.1, 2);
    c.surfaces.push_back(s);
  }
  std::shuffle(perm.begin(), perm.end(), r);
  std::vector<Surf> s(perm.size());
  for (size_t i = 0; i < perm.size(); i++) s[perm[i]] = c.surfaces[i];
  c.surfaces = s;
  for (auto& k : c.cells)
    for (auto& [i, se] : k.surfaces) i = perm[i];
  for (auto& e : c.estimators) e.surface = perm[e.surface];
  // material order, one unused material in front
  const int nm = c.materials.size();
  std::vector<int> pm(nm);
  for (int i = 0; i < nm; i++) pm[i] = i;
  std::shuffle(pm.begin(), pm.end(), r);
  std::vector<MaterialCfg> m(nm);
  for (int i = 0; i < nm; i++) m[pm[i]] = c.materials[i];
  MaterialCfg u = m[0];
  u.name = "unused";
  u.aden = 77;
  c.materials = m;
  c.materials.insert(c.materials.begin(), u);
  for (auto& k : c.cells)
    if (!k.is_void) k.material = pm[k.material] + 1;
  // names of which one is a prefix of another
  for (size_t i = 0; i < c.materials.size(); i++)
    if (B(r, 0.3)) c.materials[i].name = std::string(i + 1, 'm');
  for (size_t i = 0; i < c.nuclides.size(); i++)
    if (B(r, 0.3)) c.nuclides[i].name = std::string(i + 1, 'n');
  for (size_t i = 0; i < c.surfaces.size(); i++)
    if (B(r, 0.3)) c.surfaces[i].name = std::string(i + 1, 's');
}

static void Declarations(Case& k, const Config& c, const World& w) {
  if (w.cells.size() != c.cells.size())
    return k.Fail("cells", fmt("%zu cells declared, %zu in the world",
                               c.cells.size(), w.cells.size()));
  for (size_t i = 0; i < c.cells.size(); i++) {
    k.Eval();
    k.ctx.Count("cells");
    const auto& d = c.cells[i];
    const Cell& g = w.cells[i];
    if (g.name != d.name) k.Fail("cells", "cell name " + g.name);
    if (d.is_void != !g.material)
      return k.Fail("cells", fmt("cell %zu is %s", i, d.is_void
                                     ? "declared void but has a material"
                                     : "declared with a material but void"));
    if (g.surface_senses.size() != d.surfaces.size())
      k.Fail("surfaces", fmt("cell %zu has %zu surfaces instead of %zu", i,
                             g.surface_senses.size(), d.surfaces.size()));
    for (auto& [s, in] : g.surface_senses) {
      bool found = false;
      for (auto& [j, se] : d.surfaces)
        found |= c.surfaces[j].name == s->name && (se < 0) == in;
      if (!found) k.Fail("surfaces", "undeclared side of surface " + s->name);
    }
    if (d.is_void) continue;
    const auto& m = c.materials[d.material];
    if (g.material->name != m.name)
      k.Fail("material", "cell of material " + m.name + " has " +
                             g.material->name);
    if (!(std::abs(g.material->number_density - m.aden) <= 1e-14 * m.aden))
      k.Fail("density", fmt("number density %.17g declared, %.17g used",
                            m.aden, g.material->number_density));
    double sum = 0, got = 0;
    for (auto& [n, f] : m.nuclides) sum += f;
    if (g.material->afracs.size() != m.nuclides.size())
      k.Fail("afrac", "number of nuclides");
    for (auto& [n, f] : m.nuclides) {
      const double want = f / sum;
      double have = -1;
      for (auto& [p, v] : g.material->afracs)
        if (p->name == c.nuclides[n].name) have = v;
      if (!(std::abs(have - want) <= 1e-12 * want))
        k.Fail("afrac", fmt("atom fraction of %s is %.17g instead of %.17g",
                            c.nuclides[n].name.c_str(), have, want));
      got += have;
    }
    if (!(std::abs(got - 1) < 1e-12)) k.Fail("afrac", "fractions do not sum to one");
  }
  // one object per declared thing: shared where the same name is used
  for (auto& a : w.cells)
    for (auto& b : w.cells)
      if (a.material && b.material && a.material->name == b.material->name &&
          a.material != b.material)
        k.Fail("material", "two objects for material " + a.material->name);
}

static void Points(Case& k, const Config& c, const World& w, double scale) {
  Rng& r = k.rng;
  for (int j = 0; j < 250 && !k.failed; j++) {
    const Surf& s = Pick(r, c.surfaces);
    const V3 ctr = s.kind == Surf::CylinderX ? V3{} : s.c;
    V3 p = ctr + (scale * LogU(r, 0.01, 30)) * RandDir(r);
    if (B(r, 0.3)) { // near a surface
      const double e = (B(r) ? 1 : -1) * LogU(r, 1e-9, 1e-2);
      if (s.kind == Surf::PlaneX) p.x = s.c.x + e * scale;
      else if (s.kind == Surf::Sphere) p = s.c + (s.r * (1 + e)) * RandDir(r);
      else {
        const V3 d = Unit(V3{0, U(r, -1, 1), U(r, 0.1, 1)});
        p = V3{U(r, -3, 3) * scale, 0, 0} + (s.r * (1 + e)) * d;
      }
    }
    k.Eval();
    std::set<int> in;
    bool decided = true;
    uint64_t h = HashConfig(c);
    for (size_t i = 0; i < c.cells.size(); i++) {
      const double tol = 1e-13 * (Norm(p) * Norm(p) / scale + scale);
      if (RefMargin(c, c.cells[i], p) < tol) decided = false;
      if (RefCellContains(c, c.cells[i], p)) in.insert(i), h = Mix(h, i + 1);
    }
    if (!decided) {
      k.ctx.Count("points undecidable by roundoff");
      continue;
    }
    const auto where = fmt("point (%.17g, %.17g, %.17g): ", p.x, p.y, p.z);
    for (size_t i = 0; i < c.cells.size(); i++)
      if (w.cells[i].Contains(ToPt(p)) != (in.count(i) == 1))
        return k.Fail("contains",
                      where + fmt("cell %zu reported %s containing it", i,
                                  in.count(i) ? "as not" : "as"));
    int found = -1;
    try {
      const Cell& g = w.FindCellContaining(ToPt(p));
      for (size_t i = 0; i < w.cells.size(); i++)
        if (&w.cells[i] == &g) found = i;
      if (found < 0) return k.Fail("lookup", where + "not a cell of the world");
    }
    catch (const std::exception& e) {
      found = -2;
    }
    if (in.empty() ? found != -2 : !in.count(found))
      return k.Fail("lookup", where + fmt("looked up cell %d; %zu cells "
                                          "contain it", found, in.size()));
    k.ctx.Count(in.empty() ? "points in no cell"
                : in.size() > 1 ? "points in several cells"
                                : "points in one cell");
    if (in.empty()) continue;
    k.Nontrivial(h);
    // nearest boundary
    const Cell& g = w.cells[found];
    const V3 d0 = RandDirSpecial(r);
    const Direction d{d0.x, d0.y, d0.z};
    const auto [surf, dist] = g.NearestSurface(ToPt(p), d);
    double best = std::numeric_limits<double>::infinity();
    bool own = false;
    for (auto& [f, sense] : g.surface_senses) {
      best = std::min(best, f->Distance(ToPt(p), d));
      own |= f == surf;
    }
    if (!own) return k.Fail("nearest", where + "nearest surface is not the cell's");
    if (dist != best || surf->Distance(ToPt(p), d) != best)
      return k.Fail("nearest",
                    where + fmt("nearest boundary reported at %.17g (%s), but "
                                "the nearest is at %.17g", dist,
                                surf->name.c_str(), best));
    // independent distance
    quad ref = -1;
    bool amb = false;
    for (auto& [i, se] : c.cells[found].surfaces) {
      const auto x = RefCross(c.surfaces[i], p, ToV3(d));
      amb |= x.ambiguous;
      if (x.t > 0 && (ref < 0 || x.t < ref)) ref = x.t;
    }
    if (!amb && (std::isinf(dist) ? ref > 0 && ref < 1e9 * scale
                                  : ref < 0 && dist < 1e9 * scale))
      return k.Fail("nearest", where + fmt("nearest boundary at %.17g, "
                                           "reference %.17g", dist, (double)ref));
    if (!amb && ref > 0 && std::isfinite(dist) && ref < 1e6 * scale &&
        std::abs((double)ref - dist) >
            1e-6 * (std::abs(dist) + Norm(p) + scale))
      return k.Fail("nearest", where + fmt("nearest boundary at %.17g, "
                                           "reference %.17g", dist, (double)ref));
    k.ctx.Count("nearest boundaries");
    // temperature
    const auto& cc = c.cells[found];
    const double T = cc.temperature ? *cc.temperature : c.temperature.At(p);
    const double got = g.temperature->at(ToPt(p));
    const double tol = 1e-12 * (std::abs(c.temperature.g.x * p.x) +
                                std::abs(c.temperature.g.y * p.y) +
                                std::abs(c.temperature.g.z * p.z) +
                                std::abs(c.temperature.b) + std::abs(T));
    if (!(std::abs(got - T) <= tol))
      return k.Fail("temperature", where + fmt("%.17g K instead of %.17g K",
                                               got, T));
    k.ctx.Count(cc.temperature ? "temperatures of cells"
                : c.temperature.kind == Field::Linear ? "temperatures of a field"
                : c.temperature.kind == Field::Constant ? "constant temperatures"
                                                        : "default temperatures");
    if (k.ctx.samples.size() < 3 && j == 3)
      k.ctx.Sample("{\"world\": " + Describe(c) +
                   fmt(", \"point\": [%.6g, %.6g, %.6g], \"cell\": %d, "
                       "\"T\": %.6g, \"nearest\": \"%.6g\"}",
                       p.x, p.y, p.z, found, got, dist));
  }
}

void Run(Ctx& ctx) {
  ctx.Cases("world", ctx.N(1200, 30000), [&](Case& k) {
    Rng& r = k.rng;
    GenOpt o;
    o.max_surfaces = 6;
    o.scale = B(r, 0.5) ? 1 : LogU(r, 1e-2, 1e4);
    o.photon = B(r, 0.2);
    Config c = GenMG(r, o);
    // cells with their own temperature, fields, gaps and overlaps
    const int t = I(r, 0, 3);
    c.temperature = {};
    c.tracking = "";
    if (t == 1) {
      c.temperature.kind = Field::Constant;
      c.temperature.c = B(r, 0.15) ? 0 : B(r, 0.2) ? LogU(r, 1e-12, 1e8) : U(r, 1, 3000);
    }
    else if (t >= 2) {
      auto& f = c.temperature;
      f.kind = Field::Linear;
      f.g = {U(r, -3, 3), U(r, -3, 3), U(r, -3, 3)};
      if (B(r, 0.3)) (&f.g.x)[I(r, 0, 2)] = 0;
      f.b = U(r, -100, 3000);
      f.lo = f.b - 1000;
      f.hi = f.b + 1000;
      c.tracking = "cell delta";
    }
    for (auto& x : c.cells)
      if (!x.is_void && B(r, 0.4))
        x.temperature = B(r, 0.15)  ? 0
                        : B(r, 0.2) ? LogU(r, 1e-12, 1e8)
                        : B(r, 0.2) ? 293.6
                                    : U(r, 1, 3000);
    if (B(r, 0.25) && c.cells.size() > 2) { // a gap
      const int i = I(r, 0, (int)c.cells.size() - 1);
      int solid = 0;
      for (auto& x : c.cells) solid += !x.is_void;
      if (c.cells[i].is_void || solid > 1) c.cells.erase(c.cells.begin() + i);
    }
    if (B(r, 0.25)) { // an overlap: a cell loses one of its surfaces
      auto& x = c.cells[I(r, 0, (int)c.cells.size() - 1)];
      if (x.surfaces.size() > 1) x.surfaces.pop_back();
    }
    // estimators may name only surfaces of cells
    std::set<int> used;
    for (auto& x : c.cells)
      for (auto& [i, s] : x.surfaces) used.insert(i);
    for (auto& e : c.estimators) e.surface = *used.begin();
    Shuffle(c, r);
    std::filesystem::path dir;
    ScratchDir(k, dir);
    XMLDocument doc{WriteProblem(c, dir)};
    const World w{doc.root};
    Declarations(k, c, w);
    if (!k.failed) Points(k, c, w, o.scale);
    std::filesystem::remove_all(dir);
  });
  // a run whose particles enter a gap between the cells reports the error
  ctx.Cases("gap", ctx.N(120, 3000), [&](Case& k) {
    Rng& r = k.rng;
    GenOpt o;
    o.max_surfaces = 4;
    Config c = GenMG(r, o);
    c.histories = I(r, 5, 60);
    c.threads = I(r, 1, 4);
    const int src = RefFindCell(c, c.src);
    const int gap = I(r, 0, (int)c.cells.size() - 1);
    if (gap == src) return;
    c.cells.erase(c.cells.begin() + gap);
    std::set<int> used;
    for (auto& x : c.cells)
      for (auto& [i, s] : x.surfaces) used.insert(i);
    for (auto& e : c.estimators) e.surface = *used.begin();
    std::filesystem::path dir;
    ScratchDir(k, dir);
    const auto path = WriteProblem(c, dir);
    std::string out;
    const int rc = Forked([&] {
      try {
        auto d = Driver::Create(path);
        d->Solve();
        return 10;
      }
      catch (const std::exception& e) {
        return *e.what() ? 11 : 12;
      }
    }, &out, 30);
    k.Eval();
    k.Nontrivial(HashConfig(c));
    ctx.Count(rc == 11 ? "runs into a gap that were reported" : "runs that did not meet the gap");
    if (rc != 10 && rc != 11)
      k.Fail("gap", fmt("a run whose particles may enter a gap between the cells ended with %d "
                        "instead of an error\n", rc) + out.substr(0, 800) + Describe(c));
    std::filesystem::remove_all(dir);
  });
}
} // namespace mon
