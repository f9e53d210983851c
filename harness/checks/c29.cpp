// C29: equivalent declarations of one physical problem are played alike.
#include "drive.hpp"
#include "tally.hpp"

#include <algorithm>
#include <functional>
#include <set>

namespace mon {
const char* const kRule =
    "one evaluation is one history compared, event by event, with the same "
    "history of the same physical problem declared in other units, from another "
    "origin or with equivalent materials; distinct non-trivial ones are "
    "histories with at least two events, identified by their events and by the "
    "other declaration";

namespace {

/// How numbers of the other run relate to those of the first
struct Map {
  double length = 1, energy = 1;
  V3 shift;
  std::vector<int> surfaces; // unused if empty
};

bool Near(V3 a, V3 b, double tol) {
  return std::fabs(a.x - b.x) <= tol && std::fabs(a.y - b.y) <= tol &&
         std::fabs(a.z - b.z) <= tol;
}
double Size(V3 a) {
  return std::max({std::fabs(a.x), std::fabs(a.y), std::fabs(a.z)});
}
template <class A>
bool Alike(const A& a, const A& b, const Map& m) {
  const V3 p{a.pos.x * m.length + m.shift.x, a.pos.y * m.length + m.shift.y,
             a.pos.z * m.length + m.shift.z};
  const double tol = 1e-6 * (m.length + Size(p) + Size(m.shift));
  return a.cell == b.cell && Near(p, b.pos, tol) && Near(a.dir, b.dir, 1e-6) &&
         std::fabs(a.energy * m.energy - b.energy) <= 1e-6 * b.energy;
}
std::string Show(V3 p) { return fmt("(%.17g, %.17g, %.17g)", p.x, p.y, p.z); }

/// The first difference, or nothing
std::string Differ(const Hist& a, const Hist& b, const Map& m) {
  if (a.tracks.size() != b.tracks.size())
    return fmt("%zu and %zu particles", a.tracks.size(), b.tracks.size());
  for (size_t i = 0; i < a.tracks.size(); i++) {
    auto &s = a.tracks[i], &t = b.tracks[i];
    if (s.birth.type != t.birth.type || !Alike(s.birth, t.birth, m))
      return fmt("particle %zu is born at ", i) + Show(s.birth.pos) + " and " +
             Show(t.birth.pos) + fmt(" with energies %.17g and %.17g",
                                     s.birth.energy, t.birth.energy);
    for (size_t j = 0; j < std::min(s.steps.size(), t.steps.size()); j++) {
      auto &e = s.steps[j], &f = t.steps[j];
      if (e.event != f.event || e.surf != f.surf || !Alike(e, f, m))
        return fmt("particle %zu event %zu: %s at ", i, j, EventName(e.event)) +
               Show(e.pos) + fmt(" energy %.17g, and %s at ", e.energy, EventName(f.event)) +
               Show(f.pos) + fmt(" energy %.17g", f.energy);
    }
    if (s.steps.size() != t.steps.size())
      return fmt("particle %zu has %zu and %zu events", i, s.steps.size(), t.steps.size());
    if (s.secondaries.size() != t.secondaries.size())
      return fmt("particle %zu has %zu and %zu secondaries", i,
                 s.secondaries.size(), t.secondaries.size());
  }
  return "";
}

void ForTables(Config& c, const std::function<void(CEData&)>& f) {
  for (auto& n : c.nuclides) {
    if (n.ce_neutron) f(*n.ce_neutron);
    if (n.ce_photon) f(*n.ce_photon);
  }
}
void ForGroups(Config& c, const std::function<void(MGData&)>& f) {
  for (auto& n : c.nuclides) {
    if (n.mg_neutron) f(*n.mg_neutron);
    if (n.mg_photon) f(*n.mg_photon);
  }
}
void Scale(std::vector<double>& v, double a) {
  for (auto& x : v) x *= a;
}

void Lengths(Config& c, double a) {
  for (auto& s : c.surfaces) {
    s.c = V3{s.c.x * a, s.c.y * a, s.c.z * a};
    s.r *= a;
  }
  c.src = V3{c.src.x * a, c.src.y * a, c.src.z * a};
  for (auto& m : c.materials) m.aden /= a;
  c.temperature.g = V3{c.temperature.g.x / a, c.temperature.g.y / a, c.temperature.g.z / a};
}
void CrossSections(Config& c, double a) {
  ForGroups(c, [&](MGData& d) {
    if (d.capture) Scale(*d.capture, a);
    if (d.fission) Scale(*d.fission, a);
    if (d.scatter)
      for (auto& row : *d.scatter) Scale(row, a);
  });
  ForTables(c, [&](CEData& d) {
    for (auto* t : {&d.total, &d.capture, &d.scatter, &d.fission})
      if (*t) Scale((*t)->y, a);
    if (d.tsl) {
      Scale(d.tsl->majorant.y, a);
      Scale(d.tsl->S, a);
    }
  });
  for (auto& m : c.materials) m.aden /= a;
}
void Energies(Config& c, double a) {
  ForTables(c, [&](CEData& d) {
    for (auto* t : {&d.total, &d.capture, &d.scatter, &d.fission, &d.nubar})
      if (*t) Scale((*t)->x, a);
    for (double* T : {&d.T_total, &d.T_capture, &d.T_scatter, &d.T_fission}) *T *= a;
    if (d.tsl) {
      Scale(d.tsl->majorant.x, a);
      Scale(d.tsl->E, a);
      Scale(d.tsl->T, a);
      for (auto* ps : {&d.tsl->beta, &d.tsl->alpha})
        for (auto& p : *ps) Scale(p.T, a);
      for (auto& p : d.tsl->beta) Scale(p.E, a);
    }
  });
  c.energy = G17(std::stod(c.energy) * a);
  for (auto& x : c.cells)
    if (x.temperature) *x.temperature *= a;
  auto& t = c.temperature;
  t.c *= a, t.b *= a, t.lo *= a, t.hi *= a;
  t.g = V3{t.g.x * a, t.g.y * a, t.g.z * a};
}
/// Moves everything; temperature fields too
void Shift(Config& c, V3 v) {
  auto add = [&](V3 p) { return V3{p.x + v.x, p.y + v.y, p.z + v.z}; };
  for (auto& s : c.surfaces) s.c = add(s.c);
  c.src = add(c.src);
  auto& t = c.temperature;
  t.b -= t.g.x * v.x + t.g.y * v.y + t.g.z * v.z;
}
/// A copy of a nuclide, sharing its fraction. Nuclides are sampled in the order
/// of their names: the copy's follows the original's.
bool Split(Config& c, Rng& r) {
  const int i = I(r, 0, static_cast<int>(c.nuclides.size()) - 1);
  NuclideCfg n = c.nuclides[i];
  n.name += " ";
  for (auto& o : c.nuclides)
    if (o.name == n.name) return false;
  c.nuclides.push_back(n);
  bool used = false;
  for (auto& m : c.materials)
    for (size_t k = 0, N = m.nuclides.size(); k < N; k++)
      if (m.nuclides[k].first == i) {
        m.nuclides[k].second /= 2;
        const double f = m.nuclides[k].second;
        m.nuclides.insert(m.nuclides.begin() + I(r, 0, static_cast<int>(N)),
                          {static_cast<int>(c.nuclides.size()) - 1, f});
        used = true;
        break;
      }
  return used;
}
/// A nuclide without any cross section, in a material of twice the density
bool Nothing(Config& c, Rng& r) {
  NuclideCfg n = Pick(r, c.nuclides);
  n.name = Pick(r, std::vector<std::string>{"0 none", "~none", "none"});
  for (auto& o : c.nuclides)
    if (o.name == n.name) return false;
  for (auto* d : {&n.mg_neutron, &n.mg_photon})
    if (*d) {
      MGData e;
      e.capture = std::vector<double>(c.groups, 0.);
      if (B(r)) {
        e.scatter = std::vector<std::vector<double>>(
            c.groups, std::vector<double>(c.groups, 0.));
      }
      *d = e;
    }
  for (auto* d : {&n.ce_neutron, &n.ce_photon})
    if (*d) {
      CEData e;
      e.capture = Table1{{1e-12, 1e3}, {0, 0}};
      e.T_capture = (*d)->T_capture;
      e.total = e.capture;
      e.T_total = (*d)->T_total;
      *d = e;
    }
  c.nuclides.push_back(n);
  auto& m = c.materials[I(r, 0, static_cast<int>(c.materials.size()) - 1)];
  double sum = 0;
  std::vector<std::pair<std::string, double>> f;
  for (auto& [i, a] : m.nuclides) f.push_back({c.nuclides[i].name, a});
  std::sort(f.begin(), f.end());
  for (auto& x : f) sum += x.second;
  m.nuclides.push_back({static_cast<int>(c.nuclides.size()) - 1, sum});
  m.aden *= 2;
  return true;
}
/// A group that no particle ever has
void Group(Config& c, Rng& r) {
  const int G = c.groups++;
  ForGroups(c, [&](MGData& d) {
    auto matrix = [&](std::vector<std::vector<double>>& m, bool chi) {
      for (auto& row : m) row.push_back(chi ? row[0] : U(r)); // from the new one
      m.push_back(std::vector<double>(G, 0.));               // into it
      m.back().push_back(chi ? 0. : U(r));
    };
    if (d.capture) d.capture->push_back(U(r));
    if (d.scatter) matrix(*d.scatter, false);
    if (d.fission) {
      d.fission->push_back(U(r));
      d.nubar->push_back(U(r, 0, 3));
      matrix(*d.chi, true);
    }
  });
}

struct Variant {
  const char* what;
  std::function<bool(Config&, Map&, Rng&)> make;
};

double Pow2(Rng& r, int lim) {
  int k = I(r, -lim, lim);
  if (!k) k = lim;
  return std::ldexp(1., k);
}

const std::vector<Variant>& Variants() {
  static const std::vector<Variant> v{
      {"other unit of length",
       [](Config& c, Map& m, Rng& r) {
         m.length = Pow2(r, 18);
         Lengths(c, m.length);
         return true;
       }},
      {"other unit of cross section",
       [](Config& c, Map&, Rng& r) {
         CrossSections(c, Pow2(r, 60));
         return true;
       }},
      {"other unit of energy",
       [](Config& c, Map& m, Rng& r) {
         if (c.groups) return false;
         const double a = Pow2(r, 8);
         m.energy = a * a;
         Energies(c, m.energy);
         return true;
       }},
      {"other normalisation of atom fractions",
       [](Config& c, Map&, Rng& r) {
         for (auto& x : c.materials) {
           const double a = Pow2(r, 80);
           for (auto& n : x.nuclides) n.second *= a;
         }
         return true;
       }},
      {"other lengths of direction vectors",
       [](Config& c, Map&, Rng& r) {
         auto s = [&](V3& d) {
           const double a = Pow2(r, 100);
           d = V3{d.x * a, d.y * a, d.z * a};
         };
         s(c.dir);
         for (auto& e : c.estimators) s(e.ref);
         return true;
       }},
      {"other origin",
       [](Config& c, Map& m, Rng& r) {
         bool cyl = false;
         for (auto& s : c.surfaces) cyl |= s.kind == Surf::CylinderX;
         m.shift = V3{U(r, -30, 30), cyl ? 0 : U(r, -30, 30), cyl ? 0 : U(r, -30, 30)};
         if (B(r, 0.3)) m.shift = V3{m.shift.x, 0, 0};
         Shift(c, m.shift);
         return true;
       }},
      {"a nuclide declared as two",
       [](Config& c, Map&, Rng& r) { return Split(c, r); }},
      {"a nuclide without cross sections",
       [](Config& c, Map&, Rng& r) { return Nothing(c, r); }},
      {"a group never reached",
       [](Config& c, Map&, Rng& r) {
         if (!c.groups || c.groups > 50) return false;
         for (int i = I(r, 1, 3); i > 0; i--) Group(c, r);
         return true;
       }},
      {"temperature declared for each cell",
       [](Config& c, Map&, Rng&) {
         if (c.temperature.kind == Field::Linear) return false;
         const double T = c.temperature.kind == Field::Constant ? c.temperature.c : 293.6;
         for (auto& x : c.cells)
           if (!x.is_void && !x.temperature) x.temperature = T;
         c.temperature = {};
         return true;
       }},
  };
  return v;
}

void Body(Ctx& ctx, Case& k, const std::string& kind) {
  Rng& r = k.rng;
  GenOpt o;
  o.max_surfaces = 5;
  o.photon = B(r, 0.3);
  o.density = LogU(r, 0.3, 2);
  Config c;
  if (kind != "multigroup") {
    o.tsl = B(r, 0.4);
    o.linear_temperature = !o.tsl && B(r, 0.4);
    if (o.tsl) o.max_surfaces = 2;
    c = GenCE(r, o);
  }
  else c = GenMG(r, o);
  const int cell = RefFindCell(c, c.src);
  std::filesystem::path dir;
  ScratchDir(k, dir);
  c.histories = I(r, 10, ctx.N(80, 200));
  c.threads = 1;
  c.reorder_reactions = false; // it is drawn for each nuclide
  for (auto& e : c.estimators) {
    e.energy = {};
    e.sensitivities.clear();
  }
  c.perturbations.clear();
  if (c.temperature.kind == Field::Absent) {
    c.temperature.kind = Field::Constant;
    c.temperature.c = 293.6;
  }
  if (cell >= 0 && !c.cells[cell].is_void && !c.estimators.empty()) {
    auto base = RunProblem(c, k, "base");
    for (auto& v : Variants()) {
      if (k.failed) break;
      Config d = c;
      Map m;
      if (!v.make(d, m, r)) continue;
      Result res;
      try {
        res = RunProblem(d, k, "other");
      }
      catch (const std::exception& e) {
        k.Fail("refused", fmt("%s: refused: %s; ", v.what, e.what()) + Describe(d));
        break;
      }
      static std::map<std::string, std::pair<double, double>> seen;
      size_t differ = 0;
      std::string first;
      for (size_t i = 0; i < base.hist.size(); i++) {
        const std::string w = i < res.hist.size()
                                  ? Differ(base.hist[i], res.hist[i], m) : "missing";
        if (w.empty()) {
          if (HistSteps(base.hist[i]) > 1)
            k.Nontrivial(Mix(HistPrint(base.hist[i]), Hash(v.what)));
        }
        else if (!differ++) first = fmt("history %zu: ", i) + w;
      }
      k.Eval(base.hist.size());
      ctx.Count(fmt("histories compared: %s", v.what), base.hist.size());
      ctx.Count(fmt("histories that differ: %s", v.what), differ);
      // Rounding differs where factors are not powers of two or lengths are
      // compared with the nudge; rarely a decision turns out otherwise
      auto& [all, odd] = seen[v.what]; // in all cases so far
      all += base.hist.size();
      odd += differ;
      if (differ > 1 + base.hist.size() / 50 || (differ && odd > 2 + 1e-5 * all))
        k.Fail("differs", fmt("%s (length x %g, energy x %g): %zu of %zu histories "
                              "differ (%g of all so far), e.g. ", v.what, m.length, m.energy,
                              differ, base.hist.size(), odd) + first + "; " + Describe(c));
      // what was reported, in crossings
      double moved = 0;
      size_t n = 0;
      for (auto& e : c.estimators)
        for (size_t i = 0; i < RefSize(e); i++, n++)
          moved += std::fabs(base.Mean(e.name, i) - res.Mean(e.name, i)) * c.histories;
      ctx.Count("reported means compared", n);
      if (differ == 0 && moved > 2 + 1e-6 * n)
        k.Fail("result", fmt("%s (length x %g, energy x %g): the same histories, but "
                             "%g crossings are reported in other bins; ", v.what,
                             m.length, m.energy, moved) + Describe(c));
    }
  }
  std::filesystem::remove_all(dir);
}
} // namespace

void Run(Ctx& ctx) {
  for (const char* kind : {"multigroup", "continuous"})
    ctx.Cases(kind, kind[0] == 'm' ? ctx.N(700, 12000) : ctx.N(300, 5000),
              [&ctx, kind](Case& k) { Body(ctx, k, kind); });
}
} // namespace mon
