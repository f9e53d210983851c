// C27: histories are distributed as those of the declared transport problem.
#include "drive.hpp"
#include "reflaws.hpp"
#include "tally.hpp"

#include <algorithm>
#include <list>

namespace mon {
const char* const kRule =
    "one evaluation is one history of the code under test compared, together "
    "with those of an independent simulation of the same problem; distinct "
    "non-trivial ones have a collision and are identified by problem, final "
    "position and path length";

namespace {
using Family = std::vector<Track>; // in order of generation
constexpr int kGenerations = 3; // secondaries of later ones are not followed

// An independent simulation: other random numbers, geometry in quad precision,
// cross sections and scattering laws from the configuration.
class Sim {
public:
  explicit Sim(const Config& c, int generations = kGenerations)
      : c{c}, generations{generations} {
    for (size_t i = 0; i < c.nuclides.size(); i++)
      if (auto& d = c.nuclides[i].ce_neutron; d && d->tsl)
        tsl.emplace(i, RefTSL{*d->tsl, c.nuclides[i].awr});
  }
  Family History(Rng& r) {
    Birth b;
    b.pos = c.src;
    b.type = c.particle == "photon";
    b.group = c.groups;
    b.energy = std::stod(c.energy);
    if (c.dir_kind == "constant") b.dir = Unit(c.dir);
    else if (c.dir_kind == "isotropic") b.dir = RandDir(r);
    else {
      const double mu = std::sqrt(U(r));
      b.dir = Turn(Unit(c.dir), mu, r);
    }
    Family f;
    std::vector<Birth> now{b};
    for (int g = 0; g < generations && !now.empty(); g++) {
      std::vector<Birth> next;
      if (f.size() > 20000) bad = true;
      if (bad) break;
      for (auto& q : now) {
        f.push_back(Transport(q, r));
        for (auto& s : f.back().secondaries) next.push_back(s);
      }
      now = std::move(next);
    }
    return f;
  }
  bool bad = false; // the problem is not fit for comparison

private:
  static V3 Turn(V3 d, double mu, Rng& r) {
    V3 a;
    do a = Cross(d, RandDir(r));
    while (Norm(a) < 1e-3);
    const V3 e1 = Unit(a), e2 = Cross(d, e1);
    const double phi = U(r, 0, 2 * M_PI), s = std::sqrt(std::max(0., 1 - mu * mu));
    return Unit(mu * d + s * std::cos(phi) * e1 + s * std::sin(phi) * e2);
  }
  double Rate(const CellCfg& k, int type, double E, V3 x) {
    const double T = RefTemperature(c, k, x);
    if (!c.groups && T < 0) bad = true;
    return c.materials[k.material].aden *
           RefMaterial(c, c.materials[k.material], type, E, T);
  }
  // distance to the next collision, or infinity if it is beyond `limit`
  double Flight(const CellCfg& k, int type, double E, V3 x, V3 d, double limit,
                Rng& r) {
    std::exponential_distribution<double> e;
    const bool varies = !k.temperature && c.temperature.kind == Field::Linear;
    if (!varies) {
      const double s = Rate(k, type, E, x);
      if (s <= 0) return INFINITY;
      const double t = e(r) / s;
      return t < limit ? t : INFINITY;
    }
    // thinning of a process that is dense enough for all temperatures
    double m = 0;
    const auto& mat = c.materials[k.material];
    for (int i = 0; i <= 16; i++)
      m = std::max(m, mat.aden * RefMaterial(c, mat, type, E,
                                             std::max(1., c.temperature.lo) +
                                                 (c.temperature.hi - std::max(1., c.temperature.lo)) * i / 16));
    m *= 1.1;
    for (double t = 0;;) {
      t += e(r) / m;
      if (!(t < limit)) return INFINITY;
      const double s = Rate(k, type, E, x + t * d);
      if (s > m) bad = true;
      if (bad) return INFINITY;
      if (U(r) * m < s) return t;
    }
  }
  static size_t Choose(const std::vector<double>& w, Rng& r) {
    double s = 0;
    for (double x : w) s += x;
    double u = U(r) * s;
    for (size_t i = 0; i < w.size(); i++)
      if ((u -= w[i]) < 0) return i;
    return w.size() - 1;
  }
  void Collide(Track& t, Ev& s, int type, const CellCfg& k, Rng& r) {
    const double T = RefTemperature(c, k, s.pos);
    const auto& m = c.materials[k.material];
    std::vector<double> w;
    for (auto& [i, f] : m.nuclides)
      w.push_back(f * RefTotal(c, c.nuclides[i], type, s.energy, T));
    const int in = m.nuclides[Choose(w, r)].first;
    const auto& n = c.nuclides[in];
    w.clear();
    for (int q : {rCapture, rScatter, rFission})
      w.push_back(RefReaction(c, n, type, q, s.energy, T));
    const size_t reaction = Choose(w, r);
    const int g = (int)s.energy - 1;
    if (reaction == rCapture) s.event = eCapture;
    else if (reaction == rScatter) {
      s.event = eScatter;
      if (c.groups) {
        auto& d = type ? *n.mg_photon : *n.mg_neutron;
        w.clear();
        for (auto& row : *d.scatter) w.push_back(row[g]);
        s.energy = Choose(w, r) + 1;
        s.dir = RandDir(r);
        return;
      }
      double E, mu;
      if (RefThermal(n, type, s.energy)) tsl.at(in).Sample(s.energy, T, r, E, mu);
      else {
        const auto o = RefFreeGas(r, s.energy, T, n.awr);
        E = o.E, mu = o.mu;
      }
      s.energy = E;
      s.dir = Turn(s.dir, mu, r);
    }
    else {
      s.event = eFission;
      double nu;
      std::vector<double> chi;
      if (c.groups) {
        auto& d = type ? *n.mg_photon : *n.mg_neutron;
        nu = (*d.nubar)[g];
        for (auto& row : *d.chi) chi.push_back(row[g]);
      }
      else nu = (type ? n.ce_photon : n.ce_neutron)->nubar->At(s.energy);
      for (int j = (int)std::floor(nu + U(r)); j > 0; j--) {
        Birth b;
        b.pos = s.pos;
        b.dir = RandDir(r);
        b.energy = c.groups ? Choose(chi, r) + 1 : s.energy;
        b.group = c.groups;
        b.type = 0;
        t.secondaries.push_back(b);
        t.sec_at.push_back(t.steps.size());
      }
    }
  }
  Track Transport(const Birth& b, Rng& r) {
    Track t;
    t.birth = b;
    Ev s;
    s.pos = b.pos, s.dir = b.dir, s.energy = b.energy, s.group = b.group;
    s.cell = RefFindCell(c, s.pos);
    for (int n = 0; n < 200000 && !bad; n++) {
      if (s.cell < 0 || c.cells[s.cell].is_void) {
        bad = true;
        break;
      }
      const auto& k = c.cells[s.cell];
      double near = INFINITY;
      int surf = -1;
      for (auto& [i, sense] : k.surfaces) {
        const auto x = RefCross(c.surfaces[i], s.pos, s.dir);
        if (x.t > 0 && (double)x.t < near) near = x.t, surf = i;
      }
      const double d = Flight(k, b.type, s.energy, s.pos, s.dir, near, r);
      if (std::isfinite(d)) {
        s.pos = s.pos + d * s.dir;
        s.surf = -1;
        Collide(t, s, b.type, k, r);
      }
      else {
        if (surf < 0) {
          bad = true;
          break;
        }
        const bool inside = RefInside(c.surfaces[surf], s.pos);
        double nudge = 1e-6;
        V3 x;
        do {
          x = s.pos + (near + nudge) * s.dir;
          nudge *= 2;
        } while (RefInside(c.surfaces[surf], x) == inside && nudge < 1);
        s.pos = x;
        s.surf = surf;
        s.cell = RefFindCell(c, s.pos);
        if (s.cell < 0) {
          bad = true;
          break;
        }
        s.event = c.cells[s.cell].is_void ? eLeak : eCross;
      }
      t.steps.push_back(s);
      if (s.event == eCapture || s.event == eFission || s.event == eLeak) {
        t.ended = true;
        break;
      }
    }
    if (!t.ended) bad = true;
    return t;
  }
  const Config& c;
  const int generations;
  std::map<size_t, RefTSL> tsl;
};

// What is compared of families: classes (chi-square) and values (two-sample
// Kolmogorov-Smirnov), by name
struct Summary {
  std::map<std::string, std::map<long, double>> classes;
  std::map<std::string, std::vector<double>> values;
  void Add(const Config& c, const Family& f, Rng& r);
  // the reported scores, per estimator and bin, over all histories
  std::map<std::pair<int, int>, std::pair<double, double>> bins; // sums
  std::set<std::pair<int, int>> undecidable;
};
void Summary::Add(const Config& c, const Family& f, Rng& r) {
  // Values that many histories share (a plane's x, the source's direction)
  // differ by rounding, and by how far a particle is moved over a surface.
  // They are blurred by much more than that, and much less than the
  // resolution of the tests.
  std::normal_distribution<double> gauss;
  auto put = [&](const std::string& name, double v, bool energy = false) {
    values[name].push_back(
        v * (1 + 5e-4 * gauss(r)) + (energy ? 0 : 5e-4 * gauss(r)));
  };
  const Track& t = f[0];
  auto describe = [&](const std::string& who, const Track& t) {
    std::vector<const Ev*> st;
    for (auto& s : t.steps) st.push_back(&s);
    if (st.empty()) return;
    const Ev& e = *st.back();
    const Ev* first = st[0];
    classes[who + "fate"][e.event * 1000 + e.cell]++;
    int sc = 0, cr = 0;
    double len = 0;
    std::map<int, double> in;
    V3 at = t.birth.pos;
    int cell = RefFindCell(c, at);
    for (auto* s : st) {
      const double d = Norm(s->pos - at);
      len += d;
      if (cell >= 0) in[cell] += d;
      at = s->pos;
      cell = s->cell;
      sc += s->event == eScatter;
      cr += s->event == eCross;
    }
    classes[who + "collisions"][std::min(sc, 15)]++;
    classes[who + "crossings"][std::min(cr, 15)]++;
    classes[who + "first event"][first->event * 1000 + first->cell]++;
    put(who + "x at the end", e.pos.x);
    put(who + "y at the end", e.pos.y);
    put(who + "z at the end", e.pos.z);
    put(who + "direction x at the end", e.dir.x);
    put(who + "direction y at the end", e.dir.y);
    put(who + "path length", len);
    put(who + "first flight", Norm(first->pos - t.birth.pos));
    for (auto& [k, v] : in) put(who + fmt("path in cell %d", k), v);
    if (c.groups) classes[who + "last group"][(long)e.energy]++;
    else put(who + "last energy", e.energy, true);
    // relations between consecutive steps
    for (size_t i = 0; i + 1 < st.size(); i++)
      if (st[i]->event == eScatter) {
        const V3 before = i ? st[i - 1]->dir : t.birth.dir;
        const double d = Norm(st[i + 1]->pos - st[i]->pos);
        put(who + "cosine of the first scatter", Dot(before, st[i]->dir));
        put(who + "displacement along the old direction", 
            Dot(before, st[i + 1]->pos - st[i]->pos));
        put(who + "displacement in x", st[i + 1]->pos.x - st[i]->pos.x);
        const double d0 = Norm(st[i]->pos - (i ? st[i - 1]->pos : t.birth.pos));
        put(who + "product of flights", d * d0);
        if (!c.groups) {
          const double e0 = i ? st[i - 1]->energy : t.birth.energy;
          put(who + "energy ratio", st[i]->energy / e0);
          put(who + "energy ratio and flight", st[i]->energy / e0 * d);
          put(who + "energy ratio and cosine", 
              st[i]->energy / e0 * (1 + Dot(before, st[i]->dir)));
        }
        else
          classes[who + "group change"][(long)(i ? st[i - 1]->energy : t.birth.energy) * 1000 +
                                        (long)st[i]->energy]++;
        break;
      }
    // any later scatter: the last one
    for (size_t i = st.size(); i-- > 2;)
      if (st[i - 1]->event == eScatter) {
        const V3 before = st[i - 2]->dir;
        put(who + "cosine of the last scatter", Dot(before, st[i - 1]->dir));
        put(who + "last flight", Norm(st[i]->pos - st[i - 1]->pos));
        if (!c.groups)
          put(who + "last energy ratio", st[i - 1]->energy / st[i - 2]->energy);
        break;
      }
    if (e.event == eFission) {
      classes[who + "secondaries"][(long)t.secondaries.size()]++;
      if (!t.secondaries.empty()) {
        auto& s = t.secondaries[0];
        put(who + "emission x", s.dir.x);
        put(who + "emission z", s.dir.z);
        put(who + "emission and parent", Dot(s.dir, e.dir));
        if (c.groups) classes[who + "group of secondary"][(long)s.energy]++;
        if (t.secondaries.size() > 1)
          put(who + "emission and sibling", 
              Dot(s.dir, t.secondaries[1].dir));
      }
    }
  };
  describe("", t);
  classes["particles"][std::min((long)f.size(), 12l)]++;
  const size_t kids = t.secondaries.size();
  if (kids) {
    describe("first secondary: ", f[1]);
    if (kids > 1 && !f[1].steps.empty() && !f[2].steps.empty())
      put("flights of siblings", 
          Norm(f[1].steps[0].pos - f[1].birth.pos) *
          Norm(f[2].steps[0].pos - f[2].birth.pos));
    if (f.size() > kids + 1) describe("second generation: ", f[kids + 1]);
  }
  for (size_t i = 0; i < c.estimators.size() && i < 8; i++) {
    std::map<int, double> score;
    for (auto& q : f)
      for (auto& s : q.steps)
        if ((s.event == eCross || s.event == eLeak) &&
            s.surf == c.estimators[i].surface) {
          const int b = RefIndex(c.estimators[i], s);
          if (b >= 0) score[b]++;
          // rounding of the direction decides which bin it is
          for (int sign : {-1, 1}) {
            Ev moved = s;
            moved.dir = s.dir + (sign * 1e-9) * Unit(c.estimators[i].ref);
            const int m = RefIndex(c.estimators[i], moved);
            if (m != b) undecidable.insert({(int)i, m}), undecidable.insert({(int)i, b});
          }
        }
    for (auto& [b, v] : score) {
      auto& q = bins[{(int)i, b}];
      q.first += v;
      q.second += v * v;
    }
  }
}
} // namespace

static void Compare(Case& k, const Config& c, int n0) {
  Ctx& ctx = k.ctx;
  Rng& r = k.rng;
  const int at = RefFindCell(c, c.src);
  if (at < 0 || c.cells[at].is_void) return;
  double worst = 1;
  std::string what;
  bool skip = false;
  uint64_t tests = 0, tested_bins = 0;
  const uint64_t hc = HashConfig(c);
  auto pvalue = [&](int n, Rng& r) {
    Sim sim{c};
    Summary a, b;
    // reference first: it tells whether the problem is fit
    for (int i = 0; i < n && !sim.bad; i++) b.Add(c, sim.History(r), r);
    if (sim.bad) {
      skip = true;
      return 1.;
    }
    auto l = Load(c, k);
    const Source source{
        l->doc->root.child("problemtype").child("fixedsource")};
    EstimatorSet est = l->probe->Est();
    {
      Recorder rec{c, *l};
      for (int i = 0; i < n; i++) {
        auto proxy = est.GetProxy();
        Family f;
        Bank now;
        now.emplace_back(source.Sample(Seed31(r)));
        for (int g = 0; g < kGenerations; g++) {
          Bank next;
          // banked secondaries are processed in the order of their parents
          std::list<Particle> ps;
          while (!now.empty()) {
            ps.push_front(std::move(now.back()));
            now.pop_back();
          }
          for (auto& p : ps) {
            p.SetPerturbations(l->probe->Perts());
            rec.HistoryBegin(0);
            p.Transport(proxy, l->W());
            rec.HistoryEnd(0);
            auto h = rec.TakeLast();
            f.push_back(std::move(h.tracks.at(0)));
            // virtual collisions are not part of the history
            auto& st = f.back().steps;
            st.erase(std::remove_if(st.begin(), st.end(), [](const Ev& e) {
                       return e.event == eVirtual;
                     }), st.end());
            p.MoveSecondariesTo(next);
          }
          now = std::move(next);
        }
        proxy.CommitHistory();
        a.Add(c, f, r);
        k.Eval();
        ctx.Count("particles", f.size());
        ctx.Count("steps", f[0].steps.size());
        if (f[0].steps.size() > 1)
          k.Nontrivial(HashD(HashD(hc, f[0].steps.back().pos.x),
                             f[0].steps[0].pos.y));
      }
    }
    double p = 1;
    tests = tested_bins = 0;
    auto take = [&](double q, const std::string& name) {
      tests++;
      if (q < p) p = q, what = name;
    };
    std::set<std::string> names;
    for (auto* s : {&a, &b})
      for (auto& [name, v] : s->classes) names.insert(name);
    for (auto& name : names) {
      auto &x = a.classes[name], &y = b.classes[name];
      double nx = 0, ny = 0;
      std::set<long> keys;
      for (auto& [q, v] : x) keys.insert(q), nx += v;
      for (auto& [q, v] : y) keys.insert(q), ny += v;
      if (nx < 40 || ny < 40) continue;
      std::vector<double> u, v;
      for (long q : keys) u.push_back(x[q]), v.push_back(y[q]);
      if (keys.size() > 1) take(Chi2Two(u, v), name);
    }
    names.clear();
    for (auto* s : {&a, &b})
      for (auto& [name, v] : s->values) names.insert(name);
    for (auto& name : names) {
      auto &x = a.values[name], &y = b.values[name];
      // how often there is such a value
      const double m = x.size() + y.size();
      if (m < 60) continue;
      if (x.size() < (size_t)n || y.size() < (size_t)n)
        take(PBinom(x.size(), m, 0.5), "number of values of " + name);
      if (x.size() > 100 && y.size() > 100) take(KS2(x, y), name);
    }
    // the scores reported
    std::set<std::pair<int, int>> keys;
    for (auto* s : {&a, &b})
      for (auto& [q, v] : s->bins) keys.insert(q);
    for (auto& q : keys) {
      auto [s1, s2] = a.bins[q];
      auto [t1, t2] = b.bins[q];
      if (s1 + t1 < 80 || a.undecidable.count(q) || b.undecidable.count(q))
        continue;
      const double mean =
          est.FindEstimatorByName(c.estimators[q.first].name).GetScore(q.second, n);
      const double var = (s2 + t2) / (2 * n) - std::pow((s1 + t1) / (2 * n), 2);
      tested_bins++;
      take(PZ((mean - t1 / n) / std::sqrt(2 * std::max(var, 1. / n) / n)),
           fmt("score of %s in bin %d (reported %.6g, reference %.6g)",
               c.estimators[q.first].name.c_str(), q.second, mean, t1 / n));
    }
    return std::min(1., p * std::max<uint64_t>(tests, 1));
  };
  const bool no = Rejected(pvalue, n0, r, &worst);
  if (!skip) {
    if (no)
      return k.Fail("law", fmt("histories differ from those of the declared "
                               "problem: %s (p = %.3g): ", what.c_str(), worst) +
                               Describe(c));
    ctx.Count("problems compared");
    ctx.Count("quantities compared", tests);
    ctx.Count("reported scores compared", tested_bins);
    if (worst < 0.01) ctx.Count("problems with p below 1%");
    if (ctx.samples.size() < 3)
      ctx.Sample(fmt("{\"quantities\": %lu, \"scores\": %lu, \"p value\": %.3g}",
                     tests, tested_bins, worst));
  }
  else ctx.Count("problems not fit for comparison");
  std::filesystem::path dir;
  ScratchDir(k, dir);
  std::filesystem::remove_all(dir);
}

// A run of the program's driver: consecutive seeds, several workers, all
// generations. The reported scores must agree with the reference.
static void Report(Case& k, Config c) {
  Ctx& ctx = k.ctx;
  Rng& r = k.rng;
  const int at = RefFindCell(c, c.src);
  if (at < 0 || c.cells[at].is_void || c.estimators.empty()) return;
  double worst = 1;
  std::string what;
  bool skip = false;
  uint64_t tests = 0;
  auto pvalue = [&](int n, Rng& r) {
    constexpr int more = 2; // the reference is longer
    c.histories = n;
    c.threads = I(r, 1, 6);
    c.seed = I(r, 1, 2000000000);
    Sim sim{c, 1 << 30};
    Summary b;
    for (int i = 0; i < more * n && !sim.bad; i++)
      b.Add(c, sim.History(r), r);
    if (sim.bad) {
      skip = true;
      return 1.;
    }
    auto res = RunProblem(c, k, "run", false);
    k.Eval(n);
    double p = 1;
    tests = 0;
    for (auto& [q, t] : b.bins) {
      if (t.first < 100 * more || b.undecidable.count(q)) continue;
      const double N = more * n;
      const double m = t.first / N, var = t.second / N - m * m;
      const double mean = res.Mean(c.estimators[q.first].name, q.second);
      tests++;
      const double v =
          PZ((mean - m) / std::sqrt(std::max(var, 1. / n) * (1. / n + 1 / N)));
      if (v < p) {
        p = v;
        what = fmt("score of %s in bin %d (reported %.6g, reference %.6g)",
                   c.estimators[q.first].name.c_str(), q.second, mean, m);
      }
    }
    return std::min(1., p * std::max<uint64_t>(tests, 1));
  };
  const bool no = Rejected(pvalue, ctx.N(3000, 10000), r, &worst);
  if (!skip) {
    if (no)
      return k.Fail("report", fmt("the program's run does not report the scores "
                                  "of the declared problem: %s (p = %.3g): ",
                                  what.c_str(), worst) + Describe(c));
    ctx.Count("runs of the driver compared");
    ctx.Count("scores of runs compared", tests);
    if (worst < 0.01) ctx.Count("runs with p below 1%");
  }
  std::filesystem::path dir;
  ScratchDir(k, dir);
  std::filesystem::remove_all(dir);
}

void Run(Ctx& ctx) {
  ctx.Cases("runs", ctx.N(300, 5000), [&](Case& k) {
    Rng& r = k.rng;
    GenOpt o;
    o.max_surfaces = 4;
    o.density = LogU(r, 0.3, 2);
    o.tsl = B(r, 0.3);
    Report(k, B(r, 0.6) ? GenMG(r, o) : GenCE(r, o));
  });
  const int n = ctx.N(6000, 15000);
  ctx.Cases("multigroup", ctx.N(450, 6000), [&](Case& k) {
    Rng& r = k.rng;
    GenOpt o;
    o.max_surfaces = 4;
    o.density = LogU(r, 0.3, 2);
    o.photon = B(r, 0.2);
    o.max_groups = B(r, 0.2) ? 12 : 4;
    Compare(k, GenMG(r, o), n);
  });
  ctx.Cases("continuous", ctx.N(450, 6000), [&](Case& k) {
    Rng& r = k.rng;
    GenOpt o;
    o.max_surfaces = 4;
    o.density = LogU(r, 0.3, 2);
    o.tsl = B(r, 0.4);
    o.linear_temperature = B(r, 0.3);
    Config c = GenCE(r, o);
    if (o.tsl && B(r, 0.7)) c.energy = G17(LogU(r, 1e-9, 1e-6));
    Compare(k, c, n);
  });
}
} // namespace mon
