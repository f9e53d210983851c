// C26: every particle of a history has random numbers of its own.
#include "drive.hpp"

#include <algorithm>
#include <unordered_map>
#include <unordered_set>

namespace mon {
const char* const kRule =
    "one evaluation is one secondary whose stream is compared with those of "
    "its parent and its siblings, or one source particle or pair of siblings "
    "whose emissions, flights and collisions are tested for independence; "
    "distinct non-trivial ones are the streams seen";

// What identifies a stream: the numbers it is about to produce.
static std::vector<uint64_t> Ahead(RNG g, int n) {
  std::vector<uint64_t> v(n);
  for (auto& x : v) x = g();
  return v;
}

// Compares the streams of all particles of each history.
struct Streams : Observer {
  struct Kin {
    RNG parent_begin, parent_then;
    std::vector<RNG> born;
  };
  std::mutex m;
  // a particle being transported
  struct Open {
    RNG begin;
    std::vector<RNG> born;
    RNG after_last;
  };
  static thread_local Open cur;
  uint64_t secondaries = 0, with_parent = 0, with_sibling = 0, primaries = 0;
  int stride = 1;
  std::unordered_map<uint64_t, int> first; // first numbers of all streams
  uint64_t again = 0;
  std::string example_parent, example_sibling;
  void Stream(const RNG& g) {
    auto v = Ahead(g, 2);
    if (first[Mix(v[0], v[1])]++) again++;
  }
  void TransportBegin(const Particle& p) override {
    cur = {p.rng, {}, p.rng};
  }
  void Secondary(const Particle& parent, const Particle& s) override {
    cur.born.push_back(s.rng);
    cur.after_last = parent.rng;
  }
  void TransportEnd(const Particle& p) override {
    std::lock_guard g{m};
    auto& o = cur;
    if (o.born.empty()) return;
    // a long stretch of the parent's numbers: before, while and after emitting
    std::unordered_set<uint64_t> parents;
    for (auto x : Ahead(o.begin, 600)) parents.insert(x);
    for (auto x : Ahead(p.rng, 600)) parents.insert(x);
    std::vector<std::unordered_set<uint64_t>> later;
    const int few = 12;
    const size_t n = std::min<size_t>(o.born.size(), few);
    for (size_t i = 0; i < n; i++) {
      secondaries++;
      Stream(o.born[i]);
      const auto mine = Ahead(o.born[i], 16);
      int same = 0;
      for (auto x : mine) same += parents.count(x);
      // if a number is the state, one means that all which follow are the same
      if (same >= 3) {
        with_parent++;
        if (example_parent.empty())
          example_parent = fmt("secondary %zu of %zu", i, o.born.size());
      }
      for (size_t j = 0; j < later.size(); j++) {
        int s = 0;
        for (auto x : mine) s += later[j].count(x);
        if (s >= 3) {
          with_sibling++;
          if (example_sibling.empty())
            example_sibling =
                fmt("secondaries %zu and %zu of %zu", j, i, o.born.size());
          break;
        }
      }
      later.emplace_back();
      for (auto x : Ahead(o.born[i], 200)) later.back().insert(x);
    }
  }
  // number of chance occurrences that is beyond belief
  static bool TooMany(uint64_t seen, double expected) {
    return seen >= 4 && seen > 30 * expected;
  }
  bool Judge(Case& k) {
    k.Eval(secondaries);
    const double n = secondaries;
    const double range = double(RNG::max() - RNG::min());
    if (TooMany(with_parent, n * 1300 / range)) {
      k.Fail("parent", fmt("%lu of %lu secondaries repeat the random numbers of "
                           "their parent, e.g. %s",
                           with_parent, secondaries, example_parent.c_str()));
      return false;
    }
    if (TooMany(with_sibling, n * 12 * 230 / range)) {
      k.Fail("sibling", fmt("%lu of %lu secondaries repeat the random numbers of "
                            "a sibling, e.g. %s",
                            with_sibling, secondaries, example_sibling.c_str()));
      return false;
    }
    if (TooMany(again, 2 * n * n / range)) {
      k.Fail("again", fmt("%lu of %lu secondaries have the same random numbers as "
                          "another one", again, secondaries));
      return false;
    }
    return true;
  }
};
thread_local Streams::Open Streams::cur;

// ---- independence ----------------------------------------------------------
// What is observed of a particle, each a real number; NaN: not observed
enum Feature { fX, fY, fZ, fAz, fGroup, fFlight, fEvent, fYield, fFlight2, nF };
static const char* const kFeature[] = {
    "first component of the direction", "second component of the direction",
    "third component of the direction", "azimuth", "energy group",
    "first flight", "first collision", "number of secondaries",
    "second flight"};
using Features = std::array<double, nF>;

static double Independent(const std::vector<std::pair<double, double>>& x,
                          int bins) {
  const double n = x.size();
  if (n < 400) return 1;
  // bins of equal counts; values that are equal share one
  auto classify = [&](auto get) {
    std::vector<double> v;
    for (auto& p : x) v.push_back(get(p));
    std::sort(v.begin(), v.end());
    std::vector<double> cut;
    for (int i = 1; i < bins; i++) {
      const double c = v[v.size() * i / bins];
      if (c > v.front() && (cut.empty() || c > cut.back())) cut.push_back(c);
    }
    return cut;
  };
  auto ca = classify([](auto& p) { return p.first; });
  auto cb = classify([](auto& p) { return p.second; });
  if (ca.empty() || cb.empty()) return 1;
  const size_t na = ca.size() + 1, nb = cb.size() + 1;
  std::vector<double> a(na), b(nb), t(na * nb), e(na * nb);
  for (auto& p : x) {
    const size_t i = std::upper_bound(ca.begin(), ca.end(), p.first) - ca.begin();
    const size_t j = std::upper_bound(cb.begin(), cb.end(), p.second) - cb.begin();
    a[i]++, b[j]++, t[i * nb + j]++;
  }
  for (size_t i = 0; i < na; i++)
    for (size_t j = 0; j < nb; j++) e[i * nb + j] = a[i] / n * b[j] / n;
  return Chi2(t, e); // conservative: more degrees of freedom than it has
}

// features of each particle of one or two generations
struct Family : Observer {
  const std::vector<double>* sigma = nullptr; // by group, 0 based
  Features cur;
  V3 last;
  int flights = 0;
  void TransportBegin(const Particle& p) override {
    cur.fill(NAN);
    const V3 d = ToV3(p.GetDirection());
    cur[fX] = d.x, cur[fY] = d.y, cur[fZ] = d.z;
    cur[fAz] = std::atan2(d.z, d.y);
    cur[fGroup] = EnergyValue(p.GetEnergy());
    cur[fYield] = 0;
    last = ToV3(p.GetPosition());
    flights = 0;
    group = EnergyValue(p.GetEnergy());
  }
  void Secondary(const Particle&, const Particle&) override { cur[fYield]++; }
  void Step(const Particle& p) override {
    const V3 x = ToV3(p.GetPosition());
    const double s = (*sigma)[sigma->size() == 1 ? 0 : (size_t)group - 1];
    const double u = s * Norm(x - last);
    if (flights == 0) {
      cur[fFlight] = u;
      cur[fEvent] = EventKind(p);
    }
    else if (flights == 1) cur[fFlight2] = u;
    flights++;
    last = x;
    group = EnergyValue(p.GetEnergy());
  }
  double group = 1;
};

static void Independence(Ctx& ctx, Case& k, bool ce) {
  Rng& r = k.rng;
  Config c = Infinite();
  c.groups = ce ? 0 : I(r, 1, 5);
  c.energy = ce ? G17(LogU(r, 1e-3, 10)) : std::to_string(I(r, 1, c.groups));
  c.particles = {"neutron"};
  c.dir_kind = B(r, 0.7) ? "isotropic" : "isotropic-flux";
  c.dir = RandDir(r);
  c.tracking = B(r) ? "" : "surface";
  NuclideCfg n;
  n.name = "n";
  n.awr = 200;
  std::vector<double> sigma;
  const double nu = B(r) ? I(r, 2, 5) : U(r, 1.5, 5);
  const double aden = LogU(r, 0.1, 3);
  const bool scatter = !ce && B(r);
  if (ce) {
    c.temperature.kind = Field::Constant;
    c.temperature.c = 293.6;
    CEData d;
    const double f = U(r, 0.5, 2), a = U(r, 0.3, 1);
    auto flat = [&](double y) {
      Table1 t;
      t.x = {1e-11, 30};
      t.y = {y, y};
      return t;
    };
    d.capture = flat(a);
    d.fission = flat(f);
    d.total = flat(a + f);
    d.nubar = flat(nu);
    n.ce_neutron = d;
    sigma = {(a + f) * aden};
  }
  else {
    MGData d;
    std::vector<double> cap, fis, nb, chi;
    double sum = 0;
    for (int g = 0; g < c.groups; g++) {
      cap.push_back(U(r, 0.3, 1));
      fis.push_back(U(r, 0.5, 2));
      nb.push_back(nu);
      chi.push_back(U(r, 0.2, 1));
      sum += chi.back();
    }
    d.capture = cap;
    d.fission = fis;
    d.nubar = nb;
    d.chi.emplace();
    for (auto x : chi) d.chi->emplace_back(c.groups, x / sum);
    if (scatter) {
      // to any group from any group alike
      d.scatter.emplace();
      for (int g = 0; g < c.groups; g++)
        d.scatter->emplace_back(c.groups, U(r, 0.1, 0.6));
    }
    n.mg_neutron = d;
    for (int g = 0; g < c.groups; g++) sigma.push_back(aden * d.Tot(g));
  }
  c.nuclides = {n};
  MaterialCfg m;
  m.name = "m";
  m.aden = aden;
  m.nuclides = {{0, 1.}};
  c.materials = {m};
  EstCfg e;
  e.name = "e";
  c.estimators = {e};
  auto l = Load(c, k);
  const auto node = l->doc->root.child("problemtype").child("fixedsource");
  const Source source{node};
  auto est = l->probe->Est();
  auto proxy = est.GetProxy();
  Family fam;
  fam.sigma = &sigma;
  std::string what;
  double worst = 1;
  uint64_t pairs_seen = 0;
  auto pvalue = [&](int N, Rng& r) {
    std::vector<Features> primaries;
    std::vector<std::vector<Features>> families;
    SetObserver(&fam);
    for (int i = 0; i < N; i++) {
      Particle p = source.Sample(Seed31(r));
      p.SetPerturbations(l->probe->Perts());
      p.Transport(proxy, l->W());
      primaries.push_back(fam.cur);
      Bank bank;
      p.MoveSecondariesTo(bank);
      std::vector<Features> kids;
      // the last one first
      while (!bank.empty()) {
        if (kids.size() < 5) {
          bank.back().SetPerturbations(l->probe->Perts());
          bank.back().Transport(proxy, l->W());
          kids.push_back(fam.cur);
        }
        bank.pop_back();
      }
      families.push_back(std::move(kids));
    }
    SetObserver(nullptr);
    double p = 1;
    size_t tests = 0;
    std::string name;
    auto test = [&](const std::string& who, const std::string& whom, auto each,
                    Feature a, Feature b) {
      std::vector<std::pair<double, double>> x;
      each([&](const Features& f, const Features& g) {
        if (!std::isnan(f[a]) && !std::isnan(g[b])) x.emplace_back(f[a], g[b]);
      });
      pairs_seen += x.size();
      for (int bins : {3, 8}) {
        const double q = Independent(x, bins);
        tests++;
        if (q < p) {
          p = q;
          name = fmt("the %s of %s and the %s of %s", kFeature[a], who.c_str(),
                     kFeature[b], whom.c_str());
        }
      }
    };
    // source particle: emission against what it does
    auto self = [&](auto f) {
      for (auto& x : primaries) f(x, x);
    };
    for (auto a : {fX, fY, fZ, fAz})
      for (auto b : {fFlight, fEvent, fYield, fFlight2})
        test("a source particle", "the same", self, a, b);
    test("a source particle", "the same", self, fFlight, fEvent);
    test("a source particle", "the same", self, fFlight, fFlight2);
    // number of secondaries depends on how the history of the particle ended,
    // but not on how far it flew, unless it scattered
    if (!scatter) test("a source particle", "the same", self, fFlight, fYield);
    const Feature all[] = {fX,      fY,     fZ,     fAz,     fGroup,
                           fFlight, fEvent, fYield, fFlight2};
    // a secondary: emission against what it does
    for (int i = 0; i < 3; i++) {
      auto own = [&](auto f) {
        for (auto& v : families)
          if ((int)v.size() > i) f(v[i], v[i]);
      };
      for (auto a : {fX, fY, fZ, fAz})
        for (auto b : {fFlight, fEvent, fYield, fFlight2})
          test("a secondary", "the same", own, a, b);
      for (auto a : {fX, fY, fZ, fAz})
        test("a secondary", "the same", own, a, fGroup);
      test("a secondary", "the same", own, fGroup, fFlight);
      test("a secondary", "the same", own, fFlight, fEvent);
      // its siblings
      for (int j = 0; j < 3; j++) {
        if (j <= i) continue;
        auto sib = [&](auto f) {
          for (auto& v : families)
            if ((int)v.size() > std::max(i, j)) f(v[i], v[j]);
        };
        for (auto a : all)
          for (auto b : all)
            test("a secondary", fmt("the sibling transported %d after it", j - i),
                 sib, a, b);
      }
      // its parent; how many siblings it has is not independent of the order
      // in which they are transported
      auto par = [&](auto f) {
        for (size_t h = 0; h < families.size(); h++)
          if ((int)families[h].size() > i) f(primaries[h], families[h][i]);
      };
      for (auto a : {fX, fY, fZ, fAz, fFlight, fFlight2, fYield})
        for (auto b : {fX, fY, fZ, fAz, fGroup, fFlight, fEvent, fYield,
                       fFlight2})
          test("a source particle", "a secondary of it", par, a, b);
    }
    k.Eval(N);
    for (auto& v : families) k.Eval(v.size() * (v.size() - 1) / 2);
    p = std::min(1., p * tests);
    worst = std::min(worst, p);
    if (p < 1e-3) what = name;
    ctx.Count("independence tests", tests);
    return p;
  };
  double w = 1;
  if (Rejected(pvalue, ctx.N(4000, 16000), r, &w))
    k.Fail("dependent", what + fmt(" are not independent (p = %.2g)", w));
  ctx.Count("pairs of observations tested for independence", pairs_seen);
  ctx.Sample(fmt("{\"groups\": %d, \"nubar\": %.3f, \"scatter\": %s, "
                 "\"smallest p\": %.3g}",
                 c.groups, nu, scatter ? "true" : "false", worst));
  std::filesystem::path dir;
  ScratchDir(k, dir);
  std::filesystem::remove_all(dir);
}

static void Histories(Ctx& ctx, Case& k, bool ce) {
  Rng& r = k.rng;
  GenOpt o;
  o.max_surfaces = 5;
  o.photon = B(r, 0.2);
  Config c = ce ? GenCE(r, o) : GenMG(r, o);
  if (c.estimators.empty()) return;
  const int cell = RefFindCell(c, c.src);
  if (cell < 0 || c.cells[cell].is_void) return;
  c.histories = I(r, 50, ctx.N(300, 600));
  c.threads = B(r, 0.7) ? 1 : I(r, 2, 4);
  auto l = Load(c, k);
  Streams s;
  SetObserver(&s);
  {
    Quiet q;
    l->probe->Solve();
  }
  SetObserver(nullptr);
  s.Judge(k);
  for (auto& [h, n] : s.first) k.Nontrivial(h);
  ctx.Count("secondaries whose streams were compared", s.secondaries);
  std::filesystem::path dir;
  ScratchDir(k, dir);
  std::filesystem::remove_all(dir);
}

// Many particles: how many of them have the same numbers as another one.
struct Everyone : Observer {
  struct One {
    uint64_t numbers, parents; // first number, and the parent's
    size_t parent;
    bool operator<(const One& o) const {
      return std::tie(numbers, parents, parent) <
             std::tie(o.numbers, o.parents, o.parent);
    }
  };
  std::vector<One> all;
  uint64_t current = 0;
  size_t transported = 0;
  bool source = false;
  void TransportBegin(const Particle& p) override {
    current = Ahead(p.rng, 1)[0];
    transported++;
    if (source) all.push_back({current, transported | 1ul << 63, transported});
    source = false;
  }
  void Secondary(const Particle&, const Particle& p) override {
    all.push_back({Ahead(p.rng, 1)[0], current, transported});
  }
  /// Particles with the numbers of another one, unless that is because their
  /// parents have the numbers of each other
  uint64_t Shared() {
    std::sort(all.begin(), all.end());
    uint64_t same = 0;
    for (size_t i = 1; i < all.size(); i++) {
      const auto &a = all[i - 1], &b = all[i];
      same += a.numbers == b.numbers &&
              (a.parents != b.parents || a.parent == b.parent);
    }
    return same;
  }
};
static void Distinct(Ctx& ctx, Case& k, bool ce) {
  Rng& r = k.rng;
  GenOpt o;
  o.max_surfaces = 3;
  o.fission = true;
  o.large = false;
  Config c;
  for (int i = 0;; i++) {
    if (i == 1000) return;
    c = ce ? GenCE(r, o) : GenMG(r, o);
    const int cell = RefFindCell(c, c.src);
    if (cell < 0 || c.cells[cell].is_void) continue;
    auto fissile = [&](const NuclideCfg& n) {
      return ce ? n.ce_neutron && n.ce_neutron->fission
                : n.mg_neutron && n.mg_neutron->fission;
    };
    bool any = false;
    for (auto& n : c.materials[c.cells[cell].material].nuclides)
      any = any || fissile(c.nuclides[n.first]);
    if (any) break;
  }
  c.histories = 1000000;
  c.threads = 1;
  auto l = Load(c, k);
  const Source source{
      l->doc->root.child("problemtype").child("fixedsource")};
  auto est = l->probe->Est();
  auto proxy = est.GetProxy();
  Everyone e;
  SetObserver(&e);
  const uint64_t seed = Seed31(r);
  const size_t want = ctx.N(200000, 1000000);
  for (uint64_t i = 0; i < want && e.all.size() < want; i++) {
    Bank bank;
    e.source = true;
    bank.emplace_back(source.Sample(seed + i));
    while (!bank.empty() && e.all.size() < 2 * want) {
      bank.back().SetPerturbations(l->probe->Perts());
      bank.back().Transport(proxy, l->W());
      bank.back().MoveSecondariesTo(bank);
      bank.pop_back();
    }
  }
  SetObserver(nullptr);
  auto& v = e.all;
  const uint64_t same = e.Shared();
  const double n = v.size();
  const double expected = n * n / 2 / double(RNG::max() - RNG::min());
  k.Eval(v.size());
  ctx.Count("particles whose streams were compared with all of a run", v.size());
  if (same > 30 + 5 * expected)
    k.Fail("shared", fmt("%lu of %zu particles begin with the random numbers of "
                         "another one, about %.3g are expected by chance",
                         same, v.size(), expected));
  std::filesystem::path dir;
  ScratchDir(k, dir);
  std::filesystem::remove_all(dir);
}

void Run(Ctx& ctx) {
  ctx.Cases("multigroup histories", ctx.N(900, 8000),
            [&](Case& k) { Histories(ctx, k, false); });
  ctx.Cases("continuous histories", ctx.N(150, 2000),
            [&](Case& k) { Histories(ctx, k, true); });
  ctx.Cases("multigroup independence", ctx.N(64, 400),
            [&](Case& k) { Independence(ctx, k, false); });
  ctx.Cases("continuous independence", ctx.N(32, 200),
            [&](Case& k) { Independence(ctx, k, true); });
  ctx.Cases("multigroup runs", ctx.N(12, 60),
            [&](Case& k) { Distinct(ctx, k, false); });
  ctx.Cases("continuous runs", ctx.N(4, 20),
            [&](Case& k) { Distinct(ctx, k, true); });
}
} // namespace mon
