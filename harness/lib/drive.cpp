#include "drive.hpp"

#include <algorithm>
#include <iostream>
#include <tuple>
#include <sstream>
#include <unistd.h>

namespace mon {

int EventKind(const Particle& p) {
  switch (p.event) {
  case Particle::Event::birth: return eBirth;
  case Particle::Event::scatter: return eScatter;
  case Particle::Event::capture: return eCapture;
  case Particle::Event::fission: return eFission;
  case Particle::Event::surface_cross: return eCross;
  case Particle::Event::leak: return eLeak;
  case Particle::Event::virtual_collision: return eVirtual;
  default: return eOther;
  }
}
const char* EventName(int e) {
  static const char* n[] = {"birth",         "scatter", "capture",
                            "fission",       "surface_cross", "leak",
                            "virtual_collision"};
  return e >= 0 && e < 7 ? n[e] : "?";
}
uint64_t RngPrint(const RNG& rng) {
  auto c = rng;
  const uint64_t a = c();
  return a;
}
static auto Tie(const Birth& b) {
  return std::tie(b.pos.x, b.pos.y, b.pos.z, b.dir.x, b.dir.y, b.dir.z,
                  b.energy, b.group, b.type, b.rng);
}
bool Birth::operator==(const Birth& o) const { return Tie(*this) == Tie(o); }
bool Birth::operator<(const Birth& o) const { return Tie(*this) < Tie(o); }

void ScratchDir(Case& k, std::filesystem::path& dir) {
  std::string n = k.id;
  std::replace(n.begin(), n.end(), ':', '_');
  dir = k.ctx.scratch / n;
  std::filesystem::create_directories(dir);
}
std::unique_ptr<Loaded>
Load(const Config& c, Case& k, const std::string& stem) {
  std::filesystem::path dir;
  ScratchDir(k, dir);
  return std::make_unique<Loaded>(WriteProblem(c, dir, stem));
}

struct Current {
  bool active = false;
  Hist h;
  bool in_track = false;
};
static thread_local Current cur;
static std::atomic<size_t> next_thread{0};
static thread_local size_t thread_id = next_thread++;

Recorder::Recorder(const Config& c, const Loaded& l) : c{c} {
  for (size_t i = 0; i < l.W().cells.size(); i++) cells[&l.W().cells[i]] = i;
  for (size_t i = 0; i < c.surfaces.size(); i++) {
    try {
      surfs[l.W().FindSurfaceByName(c.surfaces[i].name).get()] = i;
    }
    catch (const std::exception&) {
    }
  }
  for (auto& [n, i] : c.perturbations)
    perts.push_back(&l.probe->Perts().FindPerturbationByName(n));
  SetObserver(this);
}
Recorder::~Recorder() { SetObserver(nullptr); }

static Birth
MakeBirth(const Particle& p, const std::unordered_map<const Cell*, int>& cells) {
  Birth b;
  try {
    const auto it = cells.find(&p.GetCell());
    b.cell = it == cells.end() ? -2 : it->second;
  }
  catch (const std::exception&) {
  }
  b.pos = ToV3(p.GetPosition());
  b.dir = ToV3(p.GetDirection());
  b.energy = EnergyValue(p.GetEnergy());
  b.group = std::holds_alternative<Group>(p.GetEnergy());
  b.type = (int)p.GetType();
  b.event = EventKind(p);
  b.rng = RngPrint(p.rng);
  return b;
}
void Recorder::HistoryBegin(std::size_t id) {
  if (cur.active) {
    std::lock_guard g{m};
    protocol_error = "a history began inside another one";
  }
  cur = {};
  cur.active = true;
  cur.h.id = id;
  cur.h.thread = thread_id;
}
void Recorder::HistoryEnd(std::size_t id) {
  std::lock_guard g{m};
  if (!cur.active || cur.h.id != id || cur.in_track)
    protocol_error = "a history ended that was not running";
  cur.h.ended = true;
  done.push_back(std::move(cur.h));
  cur = {};
}
void Recorder::TransportBegin(const Particle& p) {
  if (!cur.active || cur.in_track) {
    std::lock_guard g{m};
    protocol_error = "a particle was transported outside a history";
    if (!cur.active) return;
  }
  cur.in_track = true;
  cur.h.tracks.emplace_back();
  cur.h.tracks.back().birth = MakeBirth(p, cells);
}
void Recorder::TransportEnd(const Particle&) {
  if (!cur.in_track) return;
  cur.in_track = false;
  cur.h.tracks.back().ended = true;
}
void Recorder::Step(const Particle& p) {
  if (!cur.in_track) {
    std::lock_guard g{m};
    protocol_error = "an event outside the transport of a particle";
    return;
  }
  auto& t = cur.h.tracks.back();
  t.steps.emplace_back();
  Ev& e = t.steps.back();
  e.pos = ToV3(p.GetPosition());
  e.dir = ToV3(p.GetDirection());
  e.energy = EnergyValue(p.GetEnergy());
  e.group = std::holds_alternative<Group>(p.GetEnergy());
  e.event = EventKind(p);
  const auto it = cells.find(&p.GetCell());
  e.cell = it == cells.end() ? -1 : it->second;
  const auto is = surfs.find(p.current_surface.get());
  e.surf = is == surfs.end() ? -1 : is->second;
  for (auto* q : perts) e.indirect.push_back(p.GetIndirectEffect(q));
  if (t.steps.size() > max_steps) {
    fprintf(stderr,
            "STUCK: a particle made %zu events in history %zu without ending; "
            "last: %s at (%.17g, %.17g, %.17g)\n",
            t.steps.size(), cur.h.id, EventName(e.event), e.pos.x, e.pos.y,
            e.pos.z);
    _exit(97);
  }
}
void Recorder::Secondary(const Particle&, const Particle& s) {
  if (!cur.in_track) {
    std::lock_guard g{m};
    protocol_error = "a secondary outside the transport of a particle";
    return;
  }
  auto& t = cur.h.tracks.back();
  t.secondaries.push_back(MakeBirth(s, cells));
  t.sec_at.push_back(t.steps.size());
}
std::vector<Hist>& Recorder::Done() {
  std::sort(done.begin(), done.end(),
            [](auto& a, auto& b) { return a.id < b.id; });
  return done;
}

Hist Recorder::TakeLast() {
  std::lock_guard g{m};
  Hist h;
  if (!done.empty()) {
    h = std::move(done.back());
    done.pop_back();
  }
  return h;
}

Single::Single(const Config& c, Case& k, const std::string& stem)
    : loaded{Load(c, k, stem)}, rec{std::make_unique<Recorder>(c, *loaded)},
      est{std::make_unique<EstimatorSet>(loaded->probe->Est())} {}
const Track& Single::Run(Particle p) {
  p.SetPerturbations(loaded->probe->Perts());
  auto proxy = est->GetProxy();
  rec->HistoryBegin(0);
  p.Transport(proxy, loaded->W());
  rec->HistoryEnd(0);
  last = rec->TakeLast();
  return last.tracks.at(0);
}

double Result::Mean(const std::string& n, size_t bin) const {
  return est->FindEstimatorByName(n).GetScore(bin, loaded->probe->batchsize);
}
Result
RunProblem(const Config& c, Case& k, const std::string& stem, bool record) {
  Result r;
  r.loaded = Load(c, k, stem);
  Quiet q;
  if (record) {
    Recorder rec{c, *r.loaded};
    r.est = std::make_unique<EstimatorSet>(r.loaded->probe->Solve());
    r.hist = std::move(rec.Done());
    r.protocol_error = rec.protocol_error;
  }
  else r.est = std::make_unique<EstimatorSet>(r.loaded->probe->Solve());
  return r;
}

// ---- output text -----------------------------------------------------------
static std::vector<std::string> SplitList(const std::string& line) {
  std::vector<std::string> v;
  std::string tok;
  std::stringstream s{line};
  while (std::getline(s, tok, ',')) {
    const auto a = tok.find_first_not_of(" \t");
    if (a == std::string::npos) continue;
    const auto b = tok.find_last_not_of(" \t");
    v.push_back(tok.substr(a, b - a + 1));
  }
  return v;
}
std::optional<std::vector<Block>>
ParseOutput(const std::string& text, std::string* why) {
  std::vector<std::string> lines;
  {
    std::stringstream s{text};
    std::string l;
    while (std::getline(s, l)) {
      while (!l.empty() && (l.back() == ' ' || l.back() == '\r')) l.pop_back();
      if (!l.empty()) lines.push_back(l);
    }
  }
  std::vector<Block> out;
  auto ruled = [&](size_t i, char c) {
    return i + 1 < lines.size() && lines[i + 1].size() == lines[i].size() &&
           lines[i + 1].find_first_not_of(c) == std::string::npos;
  };
  auto bad = [&](const std::string& w) {
    if (why) *why = w;
    return std::nullopt;
  };
  for (size_t i = 0; i < lines.size();) {
    if (ruled(i, '=')) {
      out.push_back({});
      out.back().name = lines[i];
      i += 2;
      continue;
    }
    if (out.empty()) return bad("text before the first name: " + lines[i]);
    if (!ruled(i, '-')) return bad("unexpected line: " + lines[i]);
    const std::string h = lines[i];
    i += 2;
    std::vector<std::string> v;
    if (i < lines.size() && !ruled(i, '-') && !ruled(i, '=')) {
      v = SplitList(lines[i]);
      i++;
    }
    auto& b = out.back();
    if (h == "cosine") b.cosine = v;
    else if (h == "energy") b.energy = v;
    else if (h == "mean") b.mean = v;
    else if (h == "std dev") b.sd = v;
    else return bad("unexpected heading: " + h);
  }
  for (auto& b : out) b.is_sensitivity = b.name.find("::") != std::string::npos;
  return out;
}

Config Infinite(double r) {
  Config c;
  Surf s;
  s.kind = Surf::Sphere;
  s.name = "s0";
  s.r = r;
  c.surfaces.push_back(s);
  CellCfg in, out;
  in.name = "in";
  in.material = 0;
  in.surfaces = {{0, -1}};
  out.is_void = true;
  out.surfaces = {{0, +1}};
  c.cells = {in, out};
  return c;
}

Config Transparent(Rng& r, bool continuous, const std::string& tracking, double* lo,
                   double* hi) {
  Config c = Infinite(LogU(r, 0.1, 100));
  const double R = c.surfaces[0].r;
  Surf plane;
  plane.kind = Surf::PlaneX;
  plane.name = "s1";
  plane.c.x = U(r, -0.8, 0.8) * R;
  c.surfaces.push_back(plane);
  CellCfg left = c.cells[0], right = c.cells[0];
  left.name = "left";
  right.name = "right";
  left.surfaces.push_back({1, -1});
  right.surfaces.push_back({1, +1});
  right.material = 1;
  c.cells = {left, right, c.cells[1]};
  c.tracking = tracking;
  c.src = {(plane.c.x + (B(r) ? 0.1 : -0.1) * R), 0, 0};
  const int nn = I(r, 1, 3);
  if (!continuous) {
    const int G = c.groups = I(r, 1, 4), g0 = I(r, 1, G);
    *lo = *hi = g0;
    for (int i = 0; i <= nn; i++) { // the last one absorbs everywhere
      const bool zero = i < nn;
      NuclideCfg n;
      n.name = fmt("nuc%d", i);
      MGData d;
      auto at = [&](int g) { return zero && g == g0 ? 0. : U(r, 0.2, 1) / R; };
      if (B(r, 0.9) || !zero) {
        d.capture.emplace();
        for (int g = 1; g <= G; g++) d.capture->push_back(at(g));
      }
      if (B(r, 0.7) || !d.capture) {
        d.scatter.emplace(G, std::vector<double>(G));
        for (int out = 0; out < G; out++)
          for (int in = 1; in <= G; in++) (*d.scatter)[out][in - 1] = at(in);
      }
      if (d.capture && B(r, 0.4)) {
        d.fission.emplace();
        d.nubar.emplace();
        d.chi.emplace(G, std::vector<double>(G));
        for (int g = 1; g <= G; g++) {
          d.fission->push_back(0.05 * at(g));
          d.nubar->push_back(U(r, 0, 2));
          for (int out = 0; out < G; out++) (*d.chi)[out][g - 1] = U(r, 0.1, 1);
        }
      }
      n.mg_neutron = d;
      c.nuclides.push_back(n);
    }
    c.energy = fmt("%d", B(r, 0.7) ? g0 : I(r, 1, G));
  }
  else {
    c.groups = 0;
    *lo = LogU(r, 1e-9, 1e-2);
    *hi = *lo * LogU(r, 1.5, 1e3);
    for (int i = 0; i <= nn; i++) {
      const bool zero = i < nn;
      NuclideCfg n;
      n.name = fmt("nuc%d", i);
      n.awr = LogU(r, 1, 240);
      CEData d;
      auto table = [&](double y) {
        Table1 t;
        t.x = {1e-12, *lo, std::sqrt(*lo * *hi), *hi, 20};
        for (double x : t.x)
          t.y.push_back(zero && x >= *lo && x <= *hi ? 0 : y * U(r, 0.3, 1) / R);
        return t;
      };
      d.capture = table(1);
      if (B(r)) d.scatter = table(1);
      if (B(r, 0.4)) {
        d.fission = table(0.2);
        d.nubar = table(2 * R);
      }
      std::vector<const Table1*> parts;
      for (auto* t : {&d.capture, &d.scatter, &d.fission})
        if (*t) parts.push_back(&**t);
      d.total = SumTables(parts);
      n.ce_neutron = d;
      c.nuclides.push_back(n);
    }
    c.energy = G17(B(r, 0.7) ? LogU(r, *lo, *hi) : LogU(r, 1e-10, 1));
  }
  c.temperature.kind = Field::Constant;
  if (continuous && B(r)) c.temperature.c = U(r, 50, 2000);
  for (int i = 0; i < 2; i++) {
    MaterialCfg m;
    m.name = fmt("mat%d", i);
    m.aden = LogU(r, 0.3, 5);
    for (int j = 0; j < nn; j++) m.nuclides.push_back({j, LogU(r, 0.01, 3)});
    if (i) m.nuclides.push_back({nn, U(r, 0.1, 1)});
    c.materials.push_back(m);
  }
  EstCfg e;
  e.name = "out";
  e.surface = 0;
  c.estimators.push_back(e);
  return c;
}

static uint64_t V(uint64_t h, V3 v) {
  return HashD(HashD(HashD(h, v.x), v.y), v.z);
}
static uint64_t Births(uint64_t h, const Birth& b) {
  return Mix(HashD(V(V(Mix(h, b.rng), b.pos), b.dir), b.energy),
             b.type * 8 + b.cell);
}
uint64_t HistPrint(const Hist& h, const std::vector<int>* surfaces) {
  uint64_t x = h.tracks.size();
  for (auto& t : h.tracks) {
    x = Births(x, t.birth);
    for (auto& e : t.steps)
      x = Mix(HashD(V(V(x, e.pos), e.dir), e.energy),
              e.event * 10000 + e.cell * 100 +
                  (surfaces && e.surf >= 0 ? surfaces->at(e.surf) : e.surf));
    for (auto& s : t.secondaries) x = Births(x, s);
  }
  return x;
}
size_t HistSteps(const Hist& h) {
  size_t n = 0;
  for (auto& t : h.tracks) n += t.steps.size();
  return n;
}
std::string HistTell(const Hist& a, const Hist& b) {
  if (a.tracks.size() != b.tracks.size())
    return fmt("%zu and %zu particles", a.tracks.size(), b.tracks.size());
  for (size_t i = 0; i < a.tracks.size(); i++) {
    auto &s = a.tracks[i].steps, &t = b.tracks[i].steps;
    for (size_t j = 0; j < std::min(s.size(), t.size()); j++)
      if (s[j].event != t[j].event || s[j].pos.x != t[j].pos.x ||
          s[j].pos.y != t[j].pos.y || s[j].pos.z != t[j].pos.z)
        return fmt("particle %zu event %zu is %s at (%.17g, %.17g, %.17g) and "
                   "%s at (%.17g, %.17g, %.17g)", i, j, EventName(s[j].event),
                   s[j].pos.x, s[j].pos.y, s[j].pos.z, EventName(t[j].event),
                   t[j].pos.x, t[j].pos.y, t[j].pos.z);
    if (s.size() != t.size())
      return fmt("particle %zu has %zu and %zu events", i, s.size(), t.size());
  }
  return "directions, energies or random states differ";
}

} // namespace mon
