// Runs the code under test and records what its observation points report.
#pragma once
#include "common.hpp"
#include "model.hpp"

#include "BasicTypes.hpp"
#include "Bins.hpp"
#include "CSGSurface.hpp"
#include "Cell.hpp"
#include "Estimator.hpp"
#include "FixedSource.hpp"
#include "Material.hpp"
#include "Nuclide.hpp"
#include "Particle.hpp"
#include "Perturbation.hpp"
#include "Source.hpp"
#include "TransportMethod.hpp"
#include "World.hpp"
#include "XMLDocument.hpp"
#include "pugixml.hpp"

#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>

namespace mon {

inline V3 ToV3(const Point& p) {
  return {p.Dot(Point{1, 0, 0}), p.Dot(Point{0, 1, 0}), p.Dot(Point{0, 0, 1})};
}
inline Point ToPt(V3 v) { return Point{v.x, v.y, v.z}; }
inline double EnergyValue(const Energy& e) {
  return std::holds_alternative<Group>(e) ? (double)std::get<Group>(e)
                                          : std::get<ContinuousEnergy>(e);
}
// the monitors' own names of events
enum EvKind { eBirth, eScatter, eCapture, eFission, eCross, eLeak, eVirtual, eOther };
int EventKind(const Particle& p);
const char* EventName(int e);
uint64_t RngPrint(const RNG& rng);

struct Birth {
  V3 pos, dir;
  double energy = 0;
  bool group = false;
  int type = 0;
  int event = eBirth;
  uint64_t rng = 0;
  int cell = -1; // cell it belongs to already, -1: none
  bool operator==(const Birth& o) const;
  bool operator<(const Birth& o) const;
};
struct Ev {
  V3 pos, dir;
  double energy = 0;
  bool group = false;
  int event = eBirth;
  int cell = -1; // index of the cell in the world
  int surf = -1; // index of the surface in the configuration
  std::vector<double> indirect;
};
struct Track {
  Birth birth;
  std::vector<Ev> steps;
  std::vector<Birth> secondaries;
  std::vector<size_t> sec_at; // number of steps done when it was banked
  bool ended = false;
};
struct Hist {
  size_t id = 0;
  std::vector<Track> tracks;
  bool ended = false;
  size_t thread = 0;
};

// The driver of a fixed source problem with its parts accessible
struct Probe : FixedSource {
  explicit Probe(const pugi::xml_node& root) : FixedSource{root} {}
  const World& W() const { return world; }
  const PerturbationSet& Perts() const { return perturbations; }
  unsigned Seed() const { return seed; }
  const EstimatorSet& Est() const { return init_estimator_set; }
};

struct Loaded {
  explicit Loaded(const std::string& path)
      : doc{std::make_unique<XMLDocument>(path)},
        probe{std::make_unique<Probe>(doc->root)} {}
  std::unique_ptr<XMLDocument> doc;
  std::unique_ptr<Probe> probe;
  const World& W() const { return probe->W(); }
};
std::unique_ptr<Loaded> Load(const Config& c, Case& k,
                             const std::string& stem = "problem");

// Records histories. Thread safe.
class Recorder : public Observer {
public:
  Recorder(const Config& c, const Loaded& l);
  ~Recorder() override;
  void HistoryBegin(std::size_t) override;
  void HistoryEnd(std::size_t) override;
  void TransportBegin(const Particle&) override;
  void TransportEnd(const Particle&) override;
  void Step(const Particle&) override;
  void Secondary(const Particle&, const Particle&) override;
  // sorted by id
  std::vector<Hist>& Done();
  Hist TakeLast(); // the history that ended last, removed
  size_t max_steps = 3000000; // per particle
  std::string protocol_error; // hooks called in an impossible order

private:
  std::unordered_map<const Cell*, int> cells;
  std::unordered_map<const CSGSurface*, int> surfs;
  std::vector<const Perturbation*> perts;
  const Config& c;
  std::mutex m;
  std::vector<Hist> done;
};

struct Result {
  std::unique_ptr<Loaded> loaded;
  std::vector<Hist> hist;
  std::unique_ptr<EstimatorSet> est;
  std::string protocol_error;
  double Mean(const std::string& est_name, size_t bin) const;
};
// write, load, solve, record
Result RunProblem(const Config& c, Case& k, const std::string& stem = "problem",
                  bool record = true);

// Transports single particles of the caller's choice, without their
// secondaries, and records them. The seeds of a run's histories are
// consecutive numbers, which the code's generator turns into correlated
// streams; statistical monitors use well spread seeds instead.
class Single {
public:
  Single(const Config& c, Case& k, const std::string& stem = "problem");
  // the track is valid until the next call
  const Track& Run(Particle p);
  const Loaded& L() const { return *loaded; }
  Recorder& Rec() { return *rec; }

private:
  std::unique_ptr<Loaded> loaded;
  std::unique_ptr<Recorder> rec;
  std::unique_ptr<EstimatorSet> est;
  Hist last;
};

// What EstimatorSet::to_string() says, parsed.
struct Block {
  std::string name;
  std::vector<std::string> cosine, energy, mean, sd; // as written
  bool is_sensitivity = false;
};
// nullopt if the text does not have the expected structure
std::optional<std::vector<Block>> ParseOutput(
    const std::string& text, std::string* why = nullptr);

// A single-cell multigroup or continuous problem filling all space: one
// sphere of radius `r` around the origin, material 0 inside and outside.
Config Infinite(double r = 1e6);
// Two cells and outside void; material 0 (cell "left") has a total cross
// section of zero for neutrons of energy in [*lo, *hi] (of group *lo).
Config Transparent(Rng& r, bool continuous, const std::string& tracking, double* lo,
                   double* hi);
void ScratchDir(Case& k, std::filesystem::path& dir);

// A value which identifies all that was recorded of a history; `surfaces` maps
// the numbers of surfaces to others
uint64_t HistPrint(const Hist& h, const std::vector<int>* surfaces = nullptr);
size_t HistSteps(const Hist& h);
// Where two histories differ
std::string HistTell(const Hist& a, const Hist& b);
} // namespace mon
