// Descriptions of problems, their XML form, random generation, and a reference
// geometry that is independent of the code under test.
#pragma once
#include "common.hpp"

#include <array>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace mon {

using quad = __float128;
quad qsqrt(quad x);
inline quad qabs(quad x) { return x < 0 ? -x : x; }

struct V3 {
  double x = 0, y = 0, z = 0;
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(double s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline double Dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 Cross(V3 a, V3 b) {
  return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x};
}
inline double Norm(V3 a) { return std::sqrt(Dot(a, a)); }
inline V3 Unit(V3 a) { return (1 / Norm(a)) * a; }
V3 RandDir(Rng& r);
// sometimes axis parallel, nearly axis parallel, or in a coordinate plane
V3 RandDirSpecial(Rng& r);

struct Surf {
  enum Kind { Sphere, PlaneX, CylinderX } kind = Sphere;
  std::string name;
  V3 c;         // centre of sphere; c.x of the plane
  double r = 1; // radius
};
struct Crossing {
  quad t = -1;     // distance, <0: none
  quad t2 = -1;    // next crossing, <0: none
  bool ambiguous = false; // too close to tangency/origin to be decided
};
// exact inside/outside and forward crossings of the doubles given
bool RefInside(const Surf& s, V3 p);
// distance of p to the surface, positive outside
double RefSigned(const Surf& s, V3 p);
// crossings at distance > tmin
Crossing RefCross(const Surf& s, V3 p, V3 d, double tmin = 0);

struct CellCfg {
  bool is_void = false;
  std::string name;
  int material = -1;
  std::optional<double> temperature;
  std::vector<std::pair<int, int>> surfaces; // index, sense (-1 inside, +1)
};
struct MGData {
  std::optional<std::vector<double>> capture;
  std::optional<std::vector<std::vector<double>>> scatter; // [out][in]
  std::optional<std::vector<double>> fission, nubar;
  std::optional<std::vector<std::vector<double>>> chi; // [out][in]
  double Scat(int g) const; // column sum (0 based)
  double Tot(int g) const;
};
struct Table1 {
  std::vector<double> x, y;
  double At(double v) const; // linear, clamped
};
struct TSLBetaPart {
  std::vector<double> F, E, T, S;
  std::vector<double> cdf_modes; // [F][order]
  std::vector<double> e_t_modes; // [E][T][order]
  double Value(int iF, int iE, int iT) const;
  double Value(int iF, int iE, double T) const;
};
struct TSL {
  Table1 majorant;
  std::vector<double> E, T, S;     // total grid
  std::vector<double> modes_E, modes_T; // [E][order], [T][order]
  std::vector<TSLBetaPart> beta, alpha; // alpha: "E" are betas
  double beta_cutoff = 20, alpha_cutoff = 1000;
  double Recon(int iE, int iT) const;
  double Total(double E, double T) const;
};
struct CEData {
  std::optional<Table1> total, capture, scatter, fission, nubar;
  double T_total = 293.6, T_capture = 293.6, T_scatter = 293.6,
         T_fission = 293.6;
  std::optional<TSL> tsl;
};
struct NuclideCfg {
  std::string name;
  double awr = 1;
  std::optional<MGData> mg_neutron, mg_photon;
  std::optional<CEData> ce_neutron, ce_photon;
};
struct MaterialCfg {
  std::string name;
  double aden = 1;
  std::vector<std::pair<int, double>> nuclides;
};
struct BinsCfg {
  enum Kind { None, Lin, Log, Bounds } kind = None;
  double lo = 0, hi = 1;
  int n = 1;
  std::optional<double> base;
  std::vector<double> bounds;
  std::vector<double> Boundaries() const; // as real values
  int Size() const;
};
struct EstCfg {
  std::string name;
  int surface = 0;
  BinsCfg cosine, energy;
  V3 ref{1, 0, 0};
  std::vector<std::string> sensitivities;
};
struct Field {
  enum Kind { Absent, Constant, Linear } kind = Absent;
  double c = 293.6, b = 0, lo = 0, hi = 0;
  V3 g;
  double At(V3 p) const;
};
struct Config {
  std::vector<std::string> particles{"neutron"};
  int histories = 100, threads = 1, chunksize = 100;
  std::optional<int> seed;
  std::string tracking; // "", "surface", "cell delta"
  int groups = 1;       // 0: continuous
  std::vector<NuclideCfg> nuclides;
  std::vector<MaterialCfg> materials;
  std::vector<Surf> surfaces;
  std::vector<CellCfg> cells;
  Field temperature;
  V3 src;
  std::string dir_kind = "isotropic"; // constant, isotropic, isotropic-flux
  V3 dir{1, 0, 0};
  std::string energy = "1";
  std::string particle = "neutron";
  std::vector<EstCfg> estimators;
  std::vector<std::pair<std::string, int>> perturbations; // name, nuclide
  uint64_t style = 0; // how the XML is spelled (0: plainly)
  bool reorder_reactions = true; // of continuous data, if spelled otherwise
  int surf(const std::string& name) const;
  int cell(const std::string& name) const;
};
// Writes data files (if continuous) and the XML into `dir`, with the schema
// copied from /repo/test; returns the path of the XML.
std::string WriteProblem(
    const Config& c, const std::filesystem::path& dir,
    const std::string& stem = "problem");
std::string ToXML(const Config& c, const std::string& data_prefix);
// The same document in another spelling: order of attributes and of unordered
// elements, numerals, white space, comments, quotes, references, encoding.
std::string Restyle(const std::string& xml, uint64_t style, bool reactions);
void WriteSchemas(const std::filesystem::path& dir);

// ---- HDF5 in the layout the code reads ------------------------------------
void WriteH5(
    const std::string& file, const std::vector<std::vector<double>>& axes,
    const std::vector<double>& values);

// ---- generators ------------------------------------------------------------
struct GenOpt {
  double scale = 1;       // length scale
  int min_surfaces = 1, max_surfaces = 4;
  bool fission = true;
  bool scatter = true;
  bool photon = false;    // declare photons too
  int max_groups = 4;
  bool voids = true;
  bool estimators = true;
  bool sensitivities = false;
  bool big_offset = false; // geometry far from the origin
  bool linear_temperature = false;
  bool tsl = false;
  double density = 1; // factor on number densities
  bool large = true;  // occasionally very many surfaces, nuclides and groups
  bool names = true;  // occasionally names that are easily confused
  bool units = true;  // occasionally cross sections of another scale
};
// Cells that tile all space, from a random binary tree over random surfaces.
void GenGeometry(Config& c, Rng& r, const GenOpt& o);
void GenMGData(Config& c, Rng& r, const GenOpt& o);
void GenSource(Config& c, Rng& r, const GenOpt& o);
void GenEstimators(Config& c, Rng& r, const GenOpt& o);
// continuous-energy data, free gas (tsl: with a thermal scattering law for some)
void GenCEData(Config& c, Rng& r, const GenOpt& o);
// used in cells of these temperatures
TSL GenTSL(Rng& r, double cutoff_E, double awr, double T_lowest = 150,
           double T_highest = 5000);
Table1 SumTables(const std::vector<const Table1*>& t);
// a runnable continuous-energy fixed source problem
Config GenCE(Rng& r, const GenOpt& o);
// everything: a runnable multigroup fixed source problem
Config GenMG(Rng& r, const GenOpt& o);
BinsCfg GenBins(Rng& r, double lo, double hi);

// ---- reference geometry over a config --------------------------------------
bool RefCellContains(const Config& c, const CellCfg& cell, V3 p);
// index of first containing cell, -1 if none
int RefFindCell(const Config& c, V3 p);
// smallest |distance| of p to any of the cell's surfaces
double RefMargin(const Config& c, const CellCfg& cell, V3 p);
std::string Describe(const Config& c);
uint64_t HashConfig(const Config& c);

} // namespace mon
