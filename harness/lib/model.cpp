#include "model.hpp"

#include "H5Cpp.h"

#include <algorithm>
#include <fstream>
#include <numeric>
#include <quadmath.h>
#include <sstream>
#include <stdexcept>

namespace mon {

quad qsqrt(quad x) { return sqrtq(x); }

V3 RandDir(Rng& r) {
  for (;;) {
    V3 v{U(r, -1, 1), U(r, -1, 1), U(r, -1, 1)};
    const double n = Norm(v);
    if (n > 0.05 && n < 1) return Unit(v);
  }
}
V3 RandDirSpecial(Rng& r) {
  switch (I(r, 0, 9)) {
  case 0: {
    V3 v;
    (&v.x)[I(r, 0, 2)] = B(r) ? 1 : -1;
    return v;
  }
  case 1: { // nearly along an axis
    V3 v{LogU(r, 1e-9, 1e-2) * (B(r) ? 1 : -1),
         LogU(r, 1e-9, 1e-2) * (B(r) ? 1 : -1),
         LogU(r, 1e-9, 1e-2) * (B(r) ? 1 : -1)};
    (&v.x)[I(r, 0, 2)] = B(r) ? 1 : -1;
    return Unit(v);
  }
  case 2: { // in a coordinate plane
    V3 v = RandDir(r);
    (&v.x)[I(r, 0, 2)] = 0;
    return Unit(v);
  }
  case 3: { // x near the frame switch of 0.9
    const double x = (B(r) ? 1 : -1) * (0.9 + (B(r) ? 0 : U(r, -1e-3, 1e-3)));
    const double s = std::sqrt(1 - x * x), ph = U(r, 0, 2 * M_PI);
    return {x, s * std::cos(ph), s * std::sin(ph)};
  }
  default: return RandDir(r);
  }
}

// ---- reference geometry ----------------------------------------------------
bool RefInside(const Surf& s, V3 p) {
  const quad x = (quad)p.x - s.c.x, y = (quad)p.y - s.c.y,
             z = (quad)p.z - s.c.z;
  switch (s.kind) {
  case Surf::Sphere: return x * x + y * y + z * z < (quad)s.r * s.r;
  case Surf::PlaneX: return p.x < s.c.x;
  case Surf::CylinderX:
    return (quad)p.y * p.y + (quad)p.z * p.z < (quad)s.r * s.r;
  }
  return false;
}
double RefSigned(const Surf& s, V3 p) {
  const quad x = (quad)p.x - s.c.x, y = (quad)p.y - s.c.y,
             z = (quad)p.z - s.c.z;
  switch (s.kind) {
  case Surf::Sphere: return (double)(qsqrt(x * x + y * y + z * z) - s.r);
  case Surf::PlaneX: return (double)x;
  case Surf::CylinderX:
    return (double)(qsqrt((quad)p.y * p.y + (quad)p.z * p.z) - s.r);
  }
  return 0;
}
Crossing RefCross(const Surf& s, V3 p, V3 d, double tmin) {
  Crossing r;
  if (s.kind == Surf::PlaneX) {
    if (d.x != 0) {
      const quad t = ((quad)s.c.x - p.x) / d.x;
      if (t > tmin) r.t = t;
    }
    return r;
  }
  const bool sph = s.kind == Surf::Sphere;
  const quad x = sph ? (quad)p.x - s.c.x : 0,
             y = (quad)p.y - (sph ? s.c.y : 0),
             z = (quad)p.z - (sph ? s.c.z : 0);
  const quad dx = sph ? d.x : 0, dy = d.y, dz = d.z;
  const quad a = dx * dx + dy * dy + dz * dz, b = x * dx + y * dy + z * dz,
             c = x * x + y * y + z * z - (quad)s.r * s.r;
  if (a == 0) return r;
  // closest approach and its distance from tangency
  const quad disc = b * b - a * c;
  // impact parameter^2 = |o|^2 - b^2/a ; tangency when it equals r^2
  const quad tang = qabs(disc) / (a * (quad)s.r * s.r);
  const quad o2 = x * x + y * y + z * z;
  // doubles cannot resolve tangency better than ~eps*|o|^2/r^2
  if (tang < 1e-13 * (1 + o2 / ((quad)s.r * s.r)) * 16) r.ambiguous = true;
  if (disc <= 0) return r;
  const quad sq = qsqrt(disc);
  const quad t1 = b > 0 ? (-b - sq) / a : c / (-b + sq),
             t2 = b > 0 ? c / (-b - sq) : (-b + sq) / a;
  if (t1 > tmin) {
    r.t = t1;
    r.t2 = t2;
  }
  else if (t2 > tmin) r.t = t2;
  return r;
}

// ---- data ------------------------------------------------------------------
double MGData::Scat(int g) const {
  double s = 0;
  if (scatter)
    for (auto& row : *scatter) s += row[g];
  return s;
}
double MGData::Tot(int g) const {
  return (capture ? (*capture)[g] : 0) + Scat(g) + (fission ? (*fission)[g] : 0);
}
double Table1::At(double v) const {
  if (v <= x.front()) return y.front();
  if (v >= x.back()) return y.back();
  size_t i = 1;
  while (x[i] <= v) i++;
  const long double f = ((long double)v - x[i - 1]) / ((long double)x[i] - x[i - 1]);
  return (double)((1 - f) * y[i - 1] + f * y[i]);
}
double TSLBetaPart::Value(int iF, int iE, int iT) const {
  double s = 0;
  const size_t K = S.size();
  for (size_t k = 0; k < K; k++)
    s += S[k] * cdf_modes[iF * K + k] * e_t_modes[(iE * T.size() + iT) * K + k];
  return s;
}
double TSLBetaPart::Value(int iF, int iE, double t) const {
  if (t <= T.front() || T.size() == 1) return Value(iF, iE, 0);
  int hi = std::upper_bound(T.begin(), T.end(), t) - T.begin();
  hi = std::min<int>(hi, T.size() - 1);
  const double f = (t - T[hi - 1]) / (T[hi] - T[hi - 1]);
  return (1 - f) * Value(iF, iE, hi - 1) + f * Value(iF, iE, hi);
}
double TSL::Recon(int iE, int iT) const {
  double s = 0;
  const size_t K = S.size();
  for (size_t k = 0; k < K; k++) s += S[k] * modes_E[iE * K + k] * modes_T[iT * K + k];
  return s;
}
double TSL::Total(double e, double t) const {
  auto bracket = [](const std::vector<double>& g, double v, int& lo, int& hi) {
    if (v <= g.front()) {
      lo = hi = 0;
      return 0.;
    }
    if (v >= g.back()) {
      lo = hi = g.size() - 1;
      return 0.;
    }
    hi = std::upper_bound(g.begin(), g.end(), v) - g.begin();
    lo = hi - 1;
    return (v - g[lo]) / (g[hi] - g[lo]);
  };
  int el, eh, tl, th;
  const double fe = bracket(E, e, el, eh), ft = bracket(T, t, tl, th);
  return (1 - fe) * ((1 - ft) * Recon(el, tl) + ft * Recon(el, th)) +
         fe * ((1 - ft) * Recon(eh, tl) + ft * Recon(eh, th));
}
std::vector<double> BinsCfg::Boundaries() const {
  std::vector<double> b;
  if (kind == Lin)
    for (int i = 0; i <= n; i++) // both ends as given
      b.push_back(i == n ? hi : lo + (hi - lo) * i / n);
  else if (kind == Log)
    for (int i = 0; i <= n; i++)
      b.push_back(std::pow(base.value_or(10), lo + (hi - lo) * i / n));
  else if (kind == Bounds) b = bounds;
  return b;
}
int BinsCfg::Size() const {
  return kind == None ? 1 : kind == Bounds ? (int)bounds.size() + 1 : n + 2;
}
double Field::At(V3 p) const {
  switch (kind) {
  case Absent: return 293.6;
  case Constant: return c;
  case Linear:
    return (double)((quad)g.x * p.x + (quad)g.y * p.y + (quad)g.z * p.z + b);
  }
  return 0;
}
int Config::surf(const std::string& name) const {
  for (size_t i = 0; i < surfaces.size(); i++)
    if (surfaces[i].name == name) return i;
  return -1;
}
int Config::cell(const std::string& name) const {
  for (size_t i = 0; i < cells.size(); i++)
    if (cells[i].name == name) return i;
  return -1;
}

// ---- XML -------------------------------------------------------------------
static std::string List(const std::vector<double>& v) {
  std::string s;
  for (double x : v) s += (s.empty() ? "" : " ") + G17(x);
  return s;
}
static std::string Mat(const std::vector<std::vector<double>>& m) {
  std::string s;
  for (auto& row : m) s += List(row) + "\n";
  return s;
}
static std::string Attr(const char* n, double v) {
  return std::string{" "} + n + "=\"" + G17(v) + "\"";
}
static std::string Pt(const char* tag, V3 p) {
  return std::string{"<"} + tag + Attr("x", p.x) + Attr("y", p.y) +
         Attr("z", p.z) + "/>";
}
static std::string BinX(const BinsCfg& b) {
  switch (b.kind) {
  case BinsCfg::Lin:
    return "<linspace" + Attr("min", b.lo) + Attr("max", b.hi) +
           fmt(" bins=\"%d\"/>", b.n);
  case BinsCfg::Log:
    return "<logspace" + Attr("min", b.lo) + Attr("max", b.hi) +
           fmt(" bins=\"%d\"", b.n) + (b.base ? Attr("base", *b.base) : "") +
           "/>";
  case BinsCfg::Bounds: return "<boundaries>" + List(b.bounds) + "</boundaries>";
  default: return "";
  }
}
static std::string Esc(const std::string& s) {
  std::string t;
  for (char c : s)
    if (c == '&') t += "&amp;";
    else if (c == '<') t += "&lt;";
    else if (c == '"') t += "&quot;";
    else t += c;
  return t;
}
std::string ToXML(const Config& c, const std::string& P) {
  std::string s;
  s += "<minimc xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" "
       "xsi:noNamespaceSchemaLocation=\"minimc.xsd\">\n<general>\n<particles>";
  for (size_t i = 0; i < c.particles.size(); i++)
    s += (i ? " " : "") + c.particles[i];
  s += "</particles>\n";
  s += fmt("<histories>%d</histories>\n<threads>%d</threads>\n"
           "<chunksize>%d</chunksize>\n", c.histories, c.threads, c.chunksize);
  if (c.seed) s += fmt("<seed>%d</seed>\n", *c.seed);
  if (!c.tracking.empty()) s += "<tracking>" + c.tracking + "</tracking>\n";
  s += "</general>\n<nuclides>\n";
  s += c.groups ? fmt("<multigroup groups=\"%d\">\n", c.groups)
                : std::string{"<continuous>\n"};
  for (size_t ni = 0; ni < c.nuclides.size(); ni++) {
    const auto& n = c.nuclides[ni];
    s += "<nuclide name=\"" + Esc(n.name) + "\"" +
         (c.groups ? "" : Attr("awr", n.awr)) + ">\n";
    auto mg = [&](const char* p, const MGData& d) {
      s += std::string{"<"} + p + ">\n";
      if (d.capture) s += "<capture>" + List(*d.capture) + "</capture>\n";
      if (d.scatter) s += "<scatter>" + Mat(*d.scatter) + "</scatter>\n";
      if (d.fission)
        s += "<fission><xs>" + List(*d.fission) + "</xs><nubar>" +
             List(*d.nubar) + "</nubar><chi>" + Mat(*d.chi) +
             "</chi></fission>\n";
      s += std::string{"</"} + p + ">\n";
    };
    auto ce = [&](const char* p, const CEData& d) {
      const std::string pre = Esc(P) + fmt("n%zu_%s_", ni, p);
      auto ev = [&](const char* tag, const char* f, double T) {
        return std::string{"<"} + tag + " file=\"" + pre + f + ".h5\"" +
               Attr("temperature", T) + "/>\n";
      };
      s += std::string{"<"} + p + ">\n";
      if (d.total) s += ev("total", "total", d.T_total);
      if (d.capture) s += ev("capture", "capture", d.T_capture);
      if (d.scatter) {
        s += "<scatter>\n" + ev("xs", "scatter", d.T_scatter);
        if (d.tsl) {
          auto F = [&](const std::string& f) { return "\"" + pre + f + ".h5\""; };
          s += "<tsl majorant=" + F("tslmaj") + " total_E=" + F("tslE") +
               " total_T=" + F("tslT") + " total_S=" + F("tslS") +
               Attr("beta_cutoff", d.tsl->beta_cutoff) +
               Attr("alpha_cutoff", d.tsl->alpha_cutoff) + ">\n";
          s += "<beta_partitions>\n";
          for (size_t i = 0; i < d.tsl->beta.size(); i++)
            s += "<partition CDF=" + F(fmt("b%zuF", i)) + " S=" +
                 F(fmt("b%zuS", i)) + " E_T=" + F(fmt("b%zuM", i)) + "/>\n";
          s += "</beta_partitions>\n<alpha_partitions>\n";
          for (size_t i = 0; i < d.tsl->alpha.size(); i++)
            s += "<partition CDF=" + F(fmt("a%zuF", i)) + " S=" +
                 F(fmt("a%zuS", i)) + " beta_T=" + F(fmt("a%zuM", i)) + "/>\n";
          s += "</alpha_partitions>\n</tsl>\n";
        }
        s += "</scatter>\n";
      }
      if (d.fission) {
        s += "<fission>\n" + ev("xs", "fission", d.T_fission);
        if (d.nubar) s += ev("nubar", "nubar", d.T_fission);
        s += "</fission>\n";
      }
      s += std::string{"</"} + p + ">\n";
    };
    if (n.mg_neutron) mg("neutron", *n.mg_neutron);
    if (n.mg_photon) mg("photon", *n.mg_photon);
    if (n.ce_neutron) ce("neutron", *n.ce_neutron);
    if (n.ce_photon) ce("photon", *n.ce_photon);
    s += "</nuclide>\n";
  }
  s += c.groups ? "</multigroup>\n" : "</continuous>\n";
  s += "</nuclides>\n<materials>\n";
  for (auto& m : c.materials) {
    s += "<material name=\"" + Esc(m.name) + "\"" + Attr("aden", m.aden) + ">\n";
    for (auto& [i, f] : m.nuclides)
      s += "<nuclide name=\"" + Esc(c.nuclides[i].name) + "\"" + Attr("afrac", f) +
           "/>\n";
    s += "</material>\n";
  }
  s += "</materials>\n<surfaces>\n";
  for (auto& f : c.surfaces) {
    if (f.kind == Surf::Sphere)
      s += "<sphere name=\"" + Esc(f.name) + "\">" + Pt("center", f.c) + "<radius" +
           Attr("r", f.r) + "/></sphere>\n";
    else if (f.kind == Surf::PlaneX)
      s += "<planex name=\"" + Esc(f.name) + "\"" + Attr("x", f.c.x) + "/>\n";
    else
      s += "<cylinderx name=\"" + Esc(f.name) + "\"" + Attr("r", f.r) + "/>\n";
  }
  s += "</surfaces>\n<cells>\n";
  for (auto& k : c.cells) {
    if (k.is_void) s += "<void>";
    else
      s += "<cell name=\"" + Esc(k.name) + "\" material=\"" +
           Esc(c.materials[k.material].name) + "\"" +
           (k.temperature ? Attr("temperature", *k.temperature) : "") + ">";
    for (auto& [i, se] : k.surfaces)
      s += "<surface name=\"" + Esc(c.surfaces[i].name) + "\" sense=\"" +
           (se < 0 ? "-1" : "+1") + "\"/>";
    s += k.is_void ? "</void>\n" : "</cell>\n";
  }
  s += "</cells>\n";
  if (c.temperature.kind == Field::Constant)
    s += "<temperature><constant" + Attr("c", c.temperature.c) +
         "/></temperature>\n";
  else if (c.temperature.kind == Field::Linear)
    s += "<temperature><linear><bounds" + Attr("lower", c.temperature.lo) +
         Attr("upper", c.temperature.hi) + "/><intercept" +
         Attr("b", c.temperature.b) + "/>" + Pt("gradient", c.temperature.g) +
         "</linear></temperature>\n";
  s += "<problemtype><fixedsource><position>" + Pt("constant", c.src) +
       "</position><direction>" +
       (c.dir_kind == "isotropic" ? "<isotropic/>"
                                  : Pt(c.dir_kind.c_str(), c.dir)) +
       "</direction><energy><constant energy=\"" + c.energy +
       "\"/></energy><particletype><constant type=\"" + c.particle +
       "\"/></particletype></fixedsource></problemtype>\n";
  if (!c.estimators.empty()) {
    s += "<estimators>\n";
    for (auto& e : c.estimators) {
      s += "<current name=\"" + Esc(e.name) + "\" surface=\"" +
           Esc(c.surfaces[e.surface].name) + "\">\n";
      if (e.cosine.kind || e.energy.kind) {
        s += "<bins>";
        if (e.energy.kind) s += "<energy>" + BinX(e.energy) + "</energy>";
        if (e.cosine.kind)
          s += "<cosine" + Attr("u", e.ref.x) + Attr("v", e.ref.y) +
               Attr("w", e.ref.z) + ">" + BinX(e.cosine) + "</cosine>";
        s += "</bins>\n";
      }
      if (!e.sensitivities.empty()) {
        s += "<sensitivities>";
        for (auto& n : e.sensitivities)
          s += "<perturbation name=\"" + Esc(n) + "\"/>";
        s += "</sensitivities>\n";
      }
      s += "</current>\n";
    }
    s += "</estimators>\n";
  }
  if (!c.perturbations.empty()) {
    s += "<perturbations>\n";
    for (auto& [n, i] : c.perturbations)
      s += "<total name=\"" + Esc(n) + "\" nuclide=\"" + Esc(c.nuclides[i].name) +
           "\"/>\n";
    s += "</perturbations>\n";
  }
  s += "</minimc>\n";
  return s;
}

void WriteH5(
    const std::string& file, const std::vector<std::vector<double>>& axes,
    const std::vector<double>& values) {
  H5::H5File f(file, H5F_ACC_TRUNC);
  auto g = f.createGroup("/pandas");
  const unsigned long long n = axes.size();
  g.createAttribute("axis1_nlevels", H5::PredType::NATIVE_ULLONG,
                    H5::DataSpace(H5S_SCALAR))
      .write(H5::PredType::NATIVE_ULLONG, &n);
  for (size_t i = 0; i < axes.size(); i++) {
    const hsize_t d = axes[i].size();
    auto ds = g.createDataSet(fmt("axis1_level%zu", i),
                              H5::PredType::NATIVE_DOUBLE,
                              H5::DataSpace(1, &d));
    if (d) ds.write(axes[i].data(), H5::PredType::NATIVE_DOUBLE);
  }
  const hsize_t dims[2] = {values.size(), 1};
  g.createDataSet("block0_values", H5::PredType::NATIVE_DOUBLE,
                  H5::DataSpace(2, dims))
      .write(values.data(), H5::PredType::NATIVE_DOUBLE);
}
static std::vector<double> Count(size_t n) {
  std::vector<double> v(n);
  std::iota(v.begin(), v.end(), 0);
  return v;
}

void WriteSchemas(const std::filesystem::path& dir) {
  namespace fs = std::filesystem;
  for (const char* f : {"minimc.xsd", "minimc_basictypes.xsd"})
    fs::copy_file(std::string{REPO_DIR "/test/"} + f, dir / f,
                  fs::copy_options::overwrite_existing);
}
std::string WriteProblem(
    const Config& c, const std::filesystem::path& dir,
    const std::string& stem) {
  WriteSchemas(dir);
  const std::string pre = (dir / (stem + "_")).string();
  for (size_t ni = 0; ni < c.nuclides.size(); ni++) {
    auto ce = [&](const char* p, const CEData& d) {
      const std::string q = pre + fmt("n%zu_%s_", ni, p);
      auto w1 = [&](const char* n, const std::optional<Table1>& t) {
        if (t) WriteH5(q + n + ".h5", {t->x}, t->y);
      };
      w1("total", d.total);
      w1("capture", d.capture);
      w1("scatter", d.scatter);
      w1("fission", d.fission);
      w1("nubar", d.nubar);
      if (d.tsl) {
        const auto& t = *d.tsl;
        WriteH5(q + "tslmaj.h5", {t.majorant.x}, t.majorant.y);
        const auto K = Count(t.S.size());
        WriteH5(q + "tslE.h5", {t.E, K}, t.modes_E);
        WriteH5(q + "tslT.h5", {t.T, K}, t.modes_T);
        WriteH5(q + "tslS.h5", {K}, t.S);
        for (int ab = 0; ab < 2; ab++) {
          const auto& parts = ab ? t.alpha : t.beta;
          for (size_t i = 0; i < parts.size(); i++) {
            const auto& b = parts[i];
            const auto k = Count(b.S.size());
            const std::string n = q + fmt("%c%zu", ab ? 'a' : 'b', i);
            WriteH5(n + "F.h5", {b.F, k}, b.cdf_modes);
            WriteH5(n + "S.h5", {k}, b.S);
            WriteH5(n + "M.h5", {b.E, b.T, k}, b.e_t_modes);
          }
        }
      }
    };
    if (c.nuclides[ni].ce_neutron) ce("neutron", *c.nuclides[ni].ce_neutron);
    if (c.nuclides[ni].ce_photon) ce("photon", *c.nuclides[ni].ce_photon);
  }
  const std::string path = (dir / (stem + ".xml")).string();
  const auto xml = ToXML(c, pre);
  std::ofstream{path} << (c.style ? Restyle(xml, c.style, c.reorder_reactions) : xml);
  return path;
}

// ---- reference cells -------------------------------------------------------
bool RefCellContains(const Config& c, const CellCfg& cell, V3 p) {
  for (auto& [i, s] : cell.surfaces)
    if (RefInside(c.surfaces[i], p) != (s < 0)) return false;
  return true;
}
int RefFindCell(const Config& c, V3 p) {
  for (size_t i = 0; i < c.cells.size(); i++)
    if (RefCellContains(c, c.cells[i], p)) return i;
  return -1;
}
double RefMargin(const Config& c, const CellCfg& cell, V3 p) {
  double m = 1e300;
  for (auto& [i, s] : cell.surfaces)
    m = std::min(m, std::abs(RefSigned(c.surfaces[i], p)));
  return m;
}

// ---- generators ------------------------------------------------------------
static double Round(Rng& r, double v) {
  // sometimes a round number, so that special values are hit
  return B(r, 0.25) ? std::round(v * 4) / 4 : v;
}
// Hundreds of cells: slabs, or pebbles in a cell that all of them bound
static void GenMany(Config& c, Rng& r, const GenOpt& o) {
  const V3 off = o.big_offset ? (o.scale * LogU(r, 1, 1e4)) * RandDir(r) : V3{};
  auto sphere = [&](V3 centre, double radius) {
    Surf s;
    s.kind = Surf::Sphere;
    s.name = fmt("s%zu", c.surfaces.size());
    s.c = centre;
    s.r = radius;
    c.surfaces.push_back(s);
    return (int)c.surfaces.size() - 1;
  };
  auto cell = [&](std::vector<std::pair<int, int>> surfaces, bool is_void) {
    CellCfg k;
    std::shuffle(surfaces.begin(), surfaces.end(), r);
    k.surfaces = surfaces;
    k.is_void = is_void;
    k.name = is_void ? "" : fmt("c%zu", c.cells.size());
    c.cells.push_back(k);
  };
  const double R = o.scale * U(r, 1, 3);
  const int n = I(r, 20, 300);
  if (B(r)) {
    const int outer = sphere(off, R);
    std::vector<int> planes;
    for (int i = 0; i < n; i++) {
      Surf s;
      s.kind = Surf::PlaneX;
      s.name = fmt("s%zu", c.surfaces.size());
      s.c.x = off.x - R + 2 * R * (i + U(r, 0.3, 0.7)) / n;
      planes.push_back(c.surfaces.size());
      c.surfaces.push_back(s);
    }
    for (int i = 0; i <= n; i++) {
      std::vector<std::pair<int, int>> b{{outer, -1}};
      if (i) b.push_back({planes[i - 1], +1});
      if (i < n) b.push_back({planes[i], -1});
      cell(b, i && o.voids && B(r, 0.02));
    }
    cell({{outer, +1}}, o.voids);
  }
  else {
    const int m = (int)std::ceil(std::cbrt(n));
    const double pitch = 1.1 * R / m;
    std::vector<std::pair<int, int>> matrix;
    for (int i = 0; i < n; i++)
      matrix.push_back(
          {sphere(off + pitch * V3{i % m - (m - 1) / 2., i / m % m - (m - 1) / 2.,
                                   i / m / m - (m - 1) / 2.},
                  pitch * U(r, 0.2, 0.48)),
           +1});
    for (auto& [s, sense] : std::vector<std::pair<int, int>>(matrix))
      cell({{s, -1}}, o.voids && B(r, 0.02));
    const int outer = sphere(off, R);
    matrix.push_back({outer, -1});
    cell(matrix, false);
    cell({{outer, +1}}, o.voids);
  }
  std::shuffle(c.cells.begin(), c.cells.end(), r);
}
void GenGeometry(Config& c, Rng& r, const GenOpt& o) {
  c.surfaces.clear();
  c.cells.clear();
  if (o.large && o.max_surfaces > 2 && B(r, 0.01)) return GenMany(c, r, o);
  const int n = o.large && o.max_surfaces > 2 && B(r, 0.05)
                    ? I(r, 6, 9)
                    : I(r, o.min_surfaces, o.max_surfaces);
  const V3 off = o.big_offset ? (o.scale * LogU(r, 1, 1e4)) * RandDir(r) : V3{};
  const int family = I(r, 0, 4);
  for (int i = 0; i < n; i++) {
    Surf s;
    int k = I(r, 0, 2);
    if (family == 0) k = 0;
    if (family == 1) k = 1;
    if (family == 2) k = I(r, 1, 2);
    s.kind = Surf::Kind(k);
    s.name = fmt("s%d", i);
    if (s.kind == Surf::Sphere) {
      const bool concentric = family == 0 && B(r, 0.6);
      s.c = concentric ? off
                       : off + o.scale * V3{Round(r, U(r, -1, 1)),
                                            Round(r, U(r, -1, 1)),
                                            Round(r, U(r, -1, 1))};
      s.r = o.scale * Round(r, U(r, 0.3, 2.5));
      if (s.r <= 0) s.r = o.scale;
    }
    else if (s.kind == Surf::PlaneX)
      s.c.x = off.x + o.scale * Round(r, U(r, -2, 2));
    else
      s.r = o.scale * std::max(0.25, Round(r, U(r, 0.3, 2)));
    // avoid coincident surfaces
    bool dup = false;
    for (auto& t : c.surfaces)
      dup |= t.kind == s.kind &&
             (s.kind == Surf::PlaneX
                  ? std::abs(t.c.x - s.c.x) < 1e-3 * o.scale
                  : std::abs(t.r - s.r) < 1e-3 * o.scale &&
                        Norm(t.c - s.c) < 1e-3 * o.scale);
    if (dup) continue;
    s.name = fmt("s%zu", c.surfaces.size());
    c.surfaces.push_back(s);
  }
  // random binary tree
  struct Leaf {
    std::vector<std::pair<int, int>> s;
  };
  std::vector<Leaf> leaves{{}};
  for (size_t i = 0; i < c.surfaces.size(); i++) {
    std::vector<Leaf> next;
    for (size_t j = 0; j < leaves.size(); j++) {
      // the first surface splits all; later ones split some
      if (i == 0 || B(r, 0.6) || (j + 1 == leaves.size() && next.size() == j)) {
        auto a = leaves[j], b = leaves[j];
        a.s.push_back({(int)i, -1});
        b.s.push_back({(int)i, +1});
        next.push_back(a);
        next.push_back(b);
      }
      else next.push_back(leaves[j]);
    }
    leaves = next;
  }
  std::shuffle(leaves.begin(), leaves.end(), r);
  int voids = 0;
  for (auto& l : leaves) {
    std::shuffle(l.s.begin(), l.s.end(), r);
    CellCfg k;
    k.surfaces = l.s;
    // far regions: outside everything
    k.is_void = o.voids && B(r, 0.35);
    voids += k.is_void;
    k.name = k.is_void ? "" : fmt("c%zu", c.cells.size());
    c.cells.push_back(k);
  }
  if (voids == (int)c.cells.size()) {
    auto& k = c.cells[I(r, 0, (int)c.cells.size() - 1)];
    k.is_void = false;
    k.name = "c_";
  }
}

void GenMGData(Config& c, Rng& r, const GenOpt& o) {
  c.groups = o.large && o.max_groups > 2 && B(r, 0.05)
                 ? B(r, 0.1) ? I(r, 200, 300) : I(r, 8, 24)
                 : I(r, 1, o.max_groups);
  const int G = c.groups;
  c.nuclides.clear();
  c.materials.clear();
  const int nn = G > 24 ? I(r, 1, 2)
                 : o.large && B(r, 0.05) ? G <= 4 && B(r, 0.1) ? I(r, 257, 330) : I(r, 5, 14)
                                         : I(r, 1, 4);
  const double xs = 1 / o.scale;
  auto data = [&](bool neutron) {
    MGData d;
    auto vec = [&](double lo, double hi, double p0) {
      std::vector<double> v(G);
      for (auto& x : v) x = B(r, p0) ? 0 : U(r, lo, hi);
      return v;
    };
    d.capture = vec(0.2, 1, 0);
    for (auto& x : *d.capture) x = std::max(x, 0.2);
    auto mat = [&](double p0, double hi) {
      std::vector<std::vector<double>> m(G, std::vector<double>(G));
      for (auto& row : m)
        for (auto& x : row) x = B(r, p0) ? 0 : U(r, 0, hi);
      return m;
    };
    if (o.scatter && B(r, 0.8)) d.scatter = mat(0.3, 2. / G);
    // photofission emits neutrons too
    if (o.fission && B(r, neutron ? 0.6 : 0.3)) {
      d.fission = vec(0.05, 0.4, 0.2);
      d.nubar = vec(0, 3, 0.1);
      // keep clearly subcritical
      for (int g = 0; g < G; g++)
        (*d.nubar)[g] = std::min(
            (*d.nubar)[g],
            0.7 * ((*d.fission)[g] + (*d.capture)[g]) /
                std::max((*d.fission)[g], 1e-3));
      d.chi = mat(0.2, 1);
      for (int g = 0; g < G; g++) {
        double t = 0;
        for (int h = 0; h < G; h++) t += (*d.chi)[h][g];
        if (t == 0) (*d.chi)[I(r, 0, G - 1)][g] = 1;
        if (B(r, 0.5)) {
          t = 0;
          for (int h = 0; h < G; h++) t += (*d.chi)[h][g];
          for (int h = 0; h < G; h++) (*d.chi)[h][g] /= t;
        }
      }
    }
    return d;
  };
  c.particles = {"neutron"};
  if (o.photon) c.particles.push_back("photon");
  if (o.photon && B(r)) std::reverse(c.particles.begin(), c.particles.end());
  for (int i = 0; i < nn; i++) {
    NuclideCfg n;
    n.name = fmt("nuc%d", i);
    n.mg_neutron = data(true);
    if (o.photon) n.mg_photon = data(false);
    c.nuclides.push_back(n);
  }
  const int nm = o.large && B(r, 0.05) ? I(r, 4, 9) : I(r, 1, 3);
  for (int i = 0; i < nm; i++) {
    MaterialCfg m;
    m.name = fmt("mat%d", i);
    m.aden = o.density * xs * LogU(r, 0.2, 3);
    std::vector<int> idx(nn);
    std::iota(idx.begin(), idx.end(), 0);
    std::shuffle(idx.begin(), idx.end(), r);
    const int k = I(r, 1, nn);
    for (int j = 0; j < k; j++)
      m.nuclides.push_back({idx[j], B(r) ? U(r, 0.05, 1) : LogU(r, 1e-3, 10)});
    c.materials.push_back(m);
  }
  for (auto& k : c.cells)
    if (!k.is_void) k.material = I(r, 0, nm - 1);
}

void GenSource(Config& c, Rng& r, const GenOpt& o) {
  // a position inside a non-void cell, not on a boundary
  V3 ctr;
  int ns = 0;
  for (auto& s : c.surfaces)
    if (s.kind == Surf::Sphere) ctr = s.c, ns++;
    else if (s.kind == Surf::PlaneX && !ns) ctr.x = s.c.x;
  c.src = ctr;
  bool found = false;
  for (int i = 0; i < 4000; i++) {
    V3 p = ctr + (o.scale * (i < 2000 ? 2.5 : 30)) *
                     V3{U(r, -1, 1), U(r, -1, 1), U(r, -1, 1)};
    if (i == 0 && B(r, 0.3)) p = ctr;
    const int k = RefFindCell(c, p);
    if (k >= 0 && !c.cells[k].is_void &&
        RefMargin(c, c.cells[k], p) > 1e-3 * o.scale) {
      c.src = p;
      found = true;
      break;
    }
  }
  // the cells with a material are too small to be hit: fill another one
  for (int i = 0; i < 4000 && !found; i++) {
    V3 p = ctr + (2.5 * o.scale) * V3{U(r, -1, 1), U(r, -1, 1), U(r, -1, 1)};
    const int k = RefFindCell(c, p);
    if (k < 0 || RefMargin(c, c.cells[k], p) <= 1e-3 * o.scale) continue;
    c.src = p;
    found = true;
    if (!c.cells[k].is_void) break;
    c.cells[k].is_void = false;
    c.cells[k].name = fmt("filled%d", k);
    c.cells[k].material = I(r, 0, (int)c.materials.size() - 1);
  }
  const int k = I(r, 0, 3);
  c.dir_kind = k == 0 ? "constant" : k == 1 ? "isotropic-flux" : "isotropic";
  c.dir = U(r, 0.1, 3) * RandDirSpecial(r);
  if (c.groups) c.energy = fmt("%d", I(r, 1, c.groups));
  c.particle = Pick(r, c.particles);
}

BinsCfg GenBins(Rng& r, double lo, double hi) {
  BinsCfg b;
  const int k = I(r, 0, 3);
  b.kind = BinsCfg::Kind(k);
  if (k == BinsCfg::Lin) {
    b.lo = U(r, lo, hi);
    b.hi = b.lo + U(r, 0.05, 1) * (hi - lo);
    b.n = I(r, 1, 8);
  }
  else if (k == BinsCfg::Log) {
    if (B(r)) b.base = Pick<double>(r, {2, M_E, 10, 16});
    const double base = b.base.value_or(10);
    const double top = std::log(std::max(hi, 0.1)) / std::log(base);
    b.hi = top + U(r, -0.3, 0.3);
    b.lo = b.hi - U(r, 0.2, 3);
    b.n = I(r, 1, 8);
  }
  else if (k == BinsCfg::Bounds) {
    const int n = I(r, 1, 6);
    std::set<double> s;
    for (int i = 0; i < n; i++)
      s.insert(B(r, 0.3) ? std::round(U(r, lo, hi)) : U(r, lo, hi));
    b.bounds.assign(s.begin(), s.end());
  }
  return b;
}

void GenEstimators(Config& c, Rng& r, const GenOpt& o) {
  c.estimators.clear();
  c.perturbations.clear();
  // only surfaces that bound some cell can be named
  std::set<int> used;
  for (auto& k : c.cells)
    for (auto& [i, s] : k.surfaces) used.insert(i);
  std::vector<int> u(used.begin(), used.end());
  std::set<int> nuc;
  for (auto& k : c.cells)
    if (!k.is_void)
      for (auto& [i, f] : c.materials[k.material].nuclides) nuc.insert(i);
  if (o.sensitivities)
    for (int i : nuc)
      if (B(r, 0.7) || c.perturbations.empty())
        c.perturbations.push_back({fmt("pert%d", i), i});
  const int n = o.large && c.perturbations.size() < 8 && B(r, 0.01) ? I(r, 20, 300) : I(r, 1, 5);
  for (int i = 0; i < n; i++) {
    EstCfg e;
    e.name = fmt("est%d", i);
    e.surface = Pick(r, u);
    e.energy = GenBins(r, 0.5, std::max(1, c.groups) + 0.5);
    if (!c.groups) {
      e.energy = {};
      if (B(r, 0.7)) {
        e.energy.kind = BinsCfg::Log;
        e.energy.lo = U(r, -12, -4);
        e.energy.hi = U(r, -3, 1.4);
        e.energy.n = I(r, 1, 12);
      }
      else if (B(r)) {
        e.energy.kind = BinsCfg::Bounds;
        e.energy.bounds = {1e-9, 1e-8, 1e-7, 1e-6, 1e-3, 1, 5};
      }
    }
    e.cosine = GenBins(r, -1, 1);
    e.ref = U(r, 0.2, 5) * RandDirSpecial(r);
    for (auto& [pn, pi] : c.perturbations)
      if (B(r, 0.7)) e.sensitivities.push_back(pn);
    c.estimators.push_back(e);
  }
}

// Names which begin with one another, differ in case only, or are the same for
// objects of different kinds
static void Confuse(Config& c, Rng& r) {
  auto names = [&](size_t n) {
    const int kind = I(r, 0, 5);
    const std::string base = Pick(r, std::vector<std::string>{
        "a", "fuel", "U-235", "x y", "1", "neutron", "total", "s0", "a<b",
        "H&O", "\xC3\xA9t\xC3\xA9", "\xE6\xB0\xB4", "'q'", "]]>", "\xF0\x9F\x98\x80",
        "\"", "%d", "../x"});
    std::vector<std::string> v;
    for (size_t i = 0; i < n; i++)
      switch (kind) {
      case 0: v.push_back(base + std::string(i, '0')); break;
      case 1: v.push_back(base + std::to_string(i)); break;
      case 2: {
        std::string s = base + "abcdefghij";
        for (size_t j = 0; j < 10; j++)
          if (i >> j & 1) s[base.size() + j] = std::toupper(s[base.size() + j]);
        v.push_back(s);
        break;
      }
      case 3: v.push_back(std::string(i, 'z') + base); break;
      case 4: v.push_back(base + std::string(i, ' ') + base); break;
      // alike for longer than any fixed buffer
      case 5: v.push_back(std::string(400, 'n') + base + std::to_string(i)); break;
      }
    std::shuffle(v.begin(), v.end(), r);
    return v;
  };
  auto apply = [&](auto& objects) {
    if (B(r, 0.2)) return;
    const auto v = names(objects.size());
    for (size_t i = 0; i < v.size(); i++) objects[i].name = v[i];
  };
  apply(c.nuclides);
  apply(c.materials);
  apply(c.surfaces);
  apply(c.estimators);
  const auto cells = names(c.cells.size());
  for (size_t i = 0; i < cells.size(); i++)
    if (!c.cells[i].is_void) c.cells[i].name = cells[i];
  const auto p = names(c.perturbations.size());
  for (size_t i = 0; i < p.size(); i++) {
    for (auto& e : c.estimators)
      for (auto& s : e.sensitivities)
        if (s == c.perturbations[i].first) s = "\n" + p[i];
    c.perturbations[i].first = p[i];
  }
  for (auto& e : c.estimators)
    for (auto& s : e.sensitivities)
      if (s[0] == '\n') s.erase(0, 1);
}

// Changes the units of cross sections of every nuclide, atom fractions of every
// material and spectra of every group. Nothing physical depends on those.
static void RandomUnits(Config& c, Rng& r) {
  const double spread = B(r) ? 4 : B(r) ? 30 : 0;
  const double common = std::exp(U(r, -30, 30));
  std::vector<double> factor;
  for (auto& n : c.nuclides) {
    const double s = common * std::exp(U(r, -spread, spread));
    factor.push_back(s);
    for (auto* d : {&n.mg_neutron, &n.mg_photon}) {
      if (!*d) continue;
      auto& m = **d;
      for (auto* v : {&m.capture, &m.fission})
        if (*v)
          for (auto& x : **v) x *= s;
      if (m.scatter)
        for (auto& row : *m.scatter)
          for (auto& x : row) x *= s;
      if (m.chi)
        for (int g = 0; g < c.groups; g++) {
          const double e = std::exp(U(r, -30, 20));
          for (auto& row : *m.chi) row[g] *= e;
        }
    }
    for (auto* d : {&n.ce_neutron, &n.ce_photon}) {
      if (!*d) continue;
      auto& m = **d;
      for (auto* t : {&m.total, &m.capture, &m.scatter, &m.fission})
        if (*t)
          for (auto& y : (*t)->y) y *= s;
      if (m.tsl) {
        for (auto& y : m.tsl->majorant.y) y *= s;
        for (auto& x : m.tsl->S) x *= s;
      }
    }
  }
  for (auto& m : c.materials) {
    double before = 0, after = 0;
    for (auto& [n, f] : m.nuclides) before += f, after += f / factor[n];
    const double e = B(r) ? 1 / after : std::exp(U(r, -20, 20));
    for (auto& [n, f] : m.nuclides) f = f / factor[n] * e;
    m.aden *= after / before;
  }
}
Config GenMG(Rng& r, const GenOpt& o) {
  Config c;
  GenGeometry(c, r, o);
  GenMGData(c, r, o);
  GenSource(c, r, o);
  if (o.estimators) GenEstimators(c, r, o);
  if (B(r, 0.5)) c.tracking = B(r) ? "surface" : "cell delta";
  c.seed = I(r, 1, 1000000000);
  if (B(r, 0.3)) {
    c.temperature.kind = Field::Constant;
    c.temperature.c = U(r, 200, 1000);
  }
  if (o.units && B(r, 0.25)) RandomUnits(c, r);
  if (o.names && B(r, 0.3)) Confuse(c, r);
  if (o.names && B(r, 0.4)) c.style = r() | 1;
  return c;
}

Table1 SumTables(const std::vector<const Table1*>& t) {
  std::set<double> g;
  for (auto* a : t) g.insert(a->x.begin(), a->x.end());
  Table1 s;
  for (double x : g) {
    double y = 0;
    for (auto* a : t) y += a->At(x);
    s.x.push_back(x);
    s.y.push_back(y);
  }
  return s;
}
static Table1 GenTable(Rng& r, double lo, double hi, double ylo, double yhi) {
  Table1 t;
  const int n = I(r, 2, 9);
  std::set<double> g{lo, hi};
  while ((int)g.size() < n) g.insert(LogU(r, lo, hi));
  for (double x : g) {
    t.x.push_back(x);
    t.y.push_back(U(r, ylo, yhi));
  }
  return t;
}
// Tables that obey what the sampling algorithm needs: CDFs increasing from
// small positive to 1 along F, betas/alphas increasing along the CDF.
// Grid of `n` increasing values in [lo, hi], both ends included (n >= 2)
static std::vector<double> Grid(Rng& r, int n, double lo, double hi, bool log) {
  std::set<double> g{lo, hi};
  while ((int)g.size() < n) g.insert(log ? LogU(r, lo, hi) : U(r, lo, hi));
  return std::vector<double>(g.begin(), g.end());
}
// Splits [0, n) into `parts` non-empty consecutive ranges
static std::vector<int> Split(Rng& r, int n, int parts) {
  std::set<int> ends{n};
  while ((int)ends.size() < std::min(parts, n)) ends.insert(I(r, 1, n));
  return std::vector<int>(ends.begin(), ends.end());
}
TSL GenTSL(
    Rng& r, double cutoff_E, double awr, double T_lowest, double T_highest) {
  constexpr double kB = 8.617333262145e-11;
  TSL t;
  // occasionally grids as fine as those of evaluated data
  const bool fine = B(r, 0.06);
  const int nE = fine && B(r) ? I(r, 200, 700) : B(r, 0.8) ? I(r, 3, 6) : I(r, 3, 15),
            nT = fine && B(r) ? I(r, 5, 40) : I(r, 1, 4),
            K = B(r, 0.8) ? I(r, 1, 3) : I(r, 1, 6);
  auto temps = [&](int n) {
    // the last one is not exceeded by any temperature of the problem
    if (n == 1) return std::vector<double>{T_highest * U(r, 0.3, 1)};
    return Grid(r, n, T_highest * U(r, 0.1, 0.7), T_highest, false);
  };
  auto modes = [&](int n, int k) {
    // first order dominates and is positive
    std::vector<double> v;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < k; j++)
        v.push_back(j ? U(r, -0.2, 0.2) : U(r, 0.7, 1.3));
    return v;
  };
  t.E = Grid(r, nE, cutoff_E * 1e-4, cutoff_E, true);
  t.T = temps(nT);
  // Modes of small singular values may matter as much as others: nothing
  // normalises the vectors they multiply.
  t.S.push_back(U(r, 1, 3));
  for (int k = 1; k < K; k++)
    t.S.push_back(t.S[0] * (B(r) ? U(r, 0.05, 0.3) : LogU(r, 1e-6, 0.3)));
  std::sort(t.S.rbegin(), t.S.rend());
  t.modes_E = modes(nE, K);
  for (int k = 1; k < K; k++)
    if (B(r))
      for (int i = 0; i < nE; i++)
        t.modes_E[i * K + k] *= 0.3 * t.S[0] / t.S[k];
  t.modes_T = modes(nT, K);
  // majorant: bounds every reconstructed value on the energy grid
  t.majorant.x = t.E;
  for (int e = 0; e < nE; e++) {
    double m = 0;
    for (int j = 0; j < nT; j++) m = std::max(m, t.Recon(e, j));
    t.majorant.y.push_back(m * U(r, 1.0001, 1.5));
  }

  // ---- energy transfer: beta(F, E, T) = centre + width * Q(F) + ripple
  t.beta_cutoff = U(r, 8, 25);
  const auto E = Grid(r, fine && B(r) ? I(r, 100, 500) : B(r, 0.8) ? I(r, 2, 7) : I(r, 2, 16),
                      cutoff_E * LogU(r, 1e-4, 1e-2), cutoff_E, B(r));
  int begin = 0;
  for (int end : Split(r, E.size(), I(r, 1, B(r, 0.7) ? 3 : 6))) {
    TSLBetaPart p;
    p.E.assign(E.begin() + begin, E.begin() + end);
    p.T = temps(I(r, 1, 4));
    const int nF = fine && B(r) ? I(r, 200, 600) : B(r, 0.85) ? I(r, 3, 9) : I(r, 3, 40),
              nk = I(r, 2, 3);
    p.F = Grid(r, nF, U(r, 0.005, 0.045), U(r, 0.9, 0.999), false);
    std::vector<double> Q{-1, 1};
    while ((int)Q.size() < nF) Q.push_back(U(r, -1, 1));
    std::sort(Q.begin(), Q.end());
    for (int k = 0; k < nk; k++)
      p.S.push_back(LogU(r, k && B(r, 0.4) ? 1e-4 : 0.3, 3));
    for (int i = 0; i < nF; i++)
      for (int k = 0; k < nk; k++)
        p.cdf_modes.push_back(k == 0 ? 1 : k == 1 ? Q[i] : Q[i] * Q[i] * Q[i]);
    const bool deep = B(r, 0.3);
    for (size_t e = 0; e < p.E.size(); e++)
      for (size_t j = 0; j < p.T.size(); j++) {
        // A grid is used for energies down to its lower neighbour. Samples
        // below -E/kT of the particle are rejected: many if the grid reaches
        // down to its own energy.
        const double Tup = p.T.size() == 1 ? T_highest : p.T[std::min(j + 1, p.T.size() - 1)];
        const double below = deep ? p.E[e] : begin + e ? E[begin + e - 1] : 0;
        const double lo = -0.9 * std::min(below / (kB * Tup), 150.) + 0.01;
        const double hi = 0.9 * t.beta_cutoff;
        double b2 = lo + U(r, 0.2, 1) * (hi - lo),
               b1 = lo + U(r, 0, 0.3) * (b2 - lo);
        // (losses and gains are about as frequent)
        if (deep) b2 = std::max(b2, std::min(hi, -b1 * U(r, 0.5, 2)));
        const double c = (b1 + b2) / 2, w = (b2 - b1) / 2;
        const double x = nk > 2 ? U(r, 0, 0.5) : 0;
        p.e_t_modes.push_back(c / p.S[0]);
        p.e_t_modes.push_back(w * (1 - x) / p.S[1]);
        if (nk > 2) p.e_t_modes.push_back(w * x / p.S[2]);
      }
    t.beta.push_back(p);
    begin = end;
  }
  // ---- momentum transfer
  const double bmax =
      1.01 * std::max(t.beta_cutoff, cutoff_E / (kB * T_lowest)) + 1;
  const auto betas = Grid(r, fine && B(r) ? I(r, 100, 500) : B(r, 0.8) ? I(r, 2, 9) : I(r, 2, 20), LogU(r, 1e-3, 1), bmax, true);
  t.alpha_cutoff = 4.5 * (cutoff_E / (kB * T_lowest) + t.beta_cutoff) / awr *
                   U(r, 1, 3);
  begin = 0;
  for (int end : Split(r, betas.size(), I(r, 1, B(r, 0.7) ? 3 : 6))) {
    TSLBetaPart p;
    p.E.assign(betas.begin() + begin, betas.begin() + end);
    p.T = temps(I(r, 1, 4));
    const int nF = fine && B(r) ? I(r, 200, 600) : B(r, 0.85) ? I(r, 3, 9) : I(r, 3, 40),
              nk = I(r, 1, 2);
    p.F = Grid(r, nF, U(r, 0.01, 0.2), U(r, 0.8, 0.99), false);
    auto a = Grid(r, nF, t.alpha_cutoff * LogU(r, 1e-5, 1e-3),
                  t.alpha_cutoff * U(r, 0.2, 0.6), true);
    for (int k = 0; k < nk; k++)
      p.S.push_back(LogU(r, k && B(r, 0.4) ? 1e-4 : 0.3, 3));
    for (int i = 0; i < nF; i++)
      for (int k = 0; k < nk; k++)
        p.cdf_modes.push_back(k == 0 ? a[i] : a[i] * p.F[i]);
    for (size_t e = 0; e < p.E.size(); e++)
      for (size_t j = 0; j < p.T.size(); j++) {
        p.e_t_modes.push_back(U(r, 0.5, 1.2) / p.S[0]);
        if (nk > 1) p.e_t_modes.push_back(U(r, 0, 0.4) / p.S[1]);
      }
    t.alpha.push_back(p);
    begin = end;
  }
  return t;
}
void GenCEData(Config& c, Rng& r, const GenOpt& o) {
  c.groups = 0;
  c.nuclides.clear();
  c.materials.clear();
  c.particles = {"neutron"};
  if (o.photon) c.particles.push_back("photon");
  const int nn = o.large && B(r, 0.05) ? I(r, 4, 10) : I(r, 1, 3);
  const double xs = 1 / o.scale;
  auto data = [&](bool neutron) {
    CEData d;
    const double lo = 1e-12, hi = 20;
    d.capture = GenTable(r, lo, hi, 0.3, 1);
    if (o.scatter && neutron && B(r, 0.85)) d.scatter = GenTable(r, lo, hi, 0.2, 1.5);
    if (o.fission && B(r, neutron ? 0.5 : 0.3)) {
      d.fission = GenTable(r, lo, hi, 0.05, 0.3);
      d.nubar = GenTable(r, lo, hi, 0, 2);
    }
    const double T = B(r) ? 293.6 : U(r, 50, 1200);
    d.T_total = d.T_capture = d.T_scatter = d.T_fission = T;
    std::vector<const Table1*> t{&*d.capture};
    if (d.scatter) t.push_back(&*d.scatter);
    if (d.fission) t.push_back(&*d.fission);
    d.total = SumTables(t);
    return d;
  };
  for (int i = 0; i < nn; i++) {
    NuclideCfg n;
    n.name = fmt("nuc%d", i);
    n.awr = B(r, 0.3) ? 0.9991673 : LogU(r, 1, 240);
    n.ce_neutron = data(true);
    if (o.photon) n.ce_photon = data(false);
    c.nuclides.push_back(n);
  }
  const int nm = o.large && B(r, 0.05) ? I(r, 4, 9) : I(r, 1, 3);
  for (int i = 0; i < nm; i++) {
    MaterialCfg m;
    m.name = fmt("mat%d", i);
    m.aden = o.density * xs * LogU(r, 0.2, 3);
    std::vector<int> idx(nn);
    std::iota(idx.begin(), idx.end(), 0);
    std::shuffle(idx.begin(), idx.end(), r);
    const int k = I(r, 1, nn);
    for (int j = 0; j < k; j++)
      m.nuclides.push_back({idx[j], B(r) ? U(r, 0.05, 1) : LogU(r, 1e-3, 10)});
    c.materials.push_back(m);
  }
  for (auto& k : c.cells)
    if (!k.is_void) k.material = I(r, 0, nm - 1);
}
Config GenCE(Rng& r, const GenOpt& o) {
  Config c;
  GenGeometry(c, r, o);
  GenCEData(c, r, o);
  c.energy = G17(B(r) ? LogU(r, 1e-9, 1e-6) : LogU(r, 1e-9, 15));
  GenSource(c, r, o);
  if (o.estimators) GenEstimators(c, r, o);
  c.seed = I(r, 1, 1000000000);
  c.tracking = B(r) ? "surface" : "cell delta";
  if (o.linear_temperature) {
    c.tracking = "cell delta";
    auto& f = c.temperature;
    f.kind = Field::Linear;
    // positive everywhere a particle can reasonably go is impossible for a
    // linear field; make it vary on a much larger scale than the geometry
    const double T = U(r, 300, 900);
    f.g = (T * LogU(r, 1e-5, 1e-2) / o.scale) * RandDir(r);
    f.b = T - Dot(f.g, c.src);
    f.lo = 0;
    f.hi = 4 * T;
  }
  else if (B(r)) {
    c.temperature.kind = Field::Constant;
    c.temperature.c = B(r) ? 293.6 : U(r, 0, 1500);
  }
  for (auto& k : c.cells)
    if (!k.is_void && B(r, 0.25))
      k.temperature = !o.tsl && B(r, 0.1) ? 0 : U(r, 50, 1500);
  if (o.tsl) {
    // tables cover neutrons of up to 1e-5 MeV at 150 K and above
    if (c.temperature.kind == Field::Constant)
      c.temperature.c = std::max(c.temperature.c, 150.);
    for (auto& k : c.cells)
      if (k.temperature) k.temperature = std::max(*k.temperature, 150.);
    bool any = false;
    for (auto& n : c.nuclides) {
      auto& d = *n.ce_neutron;
      if (!d.scatter || (any && B(r))) continue;
      any = true;
      d.tsl = GenTSL(r, LogU(r, 1e-7, 4e-6), n.awr);
    }
  }
  if (o.units && B(r, 0.25)) RandomUnits(c, r);
  if (o.names && B(r, 0.3)) Confuse(c, r);
  if (o.names && B(r, 0.4)) c.style = r() | 1;
  return c;
}

std::string Describe(const Config& c) {
  int v = 0;
  for (auto& k : c.cells) v += k.is_void;
  std::string s = fmt(
      "{\"groups\": %d, \"nuclides\": %zu, \"materials\": %zu, \"surfaces\": "
      "[",
      c.groups, c.nuclides.size(), c.materials.size());
  for (size_t i = 0; i < c.surfaces.size(); i++) {
    auto& f = c.surfaces[i];
    s += (i ? ", " : "") +
         fmt("\"%s c=(%.4g,%.4g,%.4g) r=%.4g\"",
             f.kind == Surf::Sphere ? "sphere"
             : f.kind == Surf::PlaneX ? "planex" : "cylinderx",
             f.c.x, f.c.y, f.c.z, f.r);
  }
  s += fmt("], \"cells\": %zu, \"voids\": %d, \"src\": [%.6g, %.6g, %.6g], "
           "\"dir\": \"%s\", \"tracking\": \"%s\", \"estimators\": %zu}",
           c.cells.size(), v, c.src.x, c.src.y, c.src.z, c.dir_kind.c_str(),
           c.tracking.c_str(), c.estimators.size());
  return s;
}
uint64_t HashConfig(const Config& c) { return Hash(ToXML(c, "")); }

} // namespace mon
