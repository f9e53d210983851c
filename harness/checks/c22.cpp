// C22: invalid input files are refused with an error, before any transport.
#include "drive.hpp"

#include "Driver.hpp"
#include "HDF5DataSet.hpp"

#include "xercesc/parsers/XercesDOMParser.hpp"
#include "xercesc/sax/ErrorHandler.hpp"
#include "xercesc/sax/SAXParseException.hpp"
#include "xercesc/util/PlatformUtils.hpp"

#include <algorithm>
#include <atomic>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <sstream>
#include <unistd.h>

namespace mon {
const char* const kRule =
    "one evaluation is one input given to the code in a process of its own and "
    "its outcome judged; distinct non-trivial ones are invalid inputs, "
    "identified by the kind of fault and the text of the input";

namespace {
namespace fs = std::filesystem;

// ---- outcome of one input -------------------------------------------------
enum { kRan = 10, kRefused = 11, kSilent = 12, kLate = 13, kForeign = 14 };
struct Began : Observer {
  std::atomic<int> n{0};
  void HistoryBegin(std::size_t) override { n++; }
};
bool Blank(const std::string& s) {
  return s.find_first_not_of(" \t\r\n") == std::string::npos;
}
int Attempt(const std::string& path) {
  Began o;
  SetObserver(&o);
  auto say = [&](const std::string& m) {
    printf("MESSAGE<%s>\n", m.substr(0, 200).c_str());
    return o.n ? kLate : Blank(m) ? kSilent : kRefused;
  };
  try {
    auto d = Driver::Create(path);
    d->Solve();
    return kRan;
  }
  catch (const std::exception& e) {
    return say(e.what());
  }
  catch (const H5::Exception& e) {
    return say(e.getDetailMsg());
  }
  catch (...) {
    return kForeign;
  }
}
std::string OutcomeText(int rc) {
  if (rc == kRan) return "was accepted and results were returned";
  if (rc == kSilent) return "was refused without a message";
  if (rc == kLate) return "was refused only after transport had begun";
  if (rc == kForeign) return "was refused with something that is no exception of its own";
  if (rc >= 1000 && rc < 2000) return fmt("killed the process with signal %d", rc - 1000);
  if (rc == 2000) return "hung";
  return fmt("ended the process with code %d", rc);
}

// ---- independent judgement of form and schema -----------------------------
struct Judge : xercesc::ErrorHandler {
  int errors = 0;
  void warning(const xercesc::SAXParseException&) override {}
  void error(const xercesc::SAXParseException&) override { errors++; }
  void fatalError(const xercesc::SAXParseException&) override { errors++; }
  void resetErrors() override {}
};
bool SchemaValid(const std::string& path) {
  xercesc::XMLPlatformUtils::Initialize();
  bool ok = false;
  {
    Judge j;
    xercesc::XercesDOMParser p;
    p.setValidationScheme(xercesc::XercesDOMParser::Val_Always);
    p.setDoSchema(true);
    p.setDoNamespaces(true);
    p.setErrorHandler(&j);
    try {
      p.parse(path.c_str());
      ok = j.errors == 0;
    }
    catch (...) {
    }
  }
  xercesc::XMLPlatformUtils::Terminate();
  return ok;
}

// ---- documents --------------------------------------------------------------
struct Doc {
  pugi::xml_document d;
  pugi::xml_node root;
  const Config* c = nullptr;
  fs::path dir;
  std::set<std::string> used_materials, used_nuclides;
  bool text_only = false; // the fault is on disk
};
std::string Slurp(const fs::path& p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
void Spill(const fs::path& p, const std::string& s) {
  std::ofstream f(p, std::ios::binary);
  f << s;
}
std::vector<pugi::xml_node> Kids(const pugi::xml_node& n) {
  std::vector<pugi::xml_node> v;
  for (auto& k : n)
    if (k.type() == pugi::node_element) v.push_back(k);
  return v;
}
std::vector<pugi::xml_node> Select(const pugi::xml_node& n, const char* q) {
  std::vector<pugi::xml_node> v;
  for (auto& x : n.select_nodes(q)) v.push_back(x.node());
  return v;
}
std::vector<pugi::xml_node> UsedNuclides(Doc& d) {
  std::vector<pugi::xml_node> v;
  for (auto& n : Kids(d.root.child("nuclides").first_child()))
    if (d.used_nuclides.count(n.attribute("name").value())) v.push_back(n);
  return v;
}
// data nodes of used nuclides and declared particles
std::vector<pugi::xml_node> UsedData(Doc& d) {
  std::vector<pugi::xml_node> v;
  for (auto& n : UsedNuclides(d))
    for (auto& p : d.c->particles)
      if (auto x = n.child(p.c_str())) v.push_back(x);
  return v;
}
struct FileRef {
  pugi::xml_attribute a;
  int dims;
};
std::vector<FileRef> UsedFiles(Doc& d) {
  std::vector<FileRef> v;
  for (auto& p : UsedData(d))
    for (auto& n : Select(p, ".//*"))
      for (auto& a : n.attributes()) {
        const std::string s = a.value();
        if (s.size() < 3 || s.substr(s.size() - 3) != ".h5") continue;
        int dims = 1;
        H5::H5File f(s, H5F_ACC_RDONLY);
        long long l = 1;
        f.openGroup("/pandas").openAttribute("axis1_nlevels").read(H5::PredType::NATIVE_LLONG, &l);
        dims = l;
        v.push_back({a, dims});
      }
  return v;
}
std::string FreshName(Rng& r, const std::string& old) {
  switch (I(r, 0, 4)) {
  case 0: return "undeclared";
  case 1: return old + "x";
  case 2: return old.substr(0, old.size() - 1);
  case 3: return " " + old + "'";
  default: {
    auto s = old;
    s[I(r, 0, s.size() - 1)] = '#';
    return s;
  }
  }
}
bool Taken(const std::vector<std::string>& v, const std::string& s) {
  return std::find(v.begin(), v.end(), s) != v.end();
}
template <class T> std::vector<std::string> Names(const std::vector<T>& v) {
  std::vector<std::string> n;
  for (auto& x : v) n.push_back(x.name);
  return n;
}
// renames the reference to something undeclared
bool Dangle(Rng& r, pugi::xml_attribute a, const std::vector<std::string>& taken) {
  if (!a) return false;
  for (int i = 0; i < 20; i++) {
    const auto n = FreshName(r, a.value());
    if (!Taken(taken, n)) {
      a.set_value(n.c_str());
      return true;
    }
  }
  return false;
}
std::string Numbers(Rng& r, int n) {
  std::string s;
  for (int i = 0; i < n; i++) s += (i ? " " : "") + G17(U(r, 0.1, 2));
  return s;
}
pugi::xml_node Estimators(Doc& d) {
  auto e = d.root.child("estimators");
  if (!e) e = d.root.append_child("estimators");
  return e;
}
// a new estimator on a surface that some cell uses
pugi::xml_node NewEstimator(Rng& r, Doc& d) {
  auto all = Select(d.root, "cells/*/surface");
  auto e = Estimators(d);
  const bool front = B(r);
  auto n = front ? e.prepend_child("current") : e.append_child("current");
  n.append_attribute("name") = "planted";
  n.append_attribute("surface") = Pick(r, all).attribute("name").value();
  return n;
}
pugi::xml_node NewBins(Rng& r, Doc& d, const char* kind) {
  auto b = NewEstimator(r, d).append_child("bins");
  if (B(r)) return b.append_child("energy").append_child(kind);
  auto c = b.append_child("cosine");
  c.append_attribute("u") = "1";
  c.append_attribute("v") = "0.5";
  c.append_attribute("w") = "0";
  return c.append_child(kind);
}
void SetRange(pugi::xml_node n, const std::string& lo, const std::string& hi, const std::string& bins) {
  n.append_attribute("min") = lo.c_str();
  n.append_attribute("max") = hi.c_str();
  n.append_attribute("bins") = bins.c_str();
}
pugi::xml_node Perturbations(Doc& d) {
  auto e = d.root.child("perturbations");
  if (!e) e = d.root.append_child("perturbations");
  return e;
}

struct Fault {
  const char* name;
  std::function<bool(Doc&, Rng&)> apply; // false: does not apply here
};

const std::vector<Fault>& Faults() {
  static const std::vector<Fault> f = {
      // ---- undeclared things
      {"undeclared nuclide",
       [](Doc& d, Rng& r) {
         std::vector<pugi::xml_node> v;
         for (auto& m : Kids(d.root.child("materials")))
           if (d.used_materials.count(m.attribute("name").value()))
             for (auto& n : Kids(m)) v.push_back(n);
         std::vector<std::string> t;
         for (auto& n : Kids(d.root.child("nuclides").first_child()))
           t.push_back(n.attribute("name").value());
         return Dangle(r, Pick(r, v).attribute("name"), t);
       }},
      {"nuclide not declared any more",
       [](Doc& d, Rng& r) {
         auto u = UsedNuclides(d);
         auto all = Kids(d.root.child("nuclides").first_child());
         if (all.size() < 2) return false;
         auto n = Pick(r, u);
         n.parent().remove_child(n);
         return true;
       }},
      {"undeclared material",
       [](Doc& d, Rng& r) {
         auto v = Select(d.root, "cells/cell");
         return Dangle(r, Pick(r, v).attribute("material"), Names(d.c->materials));
       }},
      {"material not declared any more",
       [](Doc& d, Rng& r) {
         std::vector<pugi::xml_node> u;
         auto all = Kids(d.root.child("materials"));
         for (auto& m : all)
           if (d.used_materials.count(m.attribute("name").value())) u.push_back(m);
         if (all.size() < 2) return false;
         d.root.child("materials").remove_child(Pick(r, u));
         return true;
       }},
      {"undeclared surface in a cell",
       [](Doc& d, Rng& r) {
         auto v = Select(d.root, "cells/*/surface");
         return Dangle(r, Pick(r, v).attribute("name"), Names(d.c->surfaces));
       }},
      {"surface not declared any more",
       [](Doc& d, Rng& r) {
         auto all = Kids(d.root.child("surfaces"));
         if (all.size() < 2) return false;
         auto v = Select(d.root, "cells/*/surface");
         const std::string n = Pick(r, v).attribute("name").value();
         d.root.child("surfaces").remove_child(
             d.root.child("surfaces").find_child_by_attribute("name", n.c_str()));
         return true;
       }},
      {"undeclared surface in an estimator",
       [](Doc& d, Rng& r) {
         auto n = NewEstimator(r, d);
         return Dangle(r, n.attribute("surface"), Names(d.c->surfaces));
       }},
      {"undeclared nuclide in a perturbation",
       [](Doc& d, Rng& r) {
         auto p = Perturbations(d).append_child("total");
         p.append_attribute("name") = "planted";
         p.append_attribute("nuclide") = Pick(r, d.c->nuclides).name.c_str();
         return Dangle(r, p.attribute("nuclide"), Names(d.c->nuclides));
       }},
      {"undeclared perturbation in an estimator",
       [](Doc& d, Rng& r) {
         auto n = NewEstimator(r, d);
         auto s = n.append_child("sensitivities");
         std::vector<std::string> taken;
         for (auto& [x, i] : d.c->perturbations) taken.push_back(x);
         // a declared one as well, before or after
         const bool before = B(r);
         if (!taken.empty() && before)
           s.append_child("perturbation").append_attribute("name") = taken[0].c_str();
         auto a = s.append_child("perturbation").append_attribute("name");
         a = "dangling";
         if (!taken.empty() && B(r)) {
           a = taken[0].c_str();
           if (!Dangle(r, a, taken)) return false;
         }
         if (!taken.empty() && !before)
           s.append_child("perturbation").append_attribute("name") = taken[0].c_str();
         return true;
       }},
      // ---- missing data
      {"no data for a declared particle",
       [](Doc& d, Rng& r) {
         // one nuclide of possibly many lacks it
         auto n = Pick(r, UsedNuclides(d));
         const auto p = Pick(r, d.c->particles);
         auto x = n.child(p.c_str());
         if (!x) return false;
         n.remove_child(x);
         return true;
       }},
      {"particle declared in addition",
       [](Doc& d, Rng&) {
         for (auto& n : UsedNuclides(d))
           for (const char* p : {"neutron", "photon"})
             if (!n.child(p)) {
               auto t = d.root.child("general").child("particles").first_child();
               if (std::string{t.value()}.find(p) != std::string::npos) continue;
               t.set_value((std::string{t.value()} + " " + p).c_str());
               return true;
             }
         return false;
       }},
      {"source of undeclared particle",
       [](Doc& d, Rng& r) {
         auto n = d.root.select_node("//particletype/constant").node();
         auto a = n.attribute("type");
         const std::string now = a.value();
         const char* other = now == "neutron" ? "photon" : "neutron";
         if (Taken(d.c->particles, other)) return false;
         if (B(r, 0.3)) n.remove_attribute(a);
         else a.set_value(other);
         return true;
       }},
      {"source group does not exist",
       [](Doc& d, Rng& r) {
         if (!d.c->groups) return false;
         auto a = d.root.select_node("//energy/constant").node().attribute("energy");
         a.set_value(B(r) ? (long long)d.c->groups + 1 : (long long)d.c->groups + I(r, 1, 1 << 30));
         return true;
       }},
      {"source in no cell",
       [](Doc& d, Rng&) {
         const int i = RefFindCell(*d.c, d.c->src);
         auto cells = Kids(d.root.child("cells"));
         if (cells.size() < 2 || d.root.child("cells").child("cell") == d.root.child("cells").last_child())
           return false;
         auto n = cells[i];
         d.root.child("cells").remove_child(n);
         return (bool)d.root.child("cells").child("cell");
       }},
      {"source in a void cell",
       [](Doc& d, Rng&) {
         const int i = RefFindCell(*d.c, d.c->src);
         auto n = Kids(d.root.child("cells"))[i];
         while (n.first_attribute()) n.remove_attribute(n.first_attribute());
         n.set_name("void");
         return (bool)d.root.child("cells").child("cell");
       }},
      {"direction without a length",
       [](Doc& d, Rng& r) {
         const bool bins = B(r);
         auto n = bins ? NewBins(r, d, "linspace") : d.root.select_node("//direction").node().first_child();
         if (bins) {
           SetRange(n, "0", "1", "2");
           n = n.parent();
           if (std::string{n.name()} != "cosine") return false;
           for (const char* u : {"u", "v", "w"}) n.attribute(u) = "0";
           return true;
         }
         if (std::string{n.name()} == "isotropic") return false;
         for (const char* u : {"x", "y", "z"}) n.attribute(u) = "0";
         return true;
       }},
      // ---- group data
      {"group data of the wrong length",
       [](Doc& d, Rng& r) {
         if (!d.c->groups) return false;
         std::vector<pugi::xml_node> v;
         for (auto& p : UsedData(d))
           for (auto& n : Select(p, ".//capture|.//scatter|.//xs|.//nubar|.//chi"))
             v.push_back(n);
         auto n = Pick(r, v);
         std::istringstream is{n.child_value()};
         std::vector<std::string> w;
         for (std::string s; is >> s;) w.push_back(s);
         const int G = d.c->groups;
         const bool square = std::string{n.name()} == "scatter" || std::string{n.name()} == "chi";
         switch (I(r, 0, 4)) {
         case 0: w.pop_back(); break;
         case 1: w.push_back("0.5"); break;
         case 2: // a row less or more of a matrix, twice or none
           for (int i = 0; i < (square ? G : (int)w.size()); i++) w.pop_back();
           break;
         case 3:
           for (int i = 0; i < G; i++) w.push_back("0.5");
           break;
         default: // the length the other kind of data has
           if (G == 1) w.push_back("1");
           else w.resize(square ? G : G * G, "0.25");
         }
         std::string s;
         for (auto& x : w) s += (s.empty() ? "" : " ") + x;
         n.remove_children();
         n.append_child(pugi::node_pcdata).set_value(s.c_str());
         return true;
       }},
      {"number of groups changed",
       [](Doc& d, Rng& r) {
         if (!d.c->groups) return false;
         bool some = false;
         for (auto& p : UsedData(d)) some = some || p.first_child();
         auto a = d.root.child("nuclides").first_child().attribute("groups");
         const int G = d.c->groups;
         a = std::to_string(B(r) || G == 1 ? G + I(r, 1, 3) : G - 1).c_str();
         if (B(r, 0.1)) a = "3000000000";
         return some;
       }},
      {"unknown reaction",
       [](Doc& d, Rng& r) {
         auto p = Pick(r, UsedData(d));
         auto x = p.first_child();
         if (!x) return false;
         if (B(r)) x.set_name(Pick(r, std::vector<const char*>{"absorption", "Capture", "n2n", "scatter_", "elastic"}));
         else {
           auto n = p.append_child("n2n");
           if (d.c->groups) n.append_child(pugi::node_pcdata).set_value(Numbers(r, d.c->groups).c_str());
           else {
             n.append_attribute("file") = UsedFiles(d)[0].a.value();
             n.append_attribute("temperature") = "293.6";
           }
         }
         return true;
       }},
      // ---- bins
      {"linspace does not increase",
       [](Doc& d, Rng& r) {
         const double a = U(r, -1, 1);
         auto n = NewBins(r, d, "linspace");
         switch (I(r, 0, 4)) {
         case 0: SetRange(n, G17(a), G17(a), std::to_string(I(r, 1, 9))); break;
         case 1: SetRange(n, G17(a), G17(a - LogU(r, 1e-12, 10)), std::to_string(I(r, 1, 9))); break;
         case 2: SetRange(n, "NaN", "1", "3"); break;
         case 3: SetRange(n, "0", "NaN", "3"); break;
         default: SetRange(n, "1e16", "10000000000000004", "100");
         }
         return true;
       }},
      {"logspace does not increase",
       [](Doc& d, Rng& r) {
         const double a = U(r, -5, 1);
         auto n = NewBins(r, d, "logspace");
         switch (I(r, 0, 6)) {
         case 0: SetRange(n, G17(a), G17(a), std::to_string(I(r, 1, 9))); break;
         case 1: SetRange(n, G17(a), G17(a - LogU(r, 1e-9, 10)), std::to_string(I(r, 1, 9))); break;
         case 2:
           SetRange(n, G17(a), G17(a + 1), "4");
           n.append_attribute("base") = "1";
           break;
         case 3:
           SetRange(n, G17(a), G17(a + 1), "4");
           n.append_attribute("base") = G17(U(r, 0.01, 0.99)).c_str();
           break;
         case 4:
           SetRange(n, G17(a), G17(a + 1), "4");
           n.append_attribute("base") = B(r) ? "0" : "-2";
           break;
         case 5: SetRange(n, "NaN", "1", "2"); break;
         default:
           SetRange(n, G17(a), G17(a + 1), "4");
           n.append_attribute("base") = "NaN";
         }
         return true;
       }},
      {"boundaries do not increase",
       [](Doc& d, Rng& r) {
         std::vector<double> b;
         for (int i = 0, n = I(r, 2, 6); i < n; i++) b.push_back(U(r, -1, 1));
         std::sort(b.begin(), b.end());
         const int i = I(r, 1, b.size() - 1);
         std::string bad;
         switch (I(r, 0, 2)) {
         case 0: b[i] = b[i - 1]; break;
         case 1: std::swap(b[i], b[i - 1]); break;
         default: bad = B(r) ? "NaN" : "INF";
         }
         std::string s;
         for (size_t j = 0; j < b.size(); j++) s += (s.empty() ? "" : " ") + G17(b[j]);
         if (!bad.empty()) s = B(r) ? bad + " " + s : s + " " + bad + " " + G17(b.back() + 1);
         NewBins(r, d, "boundaries").append_child(pugi::node_pcdata).set_value(s.c_str());
         return true;
       }},
      // ---- data files
      {"missing data file",
       [](Doc& d, Rng& r) {
         if (d.c->groups) return false;
         auto f = Pick(r, UsedFiles(d)).a;
         if (B(r)) f = (std::string{f.value()} + "x").c_str();
         else f = "nowhere/nothing.h5";
         return true;
       }},
      {"data file removed",
       [](Doc& d, Rng& r) {
         if (d.c->groups) return false;
         fs::remove(Pick(r, UsedFiles(d)).a.value());
         return true;
       }},
      {"data file is no HDF5 file",
       [](Doc& d, Rng& r) {
         if (d.c->groups) return false;
         const fs::path f = Pick(r, UsedFiles(d)).a.value();
         switch (I(r, 0, 3)) {
         case 0: Spill(f, ""); break;
         case 1: Spill(f, "energy,value\n1,2\n"); break;
         case 2: {
           auto s = Slurp(f);
           Spill(f, s.substr(0, I(r, 1, (int)s.size() - 1)));
           break;
         }
         default:
           fs::remove(f);
           fs::create_directory(f);
         }
         return true;
       }},
      {"data file lacks a part",
       [](Doc& d, Rng& r) {
         if (d.c->groups) return false;
         auto f = Pick(r, UsedFiles(d));
         H5::H5File h(f.a.value(), H5F_ACC_RDWR);
         switch (I(r, 0, 3)) {
         case 0: h.openGroup("/pandas").unlink("block0_values"); break;
         case 1: h.openGroup("/pandas").unlink(fmt("axis1_level%d", I(r, 0, f.dims - 1))); break;
         case 2: h.openGroup("/pandas").removeAttr("axis1_nlevels"); break;
         default: h.unlink("/pandas");
         }
         return true;
       }},
      {"data file with another number of axes",
       [](Doc& d, Rng& r) {
         if (d.c->groups) return false;
         auto f = Pick(r, UsedFiles(d));
         const int D = f.dims == 1 || B(r) ? f.dims + 1 : f.dims - 1;
         std::vector<std::vector<double>> ax(D, std::vector<double>{1e-9, 1});
         WriteH5(f.a.value(), ax, std::vector<double>(1 << D, 0.5));
         return true;
       }},
      // ---- thermal scattering, tracking
      {"thermal scattering of photons",
       [](Doc& d, Rng&) {
         // the whole scatter node moved to the photon
         auto t = d.root.select_node("//tsl").node();
         if (!t) return false;
         auto sc = t.parent();
         auto nuc = sc.parent().parent();
         if (!d.used_nuclides.count(nuc.attribute("name").value())) return false;
         auto p = nuc.child("photon");
         if (!p) {
           p = nuc.append_child("photon");
           for (auto& n : Kids(sc.parent())) p.append_copy(n);
           // every used nuclide needs the photon data
           for (auto& u : UsedNuclides(d))
             if (!u.child("photon")) {
               auto q = u.append_child("photon");
               for (auto& n : Kids(u.child("neutron")))
                 if (std::string{n.name()} != "scatter") q.append_copy(n);
             }
           d.root.child("general").child("particles").first_child().set_value("photon");
           d.root.select_node("//particletype/constant").node().attribute("type") = "photon";
           return true;
         }
         if (!Taken(d.c->particles, "photon")) return false;
         p.remove_child("scatter");
         p.append_copy(sc);
         return true;
       }},
      {"thermal energies or betas do not increase",
       [](Doc& d, Rng& r) {
         std::vector<pugi::xml_node> parts;
         for (auto& p : UsedData(d))
           for (auto& n : Select(p, B(r) ? ".//beta_partitions" : ".//alpha_partitions"))
             parts.push_back(n);
         if (parts.empty()) return false;
         auto n = Pick(r, parts);
         auto kids = Kids(n);
         if (kids.size() > 1 && B(r)) { // partitions in another order
           const int i = I(r, 0, kids.size() - 2);
           n.append_move(kids[i]);
           return true;
         }
         auto one = Pick(r, kids);
         const char* file = one.attribute("E_T") ? one.attribute("E_T").value()
                                                 : one.attribute("beta_T").value();
         H5::H5File h(file, H5F_ACC_RDWR);
         auto set = h.openDataSet("/pandas/axis1_level0");
         std::vector<double> x(set.getSpace().getSimpleExtentNpoints());
         set.read(x.data(), H5::PredType::NATIVE_DOUBLE);
         const int i = I(r, 0, x.size() - 1);
         if (i == 0) {
           if (x.size() > 1 && B(r)) x[0] = B(r) ? x[1] : x[1] * (1 + U(r));
           else if (one == kids[0]) x[0] = B(r) ? 0 : -x[0];
           else x[0] = 0;
         }
         else x[i] = B(r) ? x[i - 1] : x[i - 1] * U(r, 0.1, 0.999999);
         if (B(r, 0.1)) x[i] = NAN;
         set.write(x.data(), H5::PredType::NATIVE_DOUBLE);
         return true;
       }},
      {"surface tracking with linear temperature",
       [](Doc& d, Rng& r) {
         auto t = d.root.child("temperature");
         if (!t) t = d.root.append_child("temperature");
         t.remove_children();
         auto l = t.append_child("linear");
         auto b = l.append_child("bounds");
         b.append_attribute("lower") = "200";
         b.append_attribute("upper") = "600";
         l.append_child("intercept").append_attribute("b") = "300";
         auto g = l.append_child("gradient");
         const char* ax[] = {"x", "y", "z"};
         const int i = I(r, 0, 2);
         double v[3] = {0, 0, 0};
         v[i] = 0.5;
         switch (I(r, 0, 3)) {
         case 0: v[(i + 1) % 3] = -0.5; break; // cancels in a sum
         case 1: v[i] = (B(r) ? 1 : -1) * LogU(r, B(r) ? 1e-14 : 1e-6, 1e2); break;
         case 2: for (double& x : v) x = U(r, -1, 1); break;
         default:;
         }
         for (int j = 0; j < 3; j++) g.append_attribute(ax[j]) = v[j];
         auto n = d.root.child("general");
         n.remove_child("tracking");
         if (B(r)) n.append_child("tracking").append_child(pugi::node_pcdata).set_value("surface");
         return true;
       }},
      // ---- numbers the schema refuses or nothing can be done with
      {"useless number",
       [](Doc& d, Rng& r) {
         auto g = d.root.child("general");
         const char* bad[] = {"0", "-3", "many", "99999999999999999999", "1.5", ""};
         const char* q[] = {"histories", "threads"};
         g.child(q[I(r, 0, 1)]).first_child().set_value(bad[I(r, 0, 5)]);
         return true;
       }},
      {"negative quantity",
       [](Doc& d, Rng& r) {
         std::vector<pugi::xml_attribute> v;
         for (auto& m : Kids(d.root.child("materials"))) {
           v.push_back(m.attribute("aden"));
           for (auto& n : Kids(m)) v.push_back(n.attribute("afrac"));
         }
         for (auto& n : Select(d.root, "//radius")) v.push_back(n.attribute("r"));
         for (auto& n : Select(d.root, "//energy/constant")) v.push_back(n.attribute("energy"));
         auto a = Pick(r, v);
         a = B(r) ? "0" : (std::string{"-"} + a.value()).c_str();
         return true;
       }},
      {"name declared twice",
       [](Doc& d, Rng& r) {
         const char* q[] = {"materials", "surfaces", "cells", "estimators"};
         auto p = d.root.select_node(q[I(r, 0, 3)]).node();
         auto v = Kids(p);
         v.erase(std::remove_if(v.begin(), v.end(), [](auto& n) { return !n.attribute("name"); }), v.end());
         if (v.empty()) return false;
         p.append_copy(Pick(r, v));
         return true;
       }},
  };
  return f;
}

void Prepare(Doc& d, const Config& c, const fs::path& dir, const std::string& xml) {
  d.d.load_string(xml.c_str(), pugi::parse_default | pugi::parse_declaration);
  d.root = d.d.child("minimc");
  d.c = &c;
  d.dir = dir;
  for (auto& k : c.cells)
    if (!k.is_void) {
      d.used_materials.insert(c.materials[k.material].name);
      for (auto& [i, f] : c.materials[k.material].nuclides) d.used_nuclides.insert(c.nuclides[i].name);
    }
}
Config Base(Rng& r) {
  GenOpt o;
  o.photon = B(r, 0.3);
  o.sensitivities = B(r);
  o.voids = B(r, 0.7);
  Config c;
  const double u = U(r);
  if (u < 0.5) c = GenMG(r, o);
  else {
    o.tsl = u > 0.75;
    if (o.tsl) o.max_surfaces = 2;
    o.linear_temperature = !o.tsl && B(r, 0.2);
    c = GenCE(r, o);
    if (o.linear_temperature && B(r)) {
      // a linear temperature that does not vary may be used with any tracking
      c.temperature.g = {};
      c.temperature.b = U(r, 200, 800);
      c.tracking = B(r) ? "" : "surface";
    }
  }
  c.histories = I(r, 1, 4);
  c.threads = I(r, 1, 3);
  c.style = 0; // the faults are edits of the plain text
  return c;
}
// one input: judged
void Check(Ctx& ctx, Case& k, const std::string& what, const std::string& path, const std::string& detail) {
  std::string out;
  const int rc = Forked([&] { return Attempt(path); }, &out, 25);
  k.Eval();
  k.Nontrivial(Mix(Hash(what), Hash(detail)));
  ctx.Count("inputs with: " + what);
  if (rc != kRefused)
    k.Fail(what, "an input with this fault: " + what + ", " + OutcomeText(rc) + "\n" +
                     out.substr(0, 600) + "\n" + detail.substr(0, 6000));
}
std::string Text(const Doc& d) {
  std::ostringstream s;
  d.d.save(s);
  return s.str();
}

void Semantic(Ctx& ctx, Case& k) {
  Rng& r = k.rng;
  fs::path dir;
  ScratchDir(k, dir);
  const Config c = Base(r);
  const std::string path = WriteProblem(c, dir, "base");
  const std::string xml = Slurp(path);
  std::string out;
  const int rc = Forked([&] { return Attempt(path); }, &out, 40);
  k.Eval();
  ctx.Count(rc == kRan ? "valid inputs that ran" : "valid inputs that did not run");
  if (rc != kRan) {
    k.Fail("valid input", "a valid input " + OutcomeText(rc) + "\n" + out.substr(0, 600) + "\n" +
                              xml.substr(0, 6000));
    fs::remove_all(dir);
    return;
  }
  int done = 0;
  for (int t = 0; t < 40 && done < 8 && !k.failed; t++) {
    const Fault& f = Pick(r, Faults());
    // data files may have been spoilt
    WriteProblem(c, dir, "base");
    Doc d;
    Prepare(d, c, dir, xml);
    if (!f.apply(d, r)) {
      for (auto& e : fs::directory_iterator(dir))
        if (e.is_directory()) fs::remove_all(e.path());
      continue;
    }
    done++;
    const auto text = Text(d);
    const auto p = dir / fmt("bad%d.xml", t);
    Spill(p, text);
    Check(ctx, k, f.name, p.string(), text);
    // a directory in the place of a data file
    for (auto& e : fs::directory_iterator(dir))
      if (e.is_directory()) fs::remove_all(e.path());
  }
  if (done)
    ctx.Sample("{\"histories\":" + std::to_string(c.histories) + ",\"groups\":" +
               std::to_string(c.groups) + ",\"faults tried\":" + std::to_string(done) + "}");
  fs::remove_all(dir);
}

// ---- damaged text and trees, judged by an independent parse ------------------
std::string DamageText(Rng& r, std::string s) {
  const std::string junk = "<>/\"'=&;!-abc 01#[]?\n";
  for (int n = B(r, 0.7) ? 1 : I(r, 2, 4); n > 0; n--) {
    const size_t i = I(r, 0, s.size() - 1);
    switch (I(r, 0, 7)) {
    case 0: s = s.substr(0, i + 1); break;
    case 1: s.erase(i, 1); break;
    case 2: s.insert(i, 1, junk[I(r, 0, junk.size() - 1)]); break;
    case 3: s[i] = junk[I(r, 0, junk.size() - 1)]; break;
    case 4: s.erase(i, I(r, 2, 40)); break;
    case 5: s.insert(i, s.substr(I(r, 0, s.size() - 1), I(r, 1, 60))); break;
    case 6: s[i] = (char)I(r, 128, 255); break;
    default: { // a markup character
      std::vector<size_t> m;
      for (size_t j = 0; j < s.size(); j++)
        if (strchr("<>\"/=", s[j])) m.push_back(j);
      if (!m.empty()) s.erase(Pick(r, m), 1);
    }
    }
    if (s.empty()) break;
  }
  return s;
}
void DamageTree(Rng& r, Doc& d) {
  auto all = Select(d.d, "//*");
  auto n = Pick(r, all);
  const char* vals[] = {"", "abc", "-1", "0", "NaN", "INF", "1e400", "neutron", "1 2", "true", "0x10"};
  auto attr = [&]() {
    std::vector<pugi::xml_attribute> v;
    for (auto& e : all)
      for (auto& a : e.attributes()) v.push_back(a);
    return Pick(r, v);
  };
  switch (I(r, 0, 9)) {
  case 0:
    if (n.parent().type() == pugi::node_element) n.parent().remove_child(n);
    break;
  case 1: n.set_name("nonsense"); break;
  case 2: n.set_name(Pick(r, all).name()); break;
  case 3: attr().set_value(vals[I(r, 0, 10)]); break;
  case 4: {
    // attributes of random elements
    std::vector<pugi::xml_node> v;
    for (auto& e : all)
      if (e.first_attribute()) v.push_back(e);
    auto e = Pick(r, v);
    e.remove_attribute(e.first_attribute());
    break;
  }
  case 5: attr().set_name("nonsense"); break;
  case 6: n.append_attribute("extra") = "1"; break;
  case 7:
    if (n.parent().type() == pugi::node_element) n.parent().append_copy(n);
    break;
  case 8: {
    std::vector<pugi::xml_node> v;
    for (auto& e : all)
      if (e.first_child().type() == pugi::node_pcdata) v.push_back(e);
    Pick(r, v).first_child().set_value(vals[I(r, 0, 10)]);
    break;
  }
  default: {
    auto m = Pick(r, all);
    n.append_copy(m);
  }
  }
}
void Form(Ctx& ctx, Case& k, bool tree) {
  Rng& r = k.rng;
  fs::path dir;
  ScratchDir(k, dir);
  const Config c = Base(r);
  const std::string path = WriteProblem(c, dir, "base");
  const std::string xml = Slurp(path);
  for (int t = 0; t < 12 && !k.failed; t++) {
    std::string text;
    if (tree) {
      Doc d;
      Prepare(d, c, dir, xml);
      for (int n = B(r, 0.7) ? 1 : 2; n > 0; n--) DamageTree(r, d);
      text = Text(d);
    }
    else text = DamageText(r, xml);
    const auto p = dir / fmt("damaged%d.xml", t);
    Spill(p, text);
    if (Forked([&] { return SchemaValid(p.string()) ? 1 : 0; }, nullptr, 30) != 0) {
      ctx.Count("damaged inputs that are still of valid form (not judged)");
      if (getenv("C22_EXPLORE")) {
        std::string out;
        const int rc = Forked([&] { return Attempt(p.string()); }, &out, 10);
        if (rc != kRan && rc != kRefused) {
          Doc d;
          fprintf(stderr, "EXPLORE %s %s\n%s\n", k.id.c_str(), OutcomeText(rc).c_str(), out.substr(0, 300).c_str());
          Spill(fmt("/tmp/w/explore_%s_%d.xml", k.id.c_str(), t), text);
        }
      }
      continue;
    }
    Check(ctx, k, tree ? "elements or attributes against the schema" : "damaged text", p.string(), text);
  }
  fs::remove_all(dir);
}
void Odd(Ctx& ctx, Case& k) {
  fs::path dir;
  ScratchDir(k, dir);
  WriteSchemas(dir);
  auto file = [&](const char* n, const std::string& s) {
    Spill(dir / n, s);
    return (dir / n).string();
  };
  Check(ctx, k, "no such file", (dir / "nothing.xml").string(), "1");
  fs::create_directory(dir / "dir.xml");
  Check(ctx, k, "a directory", (dir / "dir.xml").string(), "2");
  Check(ctx, k, "empty file", file("empty.xml", ""), "3");
  Check(ctx, k, "empty file", file("blank.xml", "\n \n"), "4");
  Check(ctx, k, "no XML", file("text.xml", "histories 100\n"), "5");
  Check(ctx, k, "no XML", file("bin.xml", std::string("\0\x01\xff\xfe\0", 5)), "6");
  Check(ctx, k, "another document", file("other.xml", "<other/>"), "7");
  Check(ctx, k, "another document",
        file("other2.xml", "<other xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" "
                           "xsi:noNamespaceSchemaLocation=\"minimc.xsd\"/>"),
        "8");
  Check(ctx, k, "another document", file("bare.xml", "<minimc/>"), "9");
  Check(ctx, k, "another document",
        file("bare2.xml", "<minimc xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" "
                          "xsi:noNamespaceSchemaLocation=\"minimc.xsd\"/>"),
        "10");
  Check(ctx, k, "schema missing",
        file("noschema.xml", "<minimc xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" "
                             "xsi:noNamespaceSchemaLocation=\"gone.xsd\"/>"),
        "11");
  fs::remove_all(dir);
}
// the program itself
void Program(Ctx& ctx, Case& k) {
  const char* exe = getenv("MINIMC_PROGRAM");
  if (!exe) return;
  Rng& r = k.rng;
  fs::path dir;
  ScratchDir(k, dir);
  const Config c = Base(r);
  const std::string xml = Slurp(WriteProblem(c, dir, "base"));
  int done = 0;
  for (int t = 0; t < 30 && done < 4 && !k.failed; t++) {
    WriteProblem(c, dir, "base");
    Doc d;
    Prepare(d, c, dir, xml);
    std::string text, what;
    if (B(r, 0.25)) {
      text = DamageText(r, xml);
      what = "damaged text";
    }
    else {
      const Fault& f = Pick(r, Faults());
      what = f.name;
      const bool ok = f.apply(d, r);
      if (!ok) {
        for (auto& e : fs::directory_iterator(dir))
          if (e.is_directory()) fs::remove_all(e.path());
        continue;
      }
      text = Text(d);
    }
    const auto p = dir / fmt("bad%d.xml", t);
    Spill(p, text);
    if (what == "damaged text" && Forked([&] { return SchemaValid(p.string()) ? 1 : 0; }, nullptr, 30) != 0) continue;
    done++;
    std::string out;
    const int rc = Forked([&] {
      execl(exe, exe, p.c_str(), (char*)nullptr);
      return 96;
    }, &out, 25);
    k.Eval();
    k.Nontrivial(Mix(77, Mix(Hash(what), Hash(text))));
    ctx.Count("inputs given to the program");
    if (rc != 1 || out.find("Error") == std::string::npos)
      k.Fail("program: " + what, "the program given an input with this fault: " + what + ", ended with code " +
                                     std::to_string(rc) + " and said\n" + out.substr(0, 500) + "\n" +
                                     text.substr(0, 5000));
    auto o = p;
    o.replace_extension(".out");
    if (fs::exists(o) && fs::file_size(o) > 0)
      k.Fail("program results: " + what, "the program wrote results for an input with this fault: " + what);
    for (auto& e : fs::directory_iterator(dir))
      if (e.is_directory()) fs::remove_all(e.path());
  }
  fs::remove_all(dir);
}
} // namespace

void Run(Ctx& ctx) {
#if defined(__SANITIZE_ADDRESS__)
  // refusals are made without memory errors
  ctx.Cases("memory", ctx.N(160, 4000), [&](Case& k) { Semantic(ctx, k); });
  ctx.Cases("memory of text", ctx.N(30, 800), [&](Case& k) { Form(ctx, k, false); });
  ctx.Cases("memory of trees", ctx.N(50, 1200), [&](Case& k) { Form(ctx, k, true); });
#else
  ctx.Cases("odd", 1, [&](Case& k) { Odd(ctx, k); });
  ctx.Cases("semantic", ctx.N(500, 12000), [&](Case& k) { Semantic(ctx, k); });
  ctx.Cases("text", ctx.N(80, 2000), [&](Case& k) { Form(ctx, k, false); });
  ctx.Cases("tree", ctx.N(120, 3000), [&](Case& k) { Form(ctx, k, true); });
  ctx.Cases("program", ctx.N(80, 2000), [&](Case& k) { Program(ctx, k); });
#endif
}
} // namespace mon
