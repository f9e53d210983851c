#include "refxs.hpp"

namespace mon {

double RefTemperature(const Config& c, const CellCfg& k, V3 p) {
  return k.temperature ? *k.temperature : c.temperature.At(p);
}
double RefTmax(const Config& c, const CellCfg& k) {
  if (k.temperature) return *k.temperature;
  return c.temperature.kind == Field::Linear ? c.temperature.hi
                                             : c.temperature.At({});
}
double FreeGasFactor(double awr, double E, double T) {
  if (T == 0) return 1;
  const long double a = (long double)awr * E / ((long double)kBoltzmann * T);
  return (1 + 1 / (2 * a)) * erfl(sqrtl(a)) + expl(-a) / sqrtl(M_PIl * a);
}
static bool Matches(double T, double T0, bool* near) {
  const double rel = std::abs(T - T0) / T0;
  if (near && std::abs(rel - 0.01) < 1e-9) *near = true;
  return rel < 0.01;
}
static const CEData& Data(const NuclideCfg& n, int type) {
  return type ? *n.ce_photon : *n.ce_neutron;
}
bool RefThermal(const NuclideCfg& n, int type, double E, bool* near) {
  if (type != 0 || !n.ce_neutron || !n.ce_neutron->tsl) return false;
  const double cut = n.ce_neutron->tsl->E.back();
  (void)near; // E and the cutoff are both literal: exact
  return E < cut;
}
double RefReaction(const Config& c, const NuclideCfg& n, int type, int reaction,
                   double e, double T, bool* near) {
  if (c.groups) {
    const auto& d = type ? *n.mg_photon : *n.mg_neutron;
    const int g = (int)e - 1;
    switch (reaction) {
    case rCapture: return d.capture ? (*d.capture)[g] : 0;
    case rScatter: return d.scatter ? d.Scat(g) : 0;
    default: return d.fission ? (*d.fission)[g] : 0;
    }
  }
  const auto& d = Data(n, type);
  switch (reaction) {
  case rCapture: return d.capture ? d.capture->At(e) : 0;
  case rFission: return d.fission ? d.fission->At(e) : 0;
  default: {
    if (!d.scatter) return 0;
    if (RefThermal(n, type, e, near)) return d.tsl->Total(e, T);
    const double x = d.scatter->At(e);
    if (Matches(T, d.T_scatter, near)) return x;
    const double limit = 500 * kBoltzmann * T / n.awr;
    if (type == 0 && n.awr > 1 && near &&
        std::abs(e - limit) < 1e-9 * limit)
      *near = true;
    if (type == 0 && (n.awr <= 1 || e < limit))
      return x / FreeGasFactor(n.awr, e, d.T_scatter) *
             FreeGasFactor(n.awr, e, T);
    return x;
  }
  }
}
double RefSumOfReactions(const Config& c, const NuclideCfg& n, int type,
                         double e, double T, bool* near) {
  double s = 0;
  for (int r = 0; r < 3; r++) s += RefReaction(c, n, type, r, e, T, near);
  return s;
}
double RefTotal(const Config& c, const NuclideCfg& n, int type, double e,
                double T, bool* near) {
  if (c.groups) return RefSumOfReactions(c, n, type, e, T, near);
  const auto& d = Data(n, type);
  if (d.total && !RefThermal(n, type, e, near) && Matches(T, d.T_total, near))
    return d.total->At(e);
  return RefSumOfReactions(c, n, type, e, T, near);
}
double RefFraction(const MaterialCfg& m, int i) {
  double s = 0, x = 0;
  for (auto& [n, f] : m.nuclides) {
    s += f;
    if (n == i) x = f;
  }
  return x / s;
}
double RefMaterial(const Config& c, const MaterialCfg& m, int type, double e,
                   double T, bool* near) {
  double s = 0, f = 0;
  for (auto& [n, x] : m.nuclides) {
    s += x * RefTotal(c, c.nuclides[n], type, e, T, near);
    f += x;
  }
  return s / f;
}

} // namespace mon
