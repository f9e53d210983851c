#include "reflaws.hpp"

#include <algorithm>

namespace mon {

double RefCdf::At(double v) const {
  if (v <= x.front()) return 0;
  if (v >= x.back()) return 1;
  const size_t i = std::upper_bound(x.begin(), x.end(), v) - x.begin();
  return F[i - 1] + (F[i] - F[i - 1]) * (v - x[i - 1]) / (x[i] - x[i - 1]);
}
double RefCdf::Inverse(double f) const {
  const size_t i = std::min<size_t>(
      std::max<size_t>(std::upper_bound(F.begin(), F.end(), f) - F.begin(), 1),
      F.size() - 1);
  if (F[i] == F[i - 1]) return x[i];
  return x[i - 1] + (x[i] - x[i - 1]) * (f - F[i - 1]) / (F[i] - F[i - 1]);
}
static RefCdf
Table(const TSLBetaPart& p, int row, double T, double lo, double hi) {
  RefCdf c;
  c.x.push_back(lo);
  c.F.push_back(0);
  for (size_t i = 0; i < p.F.size(); i++) {
    c.x.push_back(p.Value(i, row, T));
    c.F.push_back(p.F[i]);
  }
  c.x.push_back(hi);
  c.F.push_back(1);
  return c;
}

RefTSL::RefTSL(const TSL& t, double awr) : t{t}, awr{awr} {
  for (size_t i = 0; i < t.beta.size(); i++)
    for (size_t j = 0; j < t.beta[i].E.size(); j++) {
      Es.push_back(t.beta[i].E[j]);
      Ei.push_back({(int)i, (int)j});
    }
  for (size_t i = 0; i < t.alpha.size(); i++)
    for (size_t j = 0; j < t.alpha[i].E.size(); j++) {
      betas.push_back(t.alpha[i].E[j]);
      bi.push_back({(int)i, (int)j});
    }
}
RefTSL::BetaLaw RefTSL::Beta(double E, double T) const {
  BetaLaw l;
  const double kT = kBoltzmann * T;
  l.min = -E / kT;
  const size_t hi = std::upper_bound(Es.begin(), Es.end(), E) - Es.begin();
  auto add = [&](size_t i, double w) {
    auto [p, j] = Ei[i];
    l.parts.push_back({w, Table(t.beta[p], j, T, -Es[i] / kT, t.beta_cutoff)});
  };
  if (hi == 0) {
    add(0, 1);
    return l;
  }
  const double f = (E - Es[hi - 1]) / (Es[hi] - Es[hi - 1]);
  add(hi - 1, 1 - f);
  add(hi, f);
  return l;
}
double RefTSL::BetaLaw::At(double b) const {
  double s = 0;
  for (auto& [w, c] : parts) {
    const double cut = c.At(min);
    s += w * std::max(0., c.At(b) - cut) / (1 - cut);
  }
  return s;
}
double RefTSL::BetaLaw::Sample(Rng& r) const {
  const auto& [w, c] = parts[parts.size() > 1 && U(r) >= parts[0].first];
  const double cut = c.At(min);
  return std::max(min, c.Inverse(cut + U(r) * (1 - cut)));
}
double RefTSL::Limit(double E, double kT, double beta, int sign) const {
  const double s = std::sqrt(std::max(0., E + beta * kT));
  return std::pow(std::sqrt(E) + sign * s, 2) / (awr * kT);
}
std::vector<RefTSL::Row> RefTSL::Rows(double E, double kT, double b) const {
  const double ab = std::abs(b);
  const size_t j =
      std::upper_bound(betas.begin(), betas.end(), ab) - betas.begin();
  const double up = betas.at(j);
  const bool invalid = b > 0 ? up >= t.beta_cutoff : up > E / kT;
  const double s = b > 0 ? 1 : -1;
  if (j == 0) return {{1, invalid ? b : s * up, 0}};
  if (invalid) return {{1, s * betas[j - 1], j - 1}};
  const double f = (ab - betas[j - 1]) / (up - betas[j - 1]);
  return {{1 - f, s * betas[j - 1], j - 1}, {f, s * up, j}};
}
double RefTSL::AlphaAt(double E, double T, double b, double a) const {
  const double kT = kBoltzmann * T;
  const double lo = Limit(E, kT, b, -1), hi = Limit(E, kT, b, 1);
  const double u = (a - lo) / (hi - lo); // rescaled
  double sum = 0;
  for (auto& q : Rows(E, kT, b)) {
    auto [p, row] = bi[q.i];
    const RefCdf c = Table(t.alpha[p], row, T, 0, t.alpha_cutoff);
    const double l = Limit(E, kT, q.beta, -1), h = Limit(E, kT, q.beta, 1);
    const double F0 = c.At(l), F1 = c.At(h);
    sum += q.weight * (c.At(l + u * (h - l)) - F0) / (F1 - F0);
  }
  return sum;
}
double RefTSL::SampleAlpha(double E, double T, double b, Rng& r) const {
  const double kT = kBoltzmann * T;
  const double lo = Limit(E, kT, b, -1), hi = Limit(E, kT, b, 1);
  const auto rows = Rows(E, kT, b);
  const auto& q = rows[rows.size() > 1 && U(r) >= rows[0].weight];
  auto [p, row] = bi[q.i];
  const RefCdf c = Table(t.alpha[p], row, T, 0, t.alpha_cutoff);
  const double l = Limit(E, kT, q.beta, -1), h = Limit(E, kT, q.beta, 1);
  const double F0 = c.At(l), F1 = c.At(h);
  const double u = (c.Inverse(F0 + U(r) * (F1 - F0)) - l) / (h - l);
  return lo + std::min(1., std::max(0., u)) * (hi - lo);
}
void RefTSL::Sample(
    double E, double T, Rng& r, double& E_out, double& mu) const {
  const double kT = kBoltzmann * T;
  do {
    const double b = Beta(E, T).Sample(r);
    E_out = E + b * kT;
    if (!(E_out > 0)) continue;
    const double a = SampleAlpha(E, T, b, r);
    mu = (E + E_out - a * awr * kT) / (2 * std::sqrt(E * E_out));
  } while (!(E_out > 0) || !std::isfinite(mu));
  mu = std::min(1., std::max(-1., mu));
}

FreeGasOut RefFreeGas(Rng& r, double E, double T, double awr) {
  // velocities in units of sqrt(kT / target mass)
  V3 t;
  double v = 1;
  if (T > 0) {
    std::normal_distribution<double> g;
    v = std::sqrt(2 * E / (kBoltzmann * T) * awr);
    const double far = v + 9;
    for (;;) {
      t = {g(r), g(r), g(r)};
      const double rel = Norm(V3{-t.x, -t.y, v - t.z});
      if (U(r) * far < rel) break; // |t| > 9 has probability 1e-17
    }
  }
  const V3 n{0, 0, v};
  const V3 cm = (1 / (1 + awr)) * (n + awr * t);
  const V3 out = cm + Norm(n - cm) * RandDir(r);
  const double s = Norm(out);
  return {E * (s / v) * (s / v), out.z / s, std::atan2(out.y, out.x)};
}

} // namespace mon
