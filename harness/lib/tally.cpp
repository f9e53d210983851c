#include "tally.hpp"

#include <algorithm>
#include <cstdlib>

namespace mon {

int RefBin(const BinsCfg& b, double v, bool* near) {
  if (near) *near = false;
  if (b.kind == BinsCfg::None) return 0;
  const auto x = b.Boundaries();
  const int i = std::upper_bound(x.begin(), x.end(), v) - x.begin();
  if (near && b.kind != BinsCfg::Bounds) {
    const double w = std::abs(x.back()) + std::abs(x.front());
    for (double y : x) {
      const double tol = b.kind == BinsCfg::Log
                             ? 1e-12 * std::abs(y) * (1 + std::abs(std::log(y)))
                             : 1e-13 * w;
      if (std::abs(v - y) <= tol) *near = true;
    }
    // the first and last boundary of a linear grid are given literally
    if (b.kind == BinsCfg::Lin && (v == b.lo || v == b.hi)) *near = false;
    // boundaries on a dyadic grid are exact whichever way they are computed
    const double width = (b.hi - b.lo) / b.n, offset = b.lo / width;
    int e;
    if (*near && std::frexp(width, &e) == 0.5 &&
        std::nearbyint(offset) == offset && std::abs(offset) < 1e6 &&
        b.n < 1000000) {
      if (b.kind == BinsCfg::Lin && (v == 0 || std::abs(v) > 1e-200) &&
          std::nearbyint(v / width) == v / width)
        *near = false;
      // log(1) is exact; log(base) may be divided by or multiplied with the
      // reciprocal
      if (b.kind == BinsCfg::Log && v == 1)
        *near = false;
    }
  }
  return i;
}
size_t RefSize(const EstCfg& e) { return (size_t)e.cosine.Size() * e.energy.Size(); }
int RefIndex(const EstCfg& e, const Ev& ev) {
  bool n1, n2 = false;
  const int ei = RefBin(e.energy, ev.energy, &n1);
  int ci = 0;
  if (e.cosine.kind) {
    const double mu = Dot(Unit(e.ref), ev.dir);
    ci = RefBin(e.cosine, mu, &n2);
    // rounding of the cosine itself matters for every kind of boundary
    for (double y : e.cosine.Boundaries())
      if (std::abs(mu - y) < 1e-14) n2 = true;
  }
  if (n1 || n2) return -1;
  return ci * e.energy.Size() + ei;
}
RefScores RefTally(
    const EstCfg& e, const std::vector<Hist>& hist,
    const std::function<double(const Track&, size_t)>& weight) {
  RefScores r;
  const size_t n = RefSize(e);
  r.sum.assign(n, 0);
  r.sum2.assign(n, 0);
  r.undecidable.assign(n, 0);
  for (auto& h : hist) {
    std::map<int, double> x;
    int here = 0;
    for (auto& t : h.tracks)
      for (size_t i = 0; i < t.steps.size(); i++) {
        const Ev& ev = t.steps[i];
        if (ev.event != eCross && ev.event != eLeak) continue;
        if (ev.surf != e.surface) continue;
        r.crossings++;
        here++;
        const int b = RefIndex(e, ev);
        if (b < 0) {
          std::fill(r.undecidable.begin(), r.undecidable.end(), 1);
          continue;
        }
        x[b] += weight(t, i);
      }
    r.histories_scoring += here > 0;
    r.histories_multiple += here > 1;
    for (auto& [b, s] : x) {
      r.sum[b] += s;
      r.sum2[b] += s * s;
    }
  }
  return r;
}
bool ParseNumber(const std::string& s, double& v) {
  char* end;
  v = strtod(s.c_str(), &end);
  return !s.empty() && !*end && std::isfinite(v);
}
std::string CompareScores(
    const Block& b, const RefScores& r, double N, double rel, double abs_mean) {
  if (b.mean.size() != r.sum.size() || b.sd.size() != r.sum.size())
    return fmt("%s: %zu means and %zu standard errors printed for %zu bins",
               b.name.c_str(), b.mean.size(), b.sd.size(), r.sum.size());
  for (size_t i = 0; i < r.sum.size(); i++) {
    double m, s;
    if (!ParseNumber(b.mean[i], m))
      return fmt("%s: mean of bin %zu printed as %s", b.name.c_str(), i,
                 b.mean[i].c_str());
    if (!ParseNumber(b.sd[i], s))
      return fmt("%s: standard error of bin %zu printed as %s", b.name.c_str(),
                 i, b.sd[i].c_str());
    if (r.undecidable[i]) continue;
    const double em = r.sum[i] / N;
    if (std::abs(m - em) > rel * std::abs(em) + abs_mean)
      return fmt("%s: mean of bin %zu is %s, the histories scored %.9g / %g = "
                 "%.9g", b.name.c_str(), i, b.mean[i].c_str(), r.sum[i], N, em);
    const double ev =
        std::max(0., r.sum2[i] - r.sum[i] * r.sum[i] / N) / (N * N);
    // cancellation in the variance
    const double tol = 1e-12 * r.sum2[i] / (N * N) * std::max(1., std::sqrt(N));
    if (std::abs(s * s - ev) > 2 * rel * ev + tol)
      return fmt("%s: standard error of bin %zu is %s, sqrt(%.9g - %.9g^2/%g)/"
                 "%g = %.9g", b.name.c_str(), i, b.sd[i].c_str(), r.sum2[i],
                 r.sum[i], N, N, std::sqrt(ev));
  }
  return {};
}

} // namespace mon
