// C07: bins partition the line; crossings go to the bin that holds them.
#include "tally.hpp"

#include <algorithm>
#include <limits>

namespace mon {
const char* const kRule =
    "one evaluation is one value (or one direction and energy) whose bin index "
    "is compared with the declared boundaries; distinct non-trivial ones are "
    "values within some finite bin or exactly on a boundary, identified by "
    "bins and value";

static BinsCfg Random(Rng& r, bool cosine, bool many = false) {
  BinsCfg b;
  b.kind = BinsCfg::Kind(I(r, cosine || B(r, 0.95) ? 1 : 0, 3));
  const double m = cosine ? 1 : LogU(r, 1e-6, 1e6);
  const double off = cosine || B(r, 0.6) ? 0 : m * LogU(r, 1e-2, 1e3) * (B(r) ? 1 : -1);
  const int n = many ? I(r, 20000, 120000)
                : B(r, 0.1) ? I(r, 50, 3000) : I(r, 1, 12);
  switch (b.kind) {
  case BinsCfg::Lin:
    b.lo = off + U(r, -1, 0.9) * m;
    if (B(r, 0.2)) b.lo = 0;
    if (B(r, 0.2)) b.lo = std::round(b.lo);
    b.hi = b.lo + m * U(r, 0.01, 2);
    if (B(r, 0.3)) b.hi = std::ceil(b.hi + 1e-9);
    b.n = n;
    if (B(r, 0.25)) {
      const double w = std::ldexp(1., cosine ? I(r, -8, -1) : I(r, -12, 12));
      b.lo = w * I(r, cosine ? -(int)(1 / w) : -20, cosine ? 0 : 20);
      b.hi = b.lo + w * n;
    }
    break;
  case BinsCfg::Log: {
    if (B(r, 0.6)) b.base = Pick<double>(r, {2, M_E, 10, 1.5, 16, 1.01, 1000});
    const double w = std::log(10.) / std::log(b.base.value_or(10));
    b.lo = U(r, cosine ? -4 : -12, cosine ? -0.1 : 3) * w;
    if (B(r, 0.4)) b.lo = std::floor(b.lo);
    b.hi = b.lo + w * U(r, 0.1, 8);
    if (B(r, 0.4)) b.hi = std::ceil(b.hi);
    b.n = n;
    if (B(r, 0.25)) {
      const double e = std::ldexp(1., I(r, -3, 0));
      b.lo = e * I(r, cosine ? -40 : -20, 0);
      b.n = std::min(n, 60);
      b.hi = b.lo + e * b.n;
    }
    break;
  }
  case BinsCfg::Bounds: {
    std::set<double> s;
    for (int i = 0; i < n; i++) {
      double x = off + m * U(r, -1, 1);
      if (B(r, 0.3)) x = std::round(x);
      if (B(r, 0.05)) x = (B(r) ? 1 : -1) * LogU(r, 1e-300, 1e300);
      s.insert(x);
      // pairs of neighbouring doubles
      if (B(r, 0.1)) s.insert(std::nextafter(x, INFINITY));
    }
    b.bounds.assign(s.begin(), s.end());
    break;
  }
  default:;
  }
  return b;
}
static std::string G(double x) { return G17(x); }
static std::string X(const BinsCfg& b) {
  switch (b.kind) {
  case BinsCfg::Lin:
    return "<linspace min=\"" + G(b.lo) + "\" max=\"" + G(b.hi) +
           fmt("\" bins=\"%d\"/>", b.n);
  case BinsCfg::Log:
    return "<logspace min=\"" + G(b.lo) + "\" max=\"" + G(b.hi) +
           fmt("\" bins=\"%d\"", b.n) +
           (b.base ? " base=\"" + G(*b.base) + "\"" : "") + "/>";
  case BinsCfg::Bounds: {
    std::string s = "<boundaries>";
    for (double x : b.bounds) s += G(x) + " ";
    return s + "</boundaries>";
  }
  default: return "";
  }
}
static double Value(Rng& r, const BinsCfg& b, const std::vector<double>& x) {
  const double inf = INFINITY;
  const int kind = I(r, 0, 9);
  if (x.empty() || kind == 0)
    return Pick<double>(
        r, {0., -0., 1., -1., 5e-324, -5e-324, 1e300, -1e300,
            std::numeric_limits<double>::max(),
            -std::numeric_limits<double>::max(), 1e-310, inf, -inf});
  const double lo = x.front(), hi = x.back();
  const double w = hi > lo ? hi - lo : std::abs(lo) + 1;
  if (kind == 1) return lo - w * LogU(r, 1e-9, 1e3);
  if (kind == 2) return hi + w * LogU(r, 1e-9, 1e3);
  if (kind <= 4) return U(r, lo, hi);
  if (kind == 5 && lo > 0) return LogU(r, lo, hi);
  if (kind == 5) return -std::abs(U(r, lo, hi));
  double y = Pick(r, x);
  if (kind == 6) {
    // where the boundaries of logarithmic bins are exact
    if (b.kind == BinsCfg::Log && B(r))
      return B(r) ? 1 : b.base.value_or(10);
    return y;
  }
  if (kind == 7) return std::nextafter(y, B(r) ? inf : -inf);
  if (kind == 8) return y * (1 + (B(r) ? 1 : -1) * LogU(r, 1e-11, 1e-3));
  return y + (B(r) ? 1 : -1) * w / x.size() * LogU(r, 1e-9, 1);
}

void Run(Ctx& ctx) {
  auto values = [&](Case& k, bool many) {
    Rng& r = k.rng;
    const auto b = Random(r, false, many);
    pugi::xml_document doc;
    const std::string xml = "<energy>" + X(b) + "</energy>";
    if (!doc.load_string(xml.c_str())) return;
    const auto bins = Bins::Create(doc.child("energy").first_child());
    const auto x = b.kind ? b.Boundaries() : std::vector<double>{};
    if (bins->size() != x.size() + 1)
      return k.Fail("size", fmt("%s has %zu bins, expected %zu", xml.c_str(),
                                bins->size(), x.size() + 1));
    std::vector<std::pair<double, size_t>> all;
    for (int i = 0; i < 60; i++) {
      const double v = Value(r, b, x);
      k.Eval();
      const size_t got = bins->GetIndex(v);
      bool near;
      const int want = RefBin(b, v, &near);
      all.emplace_back(v, got);
      if (got >= bins->size())
        return k.Fail("range", fmt("%s: index of %.17g is %zu of %zu",
                                   xml.c_str(), v, got, bins->size()));
      if ((long)got != want &&
          !(near && std::abs((long)got - want) == 1))
        return k.Fail("bin", fmt("%s: index of %.17g is %zu, expected %d",
                                 xml.c_str(), v, got, want));
      if (near) ctx.Count("values on rounded boundaries");
      const bool on = std::find(x.begin(), x.end(), v) != x.end();
      if (on) ctx.Count("values exactly on a boundary");
      if (want == 0) ctx.Count("values below all boundaries");
      else if (want == (int)x.size()) ctx.Count("values above all boundaries");
      else ctx.Count("values in finite bins");
      if (on || (want > 0 && want < (int)x.size()))
        k.Nontrivial(HashD(Hash(xml), v));
    }
    std::sort(all.begin(), all.end());
    for (size_t i = 1; i < all.size(); i++)
      if (all[i].second < all[i - 1].second)
        return k.Fail("order", fmt("%s: %.17g is in bin %zu but %.17g in bin "
                                   "%zu", xml.c_str(), all[i - 1].first,
                                   all[i - 1].second, all[i].first,
                                   all[i].second));
    // the printed boundaries
    const std::string s = bins->to_string();
    std::vector<double> printed;
    for (size_t p = 0; b.kind && p < s.size();) {
      const size_t q = s.find(',', p);
      if (q == std::string::npos) break;
      printed.push_back(atof(s.substr(p, q - p).c_str()));
      p = q + 1;
    }
    if (printed.size() != x.size())
      return k.Fail("printed", fmt("%s prints %zu boundaries", xml.c_str(),
                                   printed.size()));
    const double w = b.kind == BinsCfg::Lin
                         ? std::abs(x.front()) + std::abs(x.back()) : 0;
    for (size_t i = 0; i < x.size(); i++)
      if (std::abs(printed[i] - x[i]) > 1e-6 * std::abs(x[i]) + 1e-13 * w)
        return k.Fail("printed", fmt("%s: boundary %zu is printed as %.9g, "
                                     "is %.9g", xml.c_str(), i, printed[i],
                                     x[i]));
    ctx.Count(b.kind == BinsCfg::Lin ? "linear bins"
              : b.kind == BinsCfg::Log ? "logarithmic bins"
              : b.kind ? "explicit bins" : "no bins");
    if (ctx.samples.size() < 4)
      ctx.Sample("{\"bins\": \"" + JsonEscape(xml) + "\", \"value\": " +
                 fmt("\"%.17g\", \"index\": %zu}", all[30].first,
                     all[30].second));
  };
  ctx.Cases("values", ctx.N(60000, 2000000), [&](Case& k) { values(k, false); });
  ctx.Cases("many", ctx.N(200, 4000), [&](Case& k) { values(k, true); });
  // joint bins over real particles
  auto particles = [&](Case& k, bool many) {
    Rng& r = k.rng;
    EstCfg e;
    if (B(r, 0.85)) e.cosine = Random(r, true, many);
    const bool groups = B(r, 0.4);
    if (B(r, 0.85)) {
      e.energy = Random(r, false, many);
      if (groups && !many && B(r, 0.8)) e.energy = GenBins(r, 0.5, 9.5);
    }
    if (!many && e.cosine.Size() > 100) e.cosine = GenBins(r, -1, 1);
    e.ref = B(r) ? RandDirSpecial(r) : LogU(r, 1e-6, 1e6) * RandDirSpecial(r);
    std::string xml = "<bins>";
    if (e.energy.kind) xml += "<energy>" + X(e.energy) + "</energy>";
    if (e.cosine.kind)
      xml += "<cosine u=\"" + G(e.ref.x) + "\" v=\"" + G(e.ref.y) + "\" w=\"" +
             G(e.ref.z) + "\">" + X(e.cosine) + "</cosine>";
    xml += "</bins>";
    pugi::xml_document doc;
    if (!doc.load_string(xml.c_str())) return;
    const ParticleBins bins{doc.child("bins")};
    const uint64_t hx = Hash(xml);
    if (bins.size() != RefSize(e))
      return k.Fail("size", fmt("%s has %zu slots, expected %zu", xml.c_str(),
                                bins.size(), RefSize(e)));
    const auto xc = e.cosine.kind ? e.cosine.Boundaries() : std::vector<double>{};
    const auto xe = e.energy.kind ? e.energy.Boundaries() : std::vector<double>{};
    std::map<std::pair<int, int>, size_t> slot;
    std::map<size_t, std::pair<int, int>> owner;
    for (int i = 0; i < 80; i++) {
      // a direction with a wanted cosine
      V3 d = RandDirSpecial(r);
      if (e.cosine.kind && B(r, 0.6)) {
        double mu = Value(r, e.cosine, xc);
        if (!(std::abs(mu) <= 1)) mu = B(r) ? 1 : -1;
        const V3 a = Unit(e.ref);
        V3 p = Cross(a, RandDir(r));
        p = Unit(p);
        d = mu * a + std::sqrt(1 - mu * mu) * p;
      }
      const Direction dir{d.x, d.y, d.z};
      const V3 dd = ToV3(dir);
      Energy en;
      double ev;
      if (groups) {
        const Group g = B(r, 0.9) ? I(r, 1, 9) : I(r, 10, 100000);
        en = g;
        ev = g;
      }
      else {
        ev = Value(r, e.energy, xe);
        if (!std::isfinite(ev)) ev = 1;
        en = ev;
      }
      const Particle p{Point{U(r), U(r), U(r)}, dir, en,
                       B(r) ? Particle::Type::neutron : Particle::Type::photon,
                       1};
      bool n1 = false, n2 = false;
      const int ei = RefBin(e.energy, ev, &n1);
      int ci = 0;
      const double mu = Dot(Unit(e.ref), dd);
      if (e.cosine.kind) {
        ci = RefBin(e.cosine, mu, &n2);
        for (double y : xc)
          if (std::abs(mu - y) < 1e-14) n2 = true;
      }
      k.Eval();
      const size_t got = bins.GetIndex(p);
      if (got >= bins.size())
        return k.Fail("range", fmt("%s: energy %.17g, cosine %.17g gets slot "
                                   "%zu of %zu", xml.c_str(), ev, mu, got,
                                   bins.size()));
      if (n1 || n2) {
        ctx.Count("particles on rounded boundaries");
        continue;
      }
      k.Nontrivial(HashD(HashD(hx, ev), mu));
      const std::pair<int, int> pr{ci, ei};
      // one slot per pair of bins
      const auto s = slot.emplace(pr, got);
      const auto o = owner.emplace(got, pr);
      if (s.first->second != got || o.first->second != pr)
        return k.Fail("slots",
                      fmt("%s: energy bin %d and cosine bin %d (energy %.17g, "
                          "cosine %.17g) go to slot %zu, which belongs to "
                          "energy bin %d and cosine bin %d",
                          xml.c_str(), ei, ci, ev, mu, got,
                          o.first->second.second, o.first->second.first));
      // printed in order cosine bin by cosine bin
      if (got != (size_t)ci * e.energy.Size() + ei)
        return k.Fail("slots", fmt("%s: energy bin %d and cosine bin %d go to "
                                   "slot %zu", xml.c_str(), ei, ci, got));
      ctx.Count(groups ? "particles with groups" : "particles with energies");
    }
    ctx.Count("pairs of bins seen", slot.size());
  };
  ctx.Cases("particles", ctx.N(12000, 400000), [&](Case& k) { particles(k, false); });
  // products of more than 2^32 slots
  ctx.Cases("slots", ctx.N(100, 2000), [&](Case& k) { particles(k, true); });
}
} // namespace mon
