// C01: distances to surfaces are first forward crossings; inside/outside agree.
#include "drive.hpp"

namespace mon {
const char* const kRule =
    "one evaluation is one distance query or one inside query compared with "
    "quadruple precision; distinct non-trivial ones are (surface, origin, "
    "direction) triples for which a crossing exists or nearly exists";

using quadv = std::array<quad, 3>;
static const double kInf = std::numeric_limits<double>::infinity();
static const double kEps = std::numeric_limits<double>::epsilon();

static std::unique_ptr<const CSGSurface> Make(const Surf& s) {
  std::string x = "<minimc><surfaces>";
  if (s.kind == Surf::Sphere)
    x += "<sphere name=\"q\"><center x=\"" + G17(s.c.x) + "\" y=\"" +
         G17(s.c.y) + "\" z=\"" + G17(s.c.z) + "\"/><radius r=\"" + G17(s.r) +
         "\"/></sphere>";
  else if (s.kind == Surf::PlaneX)
    x += "<planex name=\"q\" x=\"" + G17(s.c.x) + "\"/>";
  else x += "<cylinderx name=\"q\" r=\"" + G17(s.r) + "\"/>";
  x += "</surfaces></minimc>";
  pugi::xml_document d;
  d.load_string(x.c_str());
  return CSGSurface::Create(d.child("minimc"), "q");
}

struct Outcomes {
  bool none = false;                 // "no crossing" is acceptable
  std::vector<std::pair<quad, quad>> t; // acceptable ranges
};
// all answers that roundoff in the coefficients could explain
static Outcomes Acceptable(const Surf& s, V3 p, V3 d) {
  Outcomes o;
  if (s.kind == Surf::PlaneX) {
    const quad v = (quad)s.c.x - p.x;
    if (d.x == 0 || v / d.x <= 0) {
      o.none = true;
      return o;
    }
    const quad t = v / d.x;
    if (t > 1e300) o.none = true;
    o.t.push_back({t * (1 - 8 * kEps), t * (1 + 8 * kEps)});
    return o;
  }
  const bool sph = s.kind == Surf::Sphere;
  const quad x = sph ? (quad)p.x - s.c.x : 0,
             y = (quad)p.y - (sph ? s.c.y : 0),
             z = (quad)p.z - (sph ? s.c.z : 0);
  const quad ox = sph ? x : 0, dx = sph ? d.x : 0;
  const quad a = dx * dx + (quad)d.y * d.y + (quad)d.z * d.z,
             b = ox * dx + y * d.y + z * d.z,
             c = ox * ox + y * y + z * z - (quad)s.r * s.r;
  const quad o2 = x * x + y * y + z * z, r2 = (quad)s.r * s.r;
  const quad da = 16 * kEps * a, db = 16 * kEps * qsqrt(o2 * a),
             dc = 16 * kEps * (o2 + r2);
  // ranges of the near and the far root, and which can be the answer
  quad lo[2] = {1e4000Q, 1e4000Q}, hi[2] = {-1e4000Q, -1e4000Q};
  bool can[2] = {false, false}, touch = false;
  for (int i = 0; i < 27; i++) {
    const quad A = a + (i % 3 - 1) * da, B = b + (i / 3 % 3 - 1) * db,
               C = c + (i / 9 - 1) * dc;
    if (A <= 0) {
      o.none = true;
      continue;
    }
    const quad disc = B * B - A * C;
    quad t1, t2;
    if (disc <= 0) {
      o.none = true;
      touch = true;
      t1 = t2 = -B / A;
    }
    else {
      const quad sq = qsqrt(disc);
      t1 = B > 0 ? (-B - sq) / A : C / (-B + sq);
      t2 = B > 0 ? C / (-B - sq) : (-B + sq) / A;
      if (t1 > 0) can[0] = true;
      else if (t2 > 0) can[1] = true;
      else o.none = true;
    }
    lo[0] = std::min(lo[0], t1);
    hi[0] = std::max(hi[0], t1);
    lo[1] = std::min(lo[1], t2);
    hi[1] = std::max(hi[1], t2);
  }
  if (touch && (can[0] || can[1])) {
    // nearly tangential: anything between the roots
    lo[0] = lo[1] = std::min(lo[0], lo[1]);
    hi[0] = hi[1] = std::max(hi[0], hi[1]);
  }
  for (int w = 0; w < 2; w++)
    if (can[w]) {
      const quad pad = (hi[w] - lo[w]) * 0.25Q + hi[w] * 4 * kEps;
      o.t.push_back({std::max((quad)0, lo[w] - pad), hi[w] + pad});
    }
  return o;
}
static std::string Str(const Surf& s, V3 p, V3 d) {
  return fmt("%s centre (%.17g, %.17g, %.17g) radius %.17g, origin (%.17g, "
             "%.17g, %.17g), direction (%.17g, %.17g, %.17g)",
             s.kind == Surf::Sphere ? "sphere"
             : s.kind == Surf::PlaneX ? "x-plane" : "x-cylinder",
             s.c.x, s.c.y, s.c.z, s.r, p.x, p.y, p.z, d.x, d.y, d.z);
}
// how far from the surface doubles cannot tell the sides apart
static double Margin(const Surf& s, V3 p) {
  if (s.kind == Surf::PlaneX) return 0;
  const V3 o = s.kind == Surf::Sphere ? p - s.c : V3{0, p.y, p.z};
  return 16 * kEps * (Dot(o, o) / s.r + s.r);
}
static void CheckInside(
    Case& k, const CSGSurface& f, const Surf& s, V3 p, bool exact = false) {
  k.Eval();
  k.ctx.Count("inside queries");
  const bool got = f.Contains(ToPt(p));
  if (!exact && std::abs(RefSigned(s, p)) <= Margin(s, p) &&
      s.kind != Surf::PlaneX) {
    k.ctx.Count("inside undecidable by roundoff");
    return;
  }
  const bool want = RefInside(s, p);
  if (got != want)
    k.Fail("inside", fmt("reported %s but the point is %s: ",
                         got ? "inside" : "outside",
                         want ? "inside" : "not inside") + Str(s, p, {}));
}
static void CheckDistance(
    Case& k, const CSGSurface& f, const Surf& s, V3 p, V3 d0) {
  const Direction dd{d0.x, d0.y, d0.z};
  const V3 d = ToV3(dd);
  k.Eval();
  const double t = f.Distance(ToPt(p), dd);
  const auto ok = Acceptable(s, p, d);
  uint64_t h = Hash(Str(s, p, d));
  bool good;
  if (std::isinf(t) && t > 0) {
    good = ok.none;
    k.ctx.Count(ok.t.empty() ? "no crossing" : "tangent or on the surface");
    if (!ok.t.empty()) k.Nontrivial(h);
  }
  else {
    good = false;
    if (t > 0)
      for (auto& [a, b] : ok.t) good |= (quad)t >= a && (quad)t <= b;
    k.ctx.Count("crossings");
    k.Nontrivial(h);
  }
  if (!good) {
    std::string w = ok.none ? "none" : "";
    for (auto& [a, b] : ok.t)
      w += fmt(" [%.17g, %.17g]", (double)a, (double)b);
    k.Fail("distance",
           fmt("reported distance %.17g, first forward crossing: ", t) + w +
               "; " + Str(s, p, d));
    return;
  }
  // sides just before and just after
  if (std::isfinite(t)) {
    const double scale = s.kind == Surf::PlaneX
                             ? std::abs(s.c.x) + Norm(p) + t
                             : Norm(p - s.c) + s.r + t;
    const double step = 1e-6 * scale;
    const V3 a = p + (t - step) * d, b = p + (t + step) * d;
    const auto c = RefCross(s, p, d);
    // (far from the origin the coordinates of a and b are themselves rounded)
    const bool room = !c.ambiguous && t > 4 * step &&
                      step > 64 * kEps * (Norm(p) + Norm(s.c) + t) &&
                      RefInside(s, a) != RefInside(s, b) &&
                      (c.t2 < 0 || (double)(c.t2 - c.t) > 4 * step) &&
                      std::abs(RefSigned(s, a)) > Margin(s, a) + 1e-12 * scale &&
                      std::abs(RefSigned(s, b)) > Margin(s, b) + 1e-12 * scale &&
                      c.t > 0 && std::abs((double)c.t - t) < step / 2;
    if (room) {
      k.Eval();
      k.ctx.Count("sides around a crossing");
      if (f.Contains(ToPt(a)) == f.Contains(ToPt(b)))
        k.Fail("flip", "inside/outside is the same just before and just after "
                       "the reported distance " + G17(t) + "; " + Str(s, p, d));
    }
  }
}
static Surf RandSurf(Rng& r, int kind) {
  Surf s;
  s.kind = Surf::Kind(kind);
  s.name = "q";
  const double L = B(r, 0.4) ? 1 : B(r, 0.7) ? LogU(r, 1e-3, 1e4) : LogU(r, 1e-9, 1e9);
  auto rd = [&](double v) { return B(r, 0.3) ? std::round(v * 4) / 4 : v; };
  if (kind == Surf::Sphere) {
    const double off = B(r, 0.3) ? 0 : B(r, 0.2) ? LogU(r, 1, B(r, 0.2) ? 1e9 : 1e5) : 1;
    s.c = (off * L) * V3{rd(U(r, -2, 2)), rd(U(r, -2, 2)), rd(U(r, -2, 2))};
    s.r = L * std::max(0.25, rd(U(r, 0.1, 3)));
  }
  else if (kind == Surf::PlaneX) s.c.x = B(r, 0.15) ? 0 : L * rd(U(r, -3, 3));
  else s.r = L * std::max(0.25, rd(U(r, 0.1, 3)));
  return s;
}

void Run(Ctx& ctx) {
  static const char* kinds[] = {"sphere", "planex", "cylinderx"};
  for (int kind = 0; kind < 3; kind++) {
    ctx.Cases(kinds[kind], ctx.N(2000, 60000), [&](Case& k) {
      Rng& r = k.rng;
      const Surf s = RandSurf(r, kind);
      const auto f = Make(s);
      if (f->name != "q") k.Fail("name", "wrong surface name " + f->name);
      const double L = kind == Surf::PlaneX ? std::max(1., std::abs(s.c.x)) : s.r;
      const V3 ctr = kind == Surf::Sphere ? s.c
                     : kind == Surf::PlaneX ? V3{s.c.x, 0, 0}
                                            : V3{};
      for (int j = 0; j < 120 && !k.failed; j++) {
        V3 p, d = RandDirSpecial(r);
        V3 n = RandDir(r); // radial direction
        if (kind == Surf::CylinderX) n = Unit(V3{0, n.y, n.z});
        const V3 along =
            kind == Surf::CylinderX
                ? V3{s.r * (B(r, 0.2) ? LogU(r, 1, 1e3) : U(r, -3, 3)), 0, 0}
                : V3{};
        switch (I(r, 0, 9)) {
        case 0: p = ctr + along; break; // centre
        case 1:                         // on the surface, as well as it goes
          p = kind == Surf::PlaneX ? V3{s.c.x, U(r, -3, 3), U(r, -3, 3)}
                                   : ctr + along + s.r * n;
          break;
        case 2: // just off the surface
          p = kind == Surf::PlaneX
                  ? V3{s.c.x + (B(r) ? 1 : -1) * L * LogU(r, 1e-15, 1e-3),
                       U(r, -3, 3), U(r, -3, 3)}
                  : ctr + along +
                        (s.r * (1 + (B(r) ? 1 : -1) * LogU(r, 1e-15, 1e-3))) * n;
          break;
        case 3: p = ctr + along + (L * U(r, 0, 1)) * n; break; // inside
        case 4: // far away
          p = ctr + along + (L * LogU(r, 3, B(r, 0.3) ? 1e9 : 1e3)) * RandDir(r);
          break;
        case 5: { // aimed to pass close to tangency
          const V3 e = Unit(Cross(n, RandDir(r)));
          double off = (B(r) ? 1 : -1) * LogU(r, 1e-12, 0.3);
          p = ctr + along + (s.r * (1 + off)) * n - (L * U(r, -2, 5)) * e;
          d = e;
          break;
        }
        case 6: { // exactly tangent or exactly central along an axis
          if (kind == Surf::Sphere)
            p = ctr + V3{0, B(r) ? s.r : 0, -U(r, 0, 3) * L}, d = {0, 0, 1};
          else p = {U(r, -2, 2), B(r) ? L : 0, -3 * L}, d = {0, 0, 1};
          break;
        }
        default:
          p = ctr + along + L * V3{U(r, -3, 3), U(r, -3, 3), U(r, -3, 3)};
        }
        if (B(r, 0.15)) { // aim at (or away from) the centre
          const V3 v = ctr - p;
          if (Norm(v) > 0) d = (B(r) ? 1 : -1) * Unit(v);
        }
        CheckDistance(k, *f, s, p, d);
        CheckInside(k, *f, s, p);
        if (k.ctx.samples.size() < 3 && j == 7) {
          k.ctx.Sample("{\"query\": \"" + JsonEscape(Str(s, p, d)) +
                       "\", \"distance\": \"" +
                       G17(f->Distance(ToPt(p), Direction{d.x, d.y, d.z})) +
                       "\"}");
        }
      }
      // points exactly on a surface are not inside
      for (int j = 0; j < 20 && !k.failed; j++) {
        Surf e = s;
        const double m = std::ldexp(I(r, 1, 64), I(r, -8, 8));
        V3 p;
        if (kind == Surf::PlaneX) {
          p = {s.c.x, U(r, -9, 9), U(r, -9, 9)};
        }
        else {
          e.c = {};
          e.r = 5 * m;
          static const double tr[4][3] = {{3, 4, 0}, {4, 3, 0}, {5, 0, 0}, {0, 5, 0}};
          const auto* q = tr[I(r, 0, 3)];
          p = {0, (B(r) ? 1 : -1) * q[0] * m, (B(r) ? 1 : -1) * q[1] * m};
        }
        const auto g = Make(e);
        CheckInside(k, *g, e, p, true);
        k.ctx.Count("exact on-surface points");
        // and the neighbouring doubles far enough to be told apart
        if (kind != Surf::PlaneX) {
          CheckInside(k, *g, e, (1 - 1e-13) * p);
          CheckInside(k, *g, e, (1 + 1e-13) * p);
        }
        else {
          CheckInside(k, *g, e, {std::nextafter(p.x, -kInf), p.y, p.z});
          CheckInside(k, *g, e, {std::nextafter(p.x, kInf), p.y, p.z});
        }
      }
    });
  }
}
} // namespace mon
