#include "walk.hpp"

#include "tally.hpp"

#include <algorithm>
#include <limits>

namespace mon {

static const double kEps = std::numeric_limits<double>::epsilon();

namespace {
struct Root {
  double t;
  double tol; // how well doubles can know it
  int surf;
};
struct Roots {
  std::vector<Root> r; // of all surfaces, unordered
  bool ambiguous = false;
};
} // namespace

// signed crossings of all surfaces of `cell`
static Roots
CellRoots(const Config& c, const CellCfg& cell, V3 p, V3 d, double L) {
  Roots out;
  for (auto& [i, se] : cell.surfaces) {
    const Surf& s = c.surfaces[i];
    const double P = Norm(p) + L;
    if (s.kind == Surf::PlaneX) {
      if (d.x == 0) continue;
      const double t = (double)(((quad)s.c.x - p.x) / d.x);
      const double S = std::abs(p.x) + std::abs(s.c.x) + P;
      out.r.push_back({t, 64 * kEps * (S / std::abs(d.x) + std::abs(t)) , i});
      continue;
    }
    const bool sph = s.kind == Surf::Sphere;
    const quad x = sph ? (quad)p.x - s.c.x : 0,
               y = (quad)p.y - (sph ? s.c.y : 0),
               z = (quad)p.z - (sph ? s.c.z : 0);
    const quad dx = sph ? d.x : 0;
    const quad a = dx * dx + (quad)d.y * d.y + (quad)d.z * d.z,
               b = x * dx + y * d.y + z * d.z,
               cc = x * x + y * y + z * z - (quad)s.r * s.r;
    if (a < 1e-12Q) {
      // practically parallel to the axis
      if (a > 0) out.ambiguous |= (double)(qabs(b) / a) < 1e6 * s.r || true;
      continue;
    }
    const quad disc = b * b - a * cc;
    // normal distances to the surface are known to within this much
    const double o = (double)qsqrt(x * x + y * y + z * z);
    const double R = o + s.r + (sph ? Norm(s.c) : 0) + P;
    const double S2 = o * o + s.r * s.r + s.r * R;
    const double noise = 256 * kEps * S2; // of c and of disc/a
    if ((double)qabs(disc / a) < 64 * noise) {
      // tangential within roundoff: relevant only if ahead or here
      if ((double)(-b / a) > -1e-3 * s.r) out.ambiguous = true;
      continue;
    }
    if (disc <= 0) continue;
    const quad sq = qsqrt(disc);
    const quad t1 = b > 0 ? (-b - sq) / a : cc / (-b + sq),
               t2 = b > 0 ? cc / (-b - sq) : (-b + sq) / a;
    const double hc = (double)(sq / a);
    const double tol = noise / ((double)a * hc) + 64 * kEps * (R + hc);
    out.r.push_back({(double)t1, tol, i});
    out.r.push_back({(double)t2, tol, i});
  }
  return out;
}
// a point this close to the surface cannot be attributed to a side
static double SideTol(const Surf& s, V3 p) {
  const double P = Norm(p) + Norm(s.c);
  if (s.kind == Surf::PlaneX) return 64 * kEps * P;
  const double o = s.kind == Surf::Sphere ? Norm(p - s.c)
                                          : std::hypot(p.y, p.z);
  return 256 * kEps * (o * o / s.r + s.r + P);
}

static std::string Where(const Hist& h, const Track& t, size_t i, V3 p, V3 d) {
  return fmt("history %zu, particle born at (%.17g, %.17g, %.17g), flight %zu "
             "from (%.17g, %.17g, %.17g) along (%.17g, %.17g, %.17g): ",
             h.id, t.birth.pos.x, t.birth.pos.y, t.birth.pos.z, i, p.x, p.y,
             p.z, d.x, d.y, d.z);
}

bool CheckTrack(
    Case& k, const Config& c, const Hist& h, const Track& t, WalkRules rules,
    double scale, WalkStats& st) {
  const bool F = rules == WalkRules::Flights;
  V3 p = t.birth.pos, d = t.birth.dir;
  double en = t.birth.energy;
  int cell = -1;       // claimed cell, unknown at birth
  int last_surf = -1;  // surface just crossed
  for (size_t i = 0; i < t.steps.size(); i++) {
    const Ev& e = t.steps[i];
    st.flights++;
    k.Eval();
    auto fail = [&](const char* key, const std::string& m) {
      k.Fail(key, Where(h, t, i, p, d) + "to " +
                      fmt("(%.17g, %.17g, %.17g) event %s: ", e.pos.x, e.pos.y,
                          e.pos.z, EventName(e.event)) + m);
      return false;
    };
    if (e.cell < 0) return fail("cell", "no cell of the world");
    const V3 m = e.pos - p;
    const double L = Dot(m, d);
    const double S = Norm(p) + Norm(e.pos) + std::abs(L);
    const double pos_tol = 64 * kEps * S;
    const bool crossing = e.event == eCross || e.event == eLeak;
    const bool collision = e.event == eScatter || e.event == eCapture ||
                           e.event == eFission || e.event == eVirtual;
    if (!crossing && !collision)
      return fail("event", "an event that cannot be");
    const bool changed_cell = cell >= 0 && e.cell != cell;
    if (cell < 0) {
      // birth: the claimed cell is that of the collision, or found below
      cell = collision ? e.cell : RefFindCell(c, p);
      if (cell < 0) return fail("cell", "the birth position is in no cell");
      bool decided = true;
      for (auto& x : c.cells)
        for (auto& [si, se] : x.surfaces)
          decided &= std::abs(RefSigned(c.surfaces[si], p)) >
                     SideTol(c.surfaces[si], p);
      if (decided && !RefCellContains(c, c.cells[cell], p))
        return fail("cell", fmt("starts in cell %d, which does not contain "
                                "the start", cell));
    }
    if (!std::isfinite(L)) return fail("straight", "not a finite flight");
    if (F) {
      if (std::abs(Norm(e.dir) - 1) > 1e-12)
        return fail("unit", fmt("direction of length %.17g", Norm(e.dir)));
      if (L < -pos_tol) return fail("straight", fmt("flight of length %g", L));
      const V3 off = m - L * d;
      if (Norm(off) > pos_tol + 1e-12 * L)
        return fail("straight", fmt("leaves its line by %g", Norm(off)));
      if (e.event != eScatter &&
          (e.dir.x != d.x || e.dir.y != d.y || e.dir.z != d.z))
        return fail("unchanged", "direction changed without a scatter");
      if (e.event != eScatter && e.energy != en)
        return fail("unchanged", fmt("energy changed from %.17g to %.17g "
                                     "without a scatter", en, e.energy));
    }
    const CellCfg& cc = c.cells[cell];
    // ---- where the boundaries are
    auto roots = CellRoots(c, cc, p, d, std::abs(L));
    double near = std::numeric_limits<double>::infinity(), near_tol = 0;
    int near_surf = -1;
    bool ambiguous = roots.ambiguous;
    // of the surface just crossed, the root here does not count
    if (last_surf >= 0) {
      int best = -1;
      for (size_t j = 0; j < roots.r.size(); j++)
        if (roots.r[j].surf == last_surf &&
            (best < 0 || std::abs(roots.r[j].t) < std::abs(roots.r[best].t)))
          best = j;
      if (best >= 0) {
        if (std::abs(roots.r[best].t) <= 8 * roots.r[best].tol + 1e-13 * scale)
          roots.r.erase(roots.r.begin() + best);
      }
    }
    double second = near, second_tol = 0;
    for (auto& r : roots.r) {
      if (std::abs(r.t) <= 4 * r.tol) ambiguous = true;
      if (r.t <= 0) continue;
      if (r.t < near) {
        second = near;
        second_tol = near_tol;
        near = r.t;
        near_tol = r.tol;
        near_surf = r.surf;
      }
      else if (r.t < second) {
        second = r.t;
        second_tol = r.tol;
      }
    }
    const double tol = 4 * near_tol + pos_tol + 1e-13 + 1e-11 * scale;
    if (std::isfinite(second) &&
        second - near <= 4 * (near_tol + second_tol) + 2 * pos_tol + 2e-13 +
                              2e-11 * scale)
      ambiguous = true; // two boundaries at once
    if (ambiguous) st.skipped++;
    if (!ambiguous) {
      if (F) {
        if (crossing) {
          if (near_surf < 0)
            return fail("boundary", "crossing reported but no boundary ahead");
          if (L > near + tol)
            return fail("boundary",
                        fmt("went %.17g, past the nearest boundary of cell %d "
                            "(%s) at %.17g", L, cell,
                            c.surfaces[near_surf].name.c_str(), near));
          if (L < near - tol)
            return fail("boundary",
                        fmt("stopped at %.17g, the nearest boundary (%s) is "
                            "at %.17g", L, c.surfaces[near_surf].name.c_str(),
                            near));
        }
        else if (near_surf >= 0 && L > near + tol)
          return fail("boundary",
                      fmt("collision at %.17g, past the nearest boundary of "
                          "cell %d (%s) at %.17g", L, cell,
                          c.surfaces[near_surf].name.c_str(), near));
      }
      else if (crossing && near_surf >= 0 && std::abs(L - near) <= tol &&
               e.surf != near_surf)
        return fail("surface",
                    fmt("crossing of %s registered, the surface there is %s",
                        e.surf < 0 ? "no surface"
                                   : c.surfaces[e.surf].name.c_str(),
                        c.surfaces[near_surf].name.c_str()));
    }
    if (!F) {
      // the interior of the flight belongs to the claimed cell throughout:
      // a boundary on the way was skipped otherwise
      for (double f : {0.03, 0.21, 0.5, 0.77, 0.97}) {
        const V3 q = p + (f * L) * d;
        bool decided = true;
        for (auto& [si, se] : cc.surfaces)
          decided &= std::abs(RefSigned(c.surfaces[si], q)) >
                     4 * SideTol(c.surfaces[si], q) + 1e-13 +
                         1e-13 * scale;
        if (!decided) continue;
        st.points++;
        if (!RefCellContains(c, cc, q))
          return fail("skipped",
                      fmt("the flight of length %.17g is attributed to cell "
                          "%d but passes (%.17g, %.17g, %.17g) outside it: a "
                          "boundary was skipped or the particle left on its "
                          "old side", L, cell, q.x, q.y, q.z));
      }
      if (crossing) {
        if (e.surf < 0) return fail("surface", "crossing of no surface");
        bool own = false;
        int old_sense = 0, new_sense = 0;
        for (auto& [si, se] : cc.surfaces)
          if (si == e.surf) own = true, old_sense = se;
        for (auto& [si, se] : c.cells[e.cell].surfaces)
          if (si == e.surf) new_sense = se;
        if (!own)
          return fail("surface", "crossing of " + c.surfaces[e.surf].name +
                                     ", which does not bound the cell");
        const double off = std::abs(RefSigned(c.surfaces[e.surf], e.pos));
        if (off > 4 * SideTol(c.surfaces[e.surf], e.pos) + 1e-9 * scale)
          return fail("surface", fmt("crossing of %s registered at distance "
                                     "%g from it",
                                     c.surfaces[e.surf].name.c_str(), off));
        if (!ambiguous && e.cell == cell)
          return fail("twice", "crossing of " + c.surfaces[e.surf].name +
                                   " registered but the particle is still in "
                                   "the same cell, on its old side");
        if (!ambiguous && new_sense && new_sense == old_sense)
          return fail("twice", "crossing of " + c.surfaces[e.surf].name +
                                   " registered but the new cell is on the "
                                   "same side of it");
        st.crossings++;
        k.Nontrivial(Mix(HashConfig(c), Mix(e.surf, Mix(cell, e.cell))));
      }
      else if (changed_cell)
        return fail("unregistered", fmt("the cell changed from %d to %d "
                                        "without a crossing", cell, e.cell));
      if (e.event == eLeak && !c.cells[e.cell].is_void)
        return fail("leak", "leak into a cell with a material");
      if (e.event == eCross && c.cells[e.cell].is_void)
        return fail("leak", "entered a void cell without leaking");
    }
    if (F) {
      // the cell after the flight contains the position
      bool decided = true;
      for (auto& [si, se] : c.cells[e.cell].surfaces)
        decided &= std::abs(RefSigned(c.surfaces[si], e.pos)) >
                   4 * SideTol(c.surfaces[si], e.pos) + 1e-13 * scale;
      if (decided) {
        st.points++;
        if (!RefCellContains(c, c.cells[e.cell], e.pos))
          return fail("cell", fmt("is now in cell %d, which does not contain "
                                  "it", e.cell));
      }
      if (!crossing && changed_cell)
        return fail("cell", "the cell changed at a collision");
      k.Nontrivial(Mix(HashConfig(c), Mix(e.event, Mix(cell, e.cell))));
    }
    st.collisions += collision && e.event != eVirtual;
    st.virtuals += e.event == eVirtual;
    st.leaks += e.event == eLeak;
    p = e.pos;
    d = e.dir;
    en = e.energy;
    cell = e.cell;
    last_surf = crossing ? e.surf : -1;
  }
  return true;
}

// A source that sends particles close to tangentially at some surface
static void Grazing(Config& c, Rng& r, double scale) {
  for (int n = 0; n < 50; n++) {
    const Surf& s = Pick(r, c.surfaces);
    V3 dir = RandDir(r);
    V3 q;
    const double e = (B(r) ? 1 : -1) * LogU(r, 1e-7, 1e-1);
    if (s.kind == Surf::PlaneX) {
      dir = Unit(V3{LogU(r, 1e-9, 1e-2) * (B(r) ? 1 : -1), dir.y, dir.z});
      q = V3{s.c.x, U(r, -1, 1) * scale, U(r, -1, 1) * scale} -
          (scale * U(r, 0.1, 3)) * dir;
    }
    else {
      V3 nrm = RandDir(r);
      if (s.kind == Surf::CylinderX) nrm = Unit(V3{0, nrm.y, nrm.z});
      dir = Unit(Cross(nrm, dir));
      const V3 ctr = s.kind == Surf::Sphere ? s.c : V3{};
      q = ctr + (s.r * (1 - e)) * nrm - (scale * U(r, 0, 3)) * dir;
    }
    const int cell = RefFindCell(c, q);
    if (cell < 0 || c.cells[cell].is_void) continue;
    bool ok = true;
    for (auto& x : c.cells)
      for (auto& [si, se] : x.surfaces)
        ok &= std::abs(RefSigned(c.surfaces[si], q)) >
              1e3 * SideTol(c.surfaces[si], q);
    if (!ok) continue;
    c.src = q;
    c.dir_kind = "constant";
    c.dir = dir;
    return;
  }
}

void WalkWorkloads(Ctx& ctx, WalkRules rules) {
  auto body = [&](const std::string& kind) {
    return [&ctx, rules, kind](Case& k) {
      Rng& r = k.rng;
      GenOpt o;
      o.min_surfaces = 1;
      o.max_surfaces = 6;
      o.fission = B(r, 0.5);
      o.photon = B(r, 0.2);
      o.density = LogU(r, 0.1, 1.5);
      o.scale = B(r, 0.4) ? 1 : LogU(r, 1e-3, 1e5);
      if (kind == "offset") o.big_offset = true;
      Config c;
      if (kind == "continuous") {
        o.linear_temperature = B(r, 0.6);
        o.density = std::max(o.density, 0.4);
        c = GenCE(r, o);
      }
      else c = GenMG(r, o);
      if (kind == "grazing") Grazing(c, r, o.scale);
      c.histories = ctx.N(150, 400);
      c.threads = 1;
      bool src_ok = true;
      {
        const int cell = RefFindCell(c, c.src);
        src_ok = cell >= 0 && !c.cells[cell].is_void;
        for (auto& x : c.cells)
          for (auto& [si, se] : x.surfaces)
            src_ok &= std::abs(RefSigned(c.surfaces[si], c.src)) >
                      8 * SideTol(c.surfaces[si], c.src);
      }
      if (!src_ok) {
        ctx.Count("configurations without a usable source");
        return;
      }
      auto res = RunProblem(c, k);
      WalkStats st;
      for (auto& h : res.hist)
        for (auto& t : h.tracks)
          if (!CheckTrack(k, c, h, t, rules, o.scale, st)) {
            k.ctx.Sample("{\"failed\": " + Describe(c) + "}");
            return;
          }
      // ... and estimators are told about the crossings of their surface
      if (rules == WalkRules::Crossings)
        for (auto& e : c.estimators) {
          double want = 0, got = 0;
          for (auto& h : res.hist)
            for (auto& t : h.tracks)
              for (auto& x : t.steps)
                want += (x.event == eCross || x.event == eLeak) &&
                        x.surf == e.surface;
          for (size_t b = 0; b < RefSize(e); b++)
            got += res.Mean(e.name, b) * c.histories;
          k.Eval();
          if (!(std::abs(got - want) <= 1e-9 * (1 + want)))
            return k.Fail("tally", fmt("%.17g crossings of %s were tallied, "
                                       "particles crossed it %.17g times",
                                       got, c.surfaces[e.surface].name.c_str(),
                                       want) + " " + Describe(c));
          ctx.Count("crossings tallied", want);
        }
      ctx.Count("flights", st.flights);
      ctx.Count("crossings", st.crossings);
      ctx.Count("collisions", st.collisions);
      ctx.Count("virtual collisions", st.virtuals);
      ctx.Count("leaks", st.leaks);
      ctx.Count("flights with undecidable boundaries", st.skipped);
      ctx.Count("points located independently", st.points);
      ctx.Count("configurations " + kind);
      if (ctx.samples.size() < 3)
        ctx.Sample("{\"problem\": " + Describe(c) +
                   fmt(", \"scale\": %.3g, \"histories\": %zu, \"flights\": "
                       "%llu}", o.scale, res.hist.size(),
                       (unsigned long long)st.flights));
      std::filesystem::path dir;
      ScratchDir(k, dir);
      std::filesystem::remove_all(dir);
    };
  };
  ctx.Cases("random", ctx.N(600, 20000), body("random"));
  ctx.Cases("offset", ctx.N(200, 6000), body("offset"));
  ctx.Cases("grazing", ctx.N(400, 12000), body("grazing"));
  ctx.Cases("continuous", ctx.N(160, 5000), body("continuous"));
}

} // namespace mon
