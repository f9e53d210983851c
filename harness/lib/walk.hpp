// Offline checks of recorded flights against the reference geometry.
#pragma once
#include "drive.hpp"

namespace mon {

struct WalkStats {
  uint64_t flights = 0, crossings = 0, collisions = 0, leaks = 0, virtuals = 0,
           skipped = 0, points = 0;
};
// Which property's rules are applied
enum class WalkRules { Flights /*C03*/, Crossings /*C04*/ };

// Checks every flight of a track; reports through k. Returns false on failure.
bool CheckTrack(
    Case& k, const Config& c, const Hist& h, const Track& t, WalkRules rules,
    double scale, WalkStats& st);
// The workloads that C03 and C04 share.
void WalkWorkloads(Ctx& ctx, WalkRules rules);

} // namespace mon
