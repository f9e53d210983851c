// C04: every boundary crossing is registered once, on the surface crossed.
#include "walk.hpp"
namespace mon {
const char* const kRule =
    "one evaluation is one flight of a particle; distinct non-trivial ones are "
    "crossings, identified by (problem, surface, cell left, cell entered)";
void Run(Ctx& ctx) { WalkWorkloads(ctx, WalkRules::Crossings); }
} // namespace mon
