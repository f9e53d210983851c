// C03: flights are straight and end at a collision or the first boundary.
#include "walk.hpp"
namespace mon {
const char* const kRule =
    "one evaluation is one flight of a particle, observed before and after; "
    "distinct non-trivial ones are (problem, event, cell left, cell reached)";
void Run(Ctx& ctx) { WalkWorkloads(ctx, WalkRules::Flights); }
} // namespace mon
