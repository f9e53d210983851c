// The scores that estimators should have, computed from recorded histories.
#pragma once
#include "drive.hpp"

namespace mon {

// Index of the bin of `bins` that holds v; `near` is set if v is so close to a
// computed (not literally given) boundary that rounding may decide.
int RefBin(const BinsCfg& bins, double v, bool* near = nullptr);
// Flattened index (cosine slow, energy fast) of an event; -1: undecidable
int RefIndex(const EstCfg& e, const Ev& ev);

struct RefScores {
  // per bin: sum over histories, sum of squares, largest single history
  std::vector<double> sum, sum2;
  std::vector<char> undecidable; // bins that rounding may have moved scores of
  uint64_t crossings = 0;
  int histories_scoring = 0, histories_multiple = 0;
};
size_t RefSize(const EstCfg& e);
// `weight(track, step)` is what the event of that step scores
RefScores RefTally(
    const EstCfg& e, const std::vector<Hist>& hist,
    const std::function<double(const Track&, size_t)>& weight);
// Compares a printed list of means/standard errors with reference scores.
// Returns an empty string if they agree.
std::string CompareScores(
    const Block& b, const RefScores& r, double N, double rel = 2e-6,
    double abs_mean = 0);
// A printed number; false if it is not one or not finite
bool ParseNumber(const std::string& s, double& v);

} // namespace mon
