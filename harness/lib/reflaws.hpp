// Scattering laws as declared, independent of the code under test.
#pragma once
#include "refxs.hpp"

namespace mon {

// piecewise linear CDF
struct RefCdf {
  std::vector<double> x, F;
  double At(double v) const;
  double Inverse(double f) const;
};
class RefTSL {
public:
  RefTSL() = default;
  RefTSL(const TSL& t, double awr);
  // distribution of beta for incident energy E at temperature T
  struct BetaLaw {
    std::vector<std::pair<double, RefCdf>> parts; // weight
    double min = 0;
    double At(double b) const;
    double Sample(Rng& r) const;
  };
  BetaLaw Beta(double E, double T) const;
  // distribution of alpha given beta
  double AlphaAt(double E, double T, double b, double a) const;
  double SampleAlpha(double E, double T, double b, Rng& r) const;
  // outgoing energy and cosine
  void Sample(double E, double T, Rng& r, double& E_out, double& mu) const;

  TSL t;
  double awr = 1;
  // the grids of all partitions: (partition, index in it)
  std::vector<double> Es, betas;
  std::vector<std::pair<int, int>> Ei, bi;

private:
  struct Row {
    double weight, beta; // row of the tables and the beta its limits follow
    size_t i;
  };
  std::vector<Row> Rows(double E, double kT, double b) const;
  double Limit(double E, double kT, double beta, int sign) const;
};

struct FreeGasOut {
  double E, mu, phi;
};
// neutron of energy E scattered isotropically (centre of mass) by a Maxwellian
// target; exact rejection sampling
FreeGasOut RefFreeGas(Rng& r, double E, double T, double awr);

} // namespace mon
