// Cross sections as the input declares them, independent of the code under
// test.
#pragma once
#include "model.hpp"

namespace mon {

enum RefReactionKind { rCapture, rScatter, rFission };
constexpr double kBoltzmann = 8.617333262145e-11; // MeV/K

// temperature of a cell of the configuration at p, and its declared maximum
double RefTemperature(const Config& c, const CellCfg& k, V3 p);
double RefTmax(const Config& c, const CellCfg& k);

// type 0: neutron, 1: photon. `energy` is the group number in multigroup
// problems. `near` is set (never cleared) when rounding decides which rule
// applies.
double RefReaction(const Config& c, const NuclideCfg& n, int type, int reaction,
                   double energy, double T, bool* near = nullptr);
double RefTotal(const Config& c, const NuclideCfg& n, int type, double energy,
                double T, bool* near = nullptr);
double RefSumOfReactions(const Config& c, const NuclideCfg& n, int type,
                         double energy, double T, bool* near = nullptr);
// the atom-fraction-weighted microscopic total
double RefMaterial(const Config& c, const MaterialCfg& m, int type,
                   double energy, double T, bool* near = nullptr);
// normalised atom fraction of nuclide index i (0 if absent)
double RefFraction(const MaterialCfg& m, int i);
bool RefThermal(const NuclideCfg& n, int type, double E, bool* near = nullptr);
double FreeGasFactor(double awr, double E, double T);

} // namespace mon
