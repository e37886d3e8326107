#pragma once
// Independent reference of the surface part of a time step (canopy, snowpack, ice, land cover) of one unit.
#include <map>
#include "sim.h"

// Rain and snow [mm] of a step for a unit
void refPhase(const Opts& o, const Unit& u, const Sym& f, double& rain, double& snow);
double optPar(const Opts& o, const std::string& comp, const std::string& name);

struct CoverState {
    double canopy = 0, snow = 0, pack = 0, water = 0, ice = 0;
    double cold = 0;  // cemaneige thermal state
    double liquid = 0;  // water on the cover in this step
};
// Per label suffix ("ground_snowpack:melt") amounts in mm over the cover
using Amounts = std::map<std::string, double>;
// Advances one cover over a step of h days. fill: filling of the soil store below it at the start of the step.
// full: also the cover itself (daily steps only)
void refCover(const Opts& o, const Unit& u, const Cover& c, const Sym& f, double h, int doy, double fill, CoverState& s, Amounts& a, bool full);
// Parameters of every surface process, distinct for every cover
void surfaceParams(Opts& o, const std::vector<Cover>& covers, int variant);
