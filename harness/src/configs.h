#pragma once
#include <string>
#include <vector>
#include "sim.h"

struct Config {
    std::string name;
    Spec spec;
    double initialIce = 0;  // mm of ice put in every glacier before the run (finite glaciers)
    double actionStart = 0;     // date the actions refer to (0: start of the period)
    std::vector<std::string> actions;  // lc (land cover change), dh / as (glacier evolution), si (snow to ice)
};
// Applies a named snow-routine option to the structure options.
void snowOption(Opts& o, const std::string& name);
const std::vector<std::string>& snowOptions();
std::vector<Cover> coverSet(const std::string& name);
void paramOption(Spec& s, const std::string& name);
// The configuration space explored by the water-balance and bounds properties.
std::vector<Config> balanceConfigs(bool thorough);
// Loads forcing (all variables the structure needs) for per-unit symbol sequences.
std::vector<std::vector<Sym>> unitForcing(const Spec& s, const std::vector<int>& seq);
// Configurations covering every stateful element: routing, snow states, lateral transport, actions, spin-up.
std::vector<Config> richConfigs(bool thorough);
bool addActions(Sim& sim, const Config& c);
bool prepare(Sim& sim, const Config& c, const std::vector<std::vector<Sym>>& f);
void lateral(Config& c, const std::string& redistribution, const std::vector<Lateral>& connections);
