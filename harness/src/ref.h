#pragma once
// Independent reference of the continuous part of a time step: stores with published outflow equations,
// integrated with textbook schemes. Written from the equations, not from the code under test.
#include "sim.h"

struct RefIn {
    double h = 1;       // time step [d]
    double pet = 0;     // [mm/d]
    double slope = 0;   // m/m
    double area = 0;    // m2
};
struct RefOut {
    std::vector<double> content;                // end of step
    std::vector<std::vector<double>> amount;    // per store, per process [mm over the step]
    bool limited = false;                       // a demand exceeded the water or the capacity available
};
// S0: contents at the start of the step; I: water received from outside the network over the step [mm].
RefOut refStores(const std::string& solver, const std::vector<StoreDef>& st, const std::vector<double>& S0,
                 const std::vector<double>& I, const RefIn& in);
