#pragma once
#include "configs.h"

bool isEt(const std::string& label);
int coverOf(const Rec& r, const std::string& label);
// Ice melt of inexhaustible glaciers (always: of every glacier), an external water source of the ledger.
double iceInput(const Rec& r, const Config& c, int t, bool always = false);
// Snow turned into ice that leaves the accounted storages.
double iceGain(const Rec& r, const Config& c, int t, bool always = false);
double corrected(const Spec& s, const Sym& y);
double etTotal(const Rec& r, int t);
double waterAndSnow(const Rec& r, int t);
double inputTotal(const Rec& r, const Config& c, const std::vector<std::vector<Sym>>& f, int t);
