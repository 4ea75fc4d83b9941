// Single-component arenas: message buffer, configuration reader, sampling pose solver, interval timer.
#pragma once
#include "exec.h"
Plan genArena(const std::string &prop, uint64_t seed, bool thorough);
void runLoader(const Plan &p);
void runConfig(const Plan &p);
void runRansac(const Plan &p);
void runTimer(const Plan &p);
// configuration damage, also used for whole-estimator runs
void damageConfig(const Plan &p, const std::string &dir, int ncam);
void writeExpectedConfig(const Plan &p, const std::string &dir, int ncam);     // what a damaged directory amounts to
