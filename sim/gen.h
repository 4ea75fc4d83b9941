#pragma once
#include "plan.h"
#include "rng.h"
#include <functional>
Plan generate(const std::string &prop, uint64_t seed, bool thorough);
