// Replaces the pseudo random number generator with one that may return any sequence of numbers
#pragma once
#include "sx.hpp"
#include "mlrl/common/random/rng.hpp"

static uint32 RNG_CALLS = 0;

RNG::RNG(uint32 randomState) : randomState_(randomState) {}

uint32 RNG::randomInt(uint32 min, uint32 max) {
    sx_check(min < max, "random numbers are drawn from non-empty ranges");
    RNG_CALLS++;
    // sequences with more repetitions than this are out of bounds
    sx_assume(RNG_CALLS <= sx_param("draws", 40));
    // optionally, only the first draws are arbitrary
    if (RNG_CALLS > sx_param("freeDraws", 1000)) return min;
    return min + sx_choice("rnd", max - min);
}

bool RNG::randomBool() {
    return sx_choice("rndbool", 2);
}

RNGFactory::RNGFactory(uint32 randomState) : randomState_(randomState) {}

std::unique_ptr<RNG> RNGFactory::create() const {
    return std::make_unique<RNG>(randomState_);
}

RNGConfig::RNGConfig() : randomState_(1) {}

std::unique_ptr<RNGFactory> RNGConfig::createRNGFactory() const {
    return std::make_unique<RNGFactory>(randomState_);
}
