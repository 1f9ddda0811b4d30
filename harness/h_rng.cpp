// The pseudo random number generator
#include "sx.hpp"
#include "mlrl/common/random/rng.hpp"

#include <memory>
#include <stdexcept>

extern "C" void h_rng() {
    // the state the generator is in after any number of calls is an arbitrary one
    uint32 state = sx_u32("state", 0, 0xFFFFFFFF);
    RNG a(state), b(state);
    uint32 min = sx_u32("min", 0, 0xFFFFFFFF);
    uint32 max = sx_u32("max", 0, 0xFFFFFFFF);
    sx_assume(min < max);
    uint32 r = a.randomInt(min, max);
    sx_check(r >= min && r < max, "random numbers are in the given range");
    sx_check(b.randomInt(min, max) == r, "equal seeds result in equal random numbers");
    // the state is not degenerate: a further call still respects the range
    uint32 r2 = a.randomInt(0, max - min);
    sx_check(r2 < max - min, "subsequent random numbers are in the given range");
    sx_check(b.randomInt(0, max - min) == r2, "equal seeds result in equal sequences of random numbers");
    sx_reach("end");
}

extern "C" void h_rng_bool() {
    uint32 state = sx_u32("state", 0, 0xFFFFFFFF);
    RNG a(state), b(state);
    bool r = a.randomBool();
    sx_check(b.randomBool() == r, "equal seeds result in equal random decisions");
    if (r) sx_reach("true");
    else sx_reach("false");
}

extern "C" void h_rng_config() {
    RNGConfig config;
    uint32 seed = sx_u32("seed", 0, 0xFFFFFFFF);
    bool thrown = false;
    try {
        config.setRandomState(seed);
    } catch (const std::invalid_argument&) {
        thrown = true;
    }
    sx_check(thrown == (seed < 1), "seeds must be at least 1");
    sx_check(config.getRandomState() == (thrown ? 1 : seed), "the seed is remembered");
    // each generator starts from the seed
    auto factoryPtr = config.createRNGFactory();
    auto aPtr = factoryPtr->create();
    aPtr->randomInt(0, 100);
    auto bPtr = factoryPtr->create();
    RNG ref(thrown ? 1 : seed);
    sx_check(bPtr->randomInt(0, 1000) == ref.randomInt(0, 1000), "all generators start from the given seed");
    sx_reach("end");
}
