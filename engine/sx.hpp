// Harness API of symx. The same harness is (a) executed symbolically by symx, where these functions are built in, and
// (b) compiled natively against native.cpp, where inputs come from a replay file.
#pragma once
#include <cstdint>

extern "C" {
    // Symbolic inputs. Every call introduces one fresh variable, identified by its position in the sequence of calls.
    uint32_t sx_u32(const char* name, uint32_t lo, uint32_t hi);
    int32_t sx_i32(const char* name, int32_t lo, int32_t hi);
    uint64_t sx_u64(const char* name, uint64_t lo, uint64_t hi);
    float sx_f32(const char* name, float lo, float hi);
    double sx_f64(const char* name, double lo, double hi);
    bool sx_bool(const char* name);
    // A value in [0, n), explored exhaustively (one path per value)
    uint32_t sx_choice(const char* name, uint32_t n);
    // A concrete parameter of the job (set on the command line), or a default value
    uint32_t sx_param(const char* name, uint32_t dflt);

    void sx_assume(bool cond);
    // The property
    void sx_check(bool cond, const char* msg);
    // a and b agree up to rounding
    void sx_near(double a, double b, const char* msg);
    // A violation that is listed under the given id in the known-findings file is reported as a known finding
    void sx_known(const char* findingId, bool cond, const char* msg);
    // Reachability witness; every label that is passed to the driver must be reached on at least one path
    void sx_reach(const char* label);
    // Observed output, used to validate the encoding against the natively compiled code
    void sx_obs(const char* name, double value);
    // Enumerates the values of a symbolic expression (forks)
    uint64_t sx_concretize(uint64_t value);
    // 1 if executed symbolically, 0 natively
    int sx_symbolic();
}
