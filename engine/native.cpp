// Native implementation of the harness API: inputs are taken from a replay file (environment variable SX_REPLAY).
#include "sx.hpp"

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#ifndef SX_ENTRY
#error SX_ENTRY
#endif
extern "C" void SX_ENTRY();

struct In {
        char kind;
        std::string name, value;
};

static std::vector<In> ins;
static size_t pos = 0;
static std::map<std::string, uint32_t> prm;
static int fails = 0;
static bool active = false;

static std::string nextInput(char kind, const char* name) {
    if (pos >= ins.size()) {
        printf("SX-DIVERGED input %s beyond the end of the replay file\n", name);
        fflush(stdout);
        _Exit(fails ? 1 : 3);
    }
    In& i = ins[pos++];
    if (i.kind != kind || i.name != name) {
        printf("SX-DIVERGED expected %c %s, replay file has %c %s\n", kind, name, i.kind, i.name.c_str());
        fflush(stdout);
        _Exit(fails ? 1 : 3);
    }
    return i.value;
}

template<typename T>
static T inRange(const char* name, T value, T lo, T hi) {
    if (value < lo || value > hi) {
        printf("SX-DIVERGED input %s is out of range\n", name);
        fflush(stdout);
        _Exit(fails ? 1 : 3);
    }
    return value;
}

extern "C" {
    uint32_t sx_u32(const char* n, uint32_t lo, uint32_t hi) { return inRange(n, (uint32_t) strtoull(nextInput('u', n).c_str(), 0, 10), lo, hi); }
    int32_t sx_i32(const char* n, int32_t, int32_t) { return (int32_t) (uint32_t) strtoull(nextInput('i', n).c_str(), 0, 10); }
    uint64_t sx_u64(const char* n, uint64_t, uint64_t) { return strtoull(nextInput('U', n).c_str(), 0, 10); }
    float sx_f32(const char* n, float, float) { return (float) strtod(nextInput('f', n).c_str(), 0); }
    double sx_f64(const char* n, double, double) { return strtod(nextInput('d', n).c_str(), 0); }
    bool sx_bool(const char* n) { return nextInput('b', n) == "1"; }
    uint32_t sx_choice(const char* n, uint32_t num) { return inRange(n, (uint32_t) strtoull(nextInput('c', n).c_str(), 0, 10), 0u, num ? num - 1 : 0); }
    uint32_t sx_param(const char* n, uint32_t d) {
        auto it = prm.find(n);
        return it == prm.end() ? d : it->second;
    }
    void sx_assume(bool c) {
        if (!c) {
            printf("SX-ASSUME violated\n");
            fflush(stdout);
            _Exit(fails ? 1 : 4);
        }
    }
    void sx_check(bool c, const char* m) {
        if (!c) {
            fails++;
            printf("SX-FAIL\t\t%s\n", m);
            fflush(stdout);
        }
    }
    void sx_near(double a, double b, const char* m) {
        bool ok = a == b || (std::isnan(a) && std::isnan(b))
                  || std::fabs(a - b) <= 1e-5 * std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
        if (!ok) {
            fails++;
            printf("SX-FAIL\t\t%s\t(%.9g vs. %.9g)\n", m, a, b);
            fflush(stdout);
        }
    }
    void sx_known(const char* id, bool c, const char* m) {
        if (!c) {
#ifndef SX_DEMO
            fails++;
#endif
            printf("SX-FAIL\t%s\t%s\n", id, m);
            fflush(stdout);
        }
    }
    void sx_reach(const char*) {}
    void sx_obs(const char* n, double v) {
        printf("SX-OBS\t%s\t%a\n", n, v);
    }
    uint64_t sx_concretize(uint64_t v) { return v; }
    int sx_symbolic() { return 0; }
    void sx_par_iter(int) {}
}

std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept {
    if (active) {
        uint64_t v = strtoull(nextInput('U', "clock").c_str(), 0, 10);
        return time_point(duration((int64_t) v));
    }
    return time_point(duration(0));
}

int main() {
    const char* f = getenv("SX_REPLAY");
    if (f) {
        std::ifstream s(f);
        std::string line;
        while (std::getline(s, line)) {
            if (line.empty() || line[0] == '#') continue;
            if (line.compare(0, 6, "param ") == 0) {
                size_t e = line.find('=');
                prm[line.substr(6, e - 6)] = (uint32_t) strtoul(line.substr(e + 1).c_str(), 0, 10);
                continue;
            }
            if (line.compare(0, 3, "in ") != 0) continue;
            // in <kind> <name>=<value>
            size_t e = line.rfind('=');
            ins.push_back({line[3], line.substr(5, e - 5), line.substr(e + 1)});
        }
    }
    active = true;
    SX_ENTRY();
    active = false;
    printf("SX-DONE fails=%d\n", fails);
    fflush(stdout);
    _Exit(fails ? 1 : 0);
}
