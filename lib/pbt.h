// A small property-based testing engine: every random decision of a case is a
// recorded draw, so a case can be replayed and shrunk from its list of draws.
//
// No exceptions, no RTTI (the library under test is built without them). A
// failing case reports through a memory-mapped status file and ends the worker
// process; the driver (run.py) replays, shrinks and reports.
#ifndef PBT_H
#define PBT_H

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>

namespace pbt {

constexpr int FAIL_EXIT = 77;          // oracle failure
constexpr size_t MAXCH = 1u << 16;

struct Shared {
    uint64_t magic, idx, state, nch, cases, pad[3];
    char msg[4096];
    char desc[8192];
    uint64_t ch[MAXCH];
};
// state: 0 idle, 1 inside a case, 2 oracle failure, 3 finished, 4 engine error

extern Shared * shared;

inline uint64_t mix(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// Generator for bulk data. Seeded by a draw, so it replays too.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed ^ 0xD1B54A32D192ED03ull)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo) + 1); }
    bool chance(unsigned pct) { return below(100) < pct; }
};

[[noreturn]] void fail(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void engine_error(const char * msg);

struct Case {
    bool replay = false;
    std::vector<uint64_t> const * in = nullptr;
    size_t pos = 0;
    uint64_t rng = 0;
    bool nontriv = false;
    unsigned variant = 0;              // worker number: for choices that replay takes from the environment
    const uint8_t * bytes = nullptr;   // draws come from these (coverage-guided fuzzing)
    size_t left = 0;
    std::string * record = nullptr;    // the bytes that would give the same draws
    std::map<std::string, uint64_t> * labels = nullptr;

    // The only source of randomness: a number in [0,n)
    uint64_t draw(uint64_t n)
    {
        uint64_t v;
        if (n == 0) n = 1;
        unsigned w = n <= 1u << 8 ? 1 : n <= 1u << 16 ? 2 : n <= 1ull << 32 ? 4 : 8;
        if (replay) v = pos < in->size() ? (*in)[pos] % n : 0;
        else if (bytes) {
            v = 0;
            w = w < left ? w : left;
            memcpy(&v, bytes, w);
            bytes += w;
            left -= w;
            v %= n;
        }
        else { rng += 0x9E3779B97F4A7C15ull; v = mix(rng) % n; }
        if (record) record->append((const char *) &v, w);
        if (pos >= MAXCH) engine_error("too many draws");
        shared->ch[pos++] = v;
        shared->nch = pos;
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) draw((uint64_t) (hi - lo) + 1); }
    bool chance(unsigned pct) { return draw(100) >= 100 - pct; }   // 0 (what shrinking tends to) means no
    uint64_t seed() { return draw(1ull << 32); }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }

    void label(const std::string & s) { if (labels) (*labels)[s]++; }
    void nontrivial() { nontriv = true; }
    void desc(const char * fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        size_t used = strlen(shared->desc);
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(shared->desc + used, sizeof(shared->desc) - used, fmt, ap);
        va_end(ap);
    }
};

#define CHECK(cond, ...) do { if (!(cond)) pbt::fail(__VA_ARGS__); } while (0)

// Harnesses are compiled several times (one object per combination of types);
// each object registers what it runs.
typedef void (*Runner)(Case &);
struct Reg { Reg(const char * name, Runner r); };
std::map<std::string, Runner> & runners();

} // namespace pbt

#endif
