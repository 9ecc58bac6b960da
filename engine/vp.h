/*
 * vp.h - a small property-based testing engine.
 *
 * A generated case is a byte string (a "choice sequence"). The property
 * function draws every choice it makes from that string through Ctx, so
 * the same function is driven by a seeded random campaign and by a
 * coverage-guided fuzzer, and any failure is shrunk and replayed at the
 * byte level. When the bytes run out every draw yields zero and more()
 * turns false, so shorter and smaller strings mean simpler cases.
 */
#ifndef VP_H
#define VP_H

#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <string>
#include <vector>
#include <initializer_list>

namespace vp {

struct Ctx {
    const uint8_t* d;
    size_t n;
    size_t pos;
    bool tracing;
    std::string trace;
    uint64_t hash;
    bool is_nontrivial;
    unsigned steps;

    Ctx(const uint8_t* data, size_t size, bool tr) : d(data), n(size), pos(0),
        tracing(tr), hash(1469598103934665603ull), is_nontrivial(false),
        steps(0) {}

    /* Raw draws */
    bool more() const { return pos < n; }
    size_t left() const { return n - pos; }
    uint8_t raw() { return pos < n ? d[pos++] : 0; }
    uint64_t rawn(unsigned bytes) {
        uint64_t v = 0;
        for (unsigned i = 0; i < bytes; i++) v |= ((uint64_t)raw()) << (8 * i);
        return v;
    }
    uint64_t mix(uint64_t v) {
        hash ^= v + 0x9e3779b97f4a7c15ull + (hash << 6) + (hash >> 2);
        hash *= 1099511628211ull;
        return v;
    }

    /* Generators */
    uint8_t u8() { return (uint8_t)mix(raw()); }
    uint16_t u16() { return (uint16_t)mix(rawn(2)); }
    uint32_t u32() { return (uint32_t)mix(rawn(4)); }
    uint64_t u64() { return mix(rawn(8)); }
    bool coin() { return mix(raw() & 1) != 0; }
    /* True with probability p/256; zero bytes yield false */
    bool chance(unsigned p) { return mix(raw() >= 256 - p) != 0; }
    /* Inclusive */
    uint64_t urange(uint64_t lo, uint64_t hi) {
        const uint64_t span = hi - lo;
        uint64_t v;
        if (!span) return lo;
        if (span < 0x100) v = raw();
        else if (span < 0x10000) v = rawn(2);
        else if (span <= 0xffffffffull) v = rawn(4);
        else v = rawn(8);
        return mix(lo + (span == UINT64_MAX ? v : v % (span + 1)));
    }
    int range(int lo, int hi) {
        return (int)(int64_t)((int64_t)lo + (int64_t)urange(0, (uint64_t)((int64_t)hi - lo)));
    }
    template<class T> T pick(std::initializer_list<T> l) {
        return *(l.begin() + range(0, (int)l.size() - 1));
    }
    template<class T> const T& pickv(const std::vector<T>& v) {
        return v[range(0, (int)v.size() - 1)];
    }
    /* Integers with a bias to boundaries and small values */
    int i32();
    uint64_t x64();
    int64_t i64() { return (int64_t)x64(); }
    /* A length: mostly small, sometimes around powers of two up to max */
    unsigned len(unsigned max);
    /* A length which may not fit into 8, 15, 16 or 17 bits */
    unsigned huge();
    std::string bytes(unsigned len);
    /* String of given length over alphabet (NULL = any byte but zero) */
    std::string str(unsigned len, const char* alphabet);

    /* Reporting */
    void nontrivial() { is_nontrivial = true; }
    void label(const char* name);
    void logf(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
};

/* Operation chooser with per-case "swarm" subset of the operations */
struct Swarm {
    std::vector<int> on;
    Swarm(Ctx& c, int nops) {
        const unsigned mode = c.raw();
        uint64_t mask = ~0ull;
        if (mode & 1) mask = c.rawn(4) | (c.rawn(4) << 32);
        c.mix(mask);
        for (int i = 0; i < nops; i++) {
            if ((mask >> (i & 63)) & 1) on.push_back(i);
        }
        if (on.empty()) for (int i = 0; i < nops; i++) on.push_back(i);
    }
    int op(Ctx& c) {
        const int i = (int)(c.raw() % on.size());
        return (int)c.mix(on[i]);
    }
};

struct Target {
    const char* name;
    void (*fn)(Ctx&);
    unsigned weight;     /* share of the cases */
    unsigned max_len;    /* limit for the length of the choice sequence */
};

/* A fixed (non generated) example: a repaired defect or a known finding */
struct Fixed {
    const char* key;
    void (*fn)(Ctx&);    /* calls fail() if the defect is present */
};

struct Property {
    const char* id;
    const char* rule;
    std::vector<Target> targets;
    std::vector<Fixed> fixed;
    void (*init)();      /* once per process, may be NULL */
    bool leak_check;     /* allocations must balance */
    unsigned attempts;   /* attempts to reproduce one failure (1 = exact) */
    bool allow_glib_log; /* GLib warnings do not fail the case */
    bool no_fuzz;
    bool no_asserts;     /* failed assertions of the library fail the case */
    int (*child)(void);  /* what to do if VP_CHILD is set in the environment */
    /* Those which need gigabytes, for a campaign of its own with a few cases */
    std::vector<Target> giant;
};

/* Provided by the property file */
Property property();

/* GLib warnings/criticals seen in this case */
extern unsigned glib_messages;
/* Failed assertions of the (debug) library in this case */
extern unsigned lib_asserts;
/* Currently running case (for stand-ins which need it) */
extern Ctx* current;
extern bool in_leak_check;
/* Scratch directory for this process (created on demand) */
const char* scratch();

} // namespace vp

#define VP_LOG(c,...) do { if ((c).tracing) (c).logf(__VA_ARGS__); } while (0)
#define VP_CHECK(c,cond,...) do { if (!(cond)) (c).fail("[" #cond "] " __VA_ARGS__); } while (0)
#define VP_EQ(c,a,b,what) do { \
    const long long _a = (long long)(a), _b = (long long)(b); \
    if (_a != _b) (c).fail("%s: got %lld, expected %lld", what, _a, _b); } while (0)

#endif
