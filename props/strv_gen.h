/* String vectors */
#include <algorithm>
#include <string>
#include <gutil_strv.h>
#include "vp.h"

namespace strv {
using namespace vp;
typedef std::vector<std::string> SV;

inline std::string gen_long(Ctx& c);
inline std::string gen(Ctx& c, int mode)
{
    switch (mode) {
    case 0: return std::string(1, (char)c.range('a', 'd'));
    case 1: return c.str(c.range(0, 3), "abA");
    case 2: return c.str(c.range(0, 4), NULL);
    case 3: { std::string s = c.str(c.range(0, 2), " \t\n\r\f"); s += c.str(c.range(0, 3), "a b"); return s + c.str(c.range(0, 2), " \t\n\r\f"); }
    case 4: { static const char* k[] = { "", "\x7f", "\x80", "\xff", "a", "a\x80", "a\x7f", "ab" }; return k[c.range(0, 7)]; }
    case 5: return c.str(c.len(60), NULL);
    default: return gen_long(c);
    }
}
/* Long strings which only differ at the end */
inline std::string gen_long(Ctx& c)
{
    static const unsigned n[] = { 255, 256, 300, 1024, 65536, 127, 15, 4095 };
    std::string s(n[c.range(0, 7)], 'p');
    if (c.chance(60)) s[0] = 'q';
    return s + c.str(c.range(0, 2), "ab\xff");
}
inline SV gen_all(Ctx& c, int mode, unsigned max)
{
    SV v(c.chance(200) ? (unsigned)c.range(0, 8) : c.len(max));
    for (auto& s : v) s = gen(c, mode);
    return v;
}
/* Tens of thousands of strings, each one repeated just a few times */
inline SV gen_huge(Ctx& c)
{
    SV v(c.huge());
    uint32_t x = c.u32();
    const unsigned distinct = c.pick({ 60000, 1000000, 5000 });
    for (auto& s : v) {
        x = x * 1664525u + 1013904223u;
        s = std::to_string((x >> 8) % distinct);
    }
    return v;
}
/* NULL for some of the empty ones */
inline GStrV* make(Ctx& c, const SV& v)
{
    if (v.empty() && c.coin()) return NULL;
    GStrV* sv = g_new(char*, v.size() + 1);
    for (size_t i = 0; i < v.size(); i++) sv[i] = g_strdup(v[i].c_str());
    sv[v.size()] = NULL;
    return sv;
}
inline void check(Ctx& c, GStrV* sv, const SV& v, const char* what)
{
    if (!sv) {
        VP_EQ(c, 0, v.size(), what);
    } else {
        for (size_t i = 0; i < v.size(); i++) {
            VP_CHECK(c, sv[i], "%s: only %d strings, expected %d", what, (int)i, (int)v.size());
            VP_CHECK(c, !strcmp(sv[i], v[i].c_str()), "%s: string %d is '%s' expected '%s'", what, (int)i,
                sv[i], v[i].c_str());
        }
        VP_CHECK(c, !sv[v.size()], "%s: more than %d strings", what, (int)v.size());
    }
}
} // namespace strv
