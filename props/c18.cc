// VP-ASSUMES: white space is what g_ascii_isspace says; a vertical tab at the ends may be either skipped or rejected
// VP-ASSUMES: 0b prefix (C23) may be either supported or not in base 0 and 2
/* C18: strict number parsing */
#include "vp.h"
#include <gutil_misc.h>
#include <stdlib.h>
using namespace vp;

namespace {

typedef unsigned __int128 u128;
typedef __int128 i128;

bool space(char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == '\f'; }

int digit(char ch) {
    if (ch >= '0' && ch <= '9') return ch - '0';
    if (ch >= 'a' && ch <= 'z') return ch - 'a' + 10;
    if (ch >= 'A' && ch <= 'Z') return ch - 'A' + 10;
    return 99;
}

/* Reference parser of a C-style integer with the white space around it. The value is saturated at 2^100 */
bool parse(std::string s, int base, i128& v, bool& neg, bool binary = false) {
    size_t b = 0, e = s.size();
    while (b < e && space(s[b])) b++;
    while (e > b && space(s[e - 1])) e--;
    s = s.substr(b, e - b);
    neg = false;
    if (base != 0 && (base < 2 || base > 36)) return false;
    size_t i = 0;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    if ((base == 0 || base == 16) && i + 2 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') &&
        digit(s[i + 2]) < 16) {
        base = 16;
        i += 2;
    } else if (binary && (base == 0 || base == 2) && i + 2 < s.size() && s[i] == '0' && (s[i + 1] == 'b' || s[i + 1] == 'B') &&
        digit(s[i + 2]) < 2) {
        base = 2;
        i += 2;
    } else if (base == 0) {
        base = s[i] == '0' ? 8 : 10;
    }
    if (i >= s.size()) return false;
    u128 x = 0;
    const u128 lim = (u128)1 << 100;
    for (; i < s.size(); i++) {
        const int d = digit(s[i]);
        if (d >= base) return false;
        x = x * base + d;
        if (x > lim) x = lim;
    }
    v = neg ? -(i128)x : (i128)x;
    return true;
}

std::string render(Ctx& c, u128 x, int base) {
    std::string s;
    const bool upper = c.coin();
    do {
        const int d = (int)(x % base);
        s.insert(s.begin(), d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
        x /= base;
    } while (x);
    return s;
}

u128 magnitude(Ctx& c) {
    static const u128 around[] = { (u128)1 << 31, (u128)1 << 32, (u128)1 << 63, (u128)1 << 64, 0, (u128)1 << 65,
        (u128)10 << 64, (u128)1 << 16 };
    if (c.chance(150)) {
        i128 x = (i128)around[c.range(0, 7)] + c.range(-3, 3);
        return x < 0 ? -x : x;
    }
    u128 x = c.x64();
    return c.chance(20) ? x * c.urange(1, 1000) : x;
}

std::string spaces(Ctx& c) {
    if (!c.chance(80)) return std::string();
    return c.str(c.range(1, 4), c.chance(10) ? " \v" : " \t\n\r\f");
}

template<class T> void one(Ctx& c, const char* name, gboolean (*fn)(const char*, int, T*), const std::string& s, int base,
    bool valid, i128 v, bool neg, bool lenient)
{
    const i128 lo = (T)-1 > (T)0 ? 0 : -((i128)1 << (sizeof(T) * 8 - 1));
    const i128 hi = (T)-1 > (T)0 ? ((i128)1 << (sizeof(T) * 8)) - 1 : ((i128)1 << (sizeof(T) * 8 - 1)) - 1;
    const bool uns = (T)-1 > (T)0;
    const bool want = valid && v >= lo && v <= hi && !(uns && neg);
    const T junk = (T)0x5a5a5a5a5a5a5a5aull;
    /* Exactly sized copy */
    char* p = (char*)malloc(s.size() + 1);
    memcpy(p, s.c_str(), s.size() + 1);
    T x = junk;
    const gboolean ok = fn(p, base, &x);
    const gboolean ok2 = fn(p, base, NULL);
    VP_EQ(c, !!ok2, !!ok, name);
    VP_CHECK(c, !memcmp(p, s.c_str(), s.size() + 1), "%s modified the string", name);
    free(p);
    if (!lenient) VP_CHECK(c, !!ok == want, "%s(\"%s\",%d) %s", name, g_strescape(s.c_str(), NULL), base, ok ? "succeeded" : "failed");
    if (ok) {
        VP_CHECK(c, want, "%s(\"%s\",%d) succeeded", name, g_strescape(s.c_str(), NULL), base);
        VP_CHECK(c, (i128)x == v, "%s(\"%s\",%d) = %lld", name, g_strescape(s.c_str(), NULL), base, (long long)x);
    } else {
        VP_CHECK(c, x == junk, "%s(\"%s\",%d) failed but changed the output", name, g_strescape(s.c_str(), NULL), base);
    }
}

void numbers(Ctx& c)
{
    int base = c.pick({10, 0, 16, 8, 2, 36, 10, 0, 16, -1, -2, -3});
    if (base == -1) base = c.range(2, 36);
    else if (base == -2) base = c.pick({1, -1, 37, -10, G_MININT, G_MAXINT, 64, 256 + 10, 100});
    else if (base == -3) base = c.i32();
    const int k = c.range(0, 15);
    std::string s;
    if (k == 0) {
        s = c.str(c.len(12), c.coin() ? "0123456789+-xX \t" : NULL);
    } else if (k == 1) {
        s = spaces(c) + spaces(c) + spaces(c);
    } else {
        int rb = base >= 2 && base <= 36 ? base : 10;
        std::string prefix;
        if (c.chance(60)) { prefix = c.pick({"0x", "0X", "0", "00", "0b", "0o"}); if (prefix.size() == 2 && (prefix[1] | 32) == 'x' && c.chance(230)) rb = 16; }
        const char* sign = c.pick({"", "", "", "-", "+", "-", "--", "+-", "- "});
        s = spaces(c) + sign + prefix + render(c, magnitude(c), rb) + spaces(c);
        if (c.chance(50)) {
            const int pos = c.range(0, (int)s.size());
            switch (c.range(0, 3)) {
            case 0: s.insert(pos, c.str(1, " \t-+.,_xXeLu0zZgG/:@[`{")); break;
            case 1: s.insert(pos, c.str(1, NULL)); break;
            case 2: if (pos < (int)s.size()) s.erase(pos, 1); break;
            default: s.resize(pos);
            }
        }
        if (c.chance(4)) s.insert(0, c.range(1, 300), c.coin() ? '0' : ' ');
    }
    i128 v = 0;
    bool neg = false;
    bool valid = parse(s, base, v, neg);
    bool lenient = false;
    std::string t(s);
    if (!valid && s.find('\v') != std::string::npos) {
        /* Either is fine for the vertical tab if it's at the edge */
        size_t b = 0, e = t.size();
        while (b < e && (space(t[b]) || t[b] == '\v')) t[b++] = ' ';
        while (e > b && (space(t[e - 1]) || t[e - 1] == '\v')) t[--e] = ' ';
        valid = parse(t, base, v, neg);
        lenient = valid;
    }
    if (!valid) {
        /* Newer C standards have a prefix for binary numbers too */
        valid = lenient = parse(t, base, v, neg, true);
    }
    VP_LOG(c, "\"%s\" base %d: %s", g_strescape(s.c_str(), NULL), base, valid ? "valid" : "invalid");
    one<int>(c, "gutil_parse_int", gutil_parse_int, s, base, valid, v, neg, lenient);
    one<unsigned int>(c, "gutil_parse_uint", gutil_parse_uint, s, base, valid, v, neg, lenient);
    one<gint64>(c, "gutil_parse_int64", gutil_parse_int64, s, base, valid, v, neg, lenient);
    one<guint64>(c, "gutil_parse_uint64", gutil_parse_uint64, s, base, valid, v, neg, lenient);
    if (valid && s.size() > 1) c.nontrivial();
    if (!valid && s.size() > 1 && (base == 0 || (base >= 2 && base <= 36))) { c.nontrivial(); c.label("invalid string"); }
    if (valid && (v > G_MAXINT64 || v < G_MININT64)) c.label("big");
}

void null(Ctx& c)
{
    const int base = c.pick({0, 10, 16});
    int i = 5; unsigned u = 5; gint64 l = 5; guint64 ul = 5;
    VP_CHECK(c, !gutil_parse_int(NULL, base, &i) && !gutil_parse_uint(NULL, base, &u) && !gutil_parse_int64(NULL, base, &l) &&
        !gutil_parse_uint64(NULL, base, &ul), "NULL parsed");
    VP_CHECK(c, !gutil_parse_int("", base, &i) && !gutil_parse_uint("", base, &u) && !gutil_parse_int64("", base, &l) &&
        !gutil_parse_uint64("", base, &ul), "empty string parsed");
    VP_CHECK(c, i == 5 && u == 5 && l == 5 && ul == 5, "output touched");
}

void fixed_blank(Ctx& c)
{
    for (const char* s : { " ", "\t\n", " \r\f " }) for (int base : { 0, 10, 16 }) {
        one<int>(c, "gutil_parse_int", gutil_parse_int, s, base, false, 0, false, false);
        one<unsigned int>(c, "gutil_parse_uint", gutil_parse_uint, s, base, false, 0, false, false);
        one<gint64>(c, "gutil_parse_int64", gutil_parse_int64, s, base, false, 0, false, false);
        one<guint64>(c, "gutil_parse_uint64", gutil_parse_uint64, s, base, false, 0, false, false);
    }
}

void fixed_minus(Ctx& c)
{
    for (const char* s : { "\v-5", " \v-1", "\v\t-18446744073709551615" }) {
        one<unsigned int>(c, "gutil_parse_uint", gutil_parse_uint, s, 10, false, 0, false, false);
        one<guint64>(c, "gutil_parse_uint64", gutil_parse_uint64, s, 10, false, 0, false, false);
    }
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C18";
    p.rule = "strings built from white space, sign, prefix and a number around the limits of all types rendered in a base, "
        "possibly mutated, and random strings, parsed as all 4 types in valid and invalid bases against a 128-bit reference "
        "parser; non-trivial = 2+ characters and not an invalid string in an invalid base";
    p.targets = { { "numbers", numbers, 30, 80 }, { "null", null, 1, 4 } };
    p.fixed = { { "blank", fixed_blank }, { "minus-after-vtab", fixed_minus } };
    p.leak_check = true;
    return p;
}
