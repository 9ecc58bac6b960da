// VP-ASSUMES: vertical tab is not used (it's not white space for g_strstrip but is for isspace)
/* C15: string vector sorting, search, de-duplication, stripping, equality */
#include "strv_gen.h"
using namespace vp;
using strv::SV;

namespace {

int mode(Ctx& c) { return c.chance(6) ? 6 : c.range(0, 5); }

void sorting(Ctx& c)
{
    const int m = mode(c);
    SV v = strv::gen_all(c, m, 120);
    GStrV* sv = strv::make(c, v);
    const bool asc = c.coin();
    VP_LOG(c, "%d strings, %s", (int)v.size(), asc ? "ascending" : "descending");
    sv = gutil_strv_sort(sv, asc);
    for (size_t i = 1; i < v.size(); i++) {
        const int x = strcmp(sv[i - 1], sv[i]);
        VP_CHECK(c, asc ? x <= 0 : x >= 0, "strings %d and %d are out of order", (int)i - 1, (int)i);
    }
    /* Permutation (compared as bytes) */
    std::sort(v.begin(), v.end(), [](const std::string& a, const std::string& b) { return strcmp(a.c_str(), b.c_str()) < 0; });
    if (!asc) std::reverse(v.begin(), v.end());
    strv::check(c, sv, v, "sorted");
    /* Search */
    for (size_t i = 0; i < v.size() + 4; i++) {
        const std::string s = i < v.size() ? v[i] : v.size() && c.coin() ? v[c.range(0, (int)v.size() - 1)] + (char)c.range('a', 'b') :
            strv::gen(c, m);
        const bool present = std::find(v.begin(), v.end(), s) != v.end();
        const int k = gutil_strv_bsearch(sv, s.c_str(), asc);
        if (present) {
            VP_CHECK(c, k >= 0 && (size_t)k < v.size() && v[k] == s, "search for string %d returned %d", (int)i, k);
        } else {
            VP_EQ(c, k, -1, "search for a missing string");
        }
    }
    VP_EQ(c, gutil_strv_bsearch(sv, NULL, asc), -1, "search for NULL");
    if (v.size() > 2 && v.front() != v.back()) c.nontrivial();
    g_strfreev(sv);
}

void large(Ctx& c)
{
    SV v = strv::gen_huge(c);
    const int what = c.range(0, 2);
    VP_LOG(c, "%d strings, %d", (int)v.size(), what);
    GStrV* sv = strv::make(c, v);
    if (what == 0) {
        const bool asc = c.coin();
        sv = gutil_strv_sort(sv, asc);
        std::sort(v.begin(), v.end());
        if (!asc) std::reverse(v.begin(), v.end());
        strv::check(c, sv, v, "sorted");
        for (int i = 0; i < 30; i++) {
            const std::string& s = i < 3 ? v[v.size() - 1 - i] : i < 6 ? v[i - 3] : v[c.urange(0, v.size() - 1)];
            const int k = gutil_strv_bsearch(sv, s.c_str(), asc);
            VP_CHECK(c, k >= 0 && (size_t)k < v.size() && v[k] == s, "search for a string returned %d", k);
            VP_EQ(c, gutil_strv_bsearch(sv, (s + "x").c_str(), asc), -1, "search for a missing string");
        }
    } else if (what == 1) {
        for (int i = 0; i < 20; i++) {
            const size_t k = i < 4 ? v.size() - 1 - i : c.urange(0, v.size() - 1);
            char* s = g_strconcat(" ", sv[k], "\t", NULL);
            g_free(sv[k]);
            sv[k] = s;
        }
        sv = gutil_strv_strip(sv);
        strv::check(c, sv, v, "strip");
    } else {
        SV w(v);
        switch (c.range(0, 3)) {
        case 0: break;
        case 1: w.resize(w.size() - std::min(w.size(), (size_t)c.pick({ 1, 65536, 32768, 256 }))); break;
        case 2: w[w.size() - 1] += "x"; break;
        case 3: w[c.urange(0, w.size() - 1)] += "x"; break;
        }
        GStrV* other = strv::make(c, w);
        VP_EQ(c, !!gutil_strv_equal(sv, other), v == w, "equal");
        VP_EQ(c, !!gutil_strv_equal(other, sv), v == w, "equal (swapped)");
        g_strfreev(other);
    }
    c.nontrivial();
    g_strfreev(sv);
}

void fixed_dups(Ctx& c)
{
    SV v(33000);
    for (size_t i = 0; i < v.size(); i++) v[i] = std::to_string(i == 32999 || i == 300 ? 5 : i);
    GStrV* sv = gutil_strv_remove_dups(strv::make(c, v));
    v.erase(v.begin() + 32999);
    v.erase(v.begin() + 300);
    strv::check(c, sv, v, "remove_dups");
    g_strfreev(sv);
}

void dups(Ctx& c)
{
    SV v = strv::gen_all(c, mode(c), 60);
    if (v.size() && c.coin()) {
        for (int n = c.range(0, 6); n > 0; n--) v.insert(v.begin() + c.range(0, (int)v.size()), v[c.range(0, (int)v.size() - 1)]);
    }
    GStrV* sv = gutil_strv_remove_dups(strv::make(c, v));
    SV m;
    for (auto& s : v) if (std::find(m.begin(), m.end(), s) == m.end()) m.push_back(s);
    strv::check(c, sv, m, "remove_dups");
    if (m.size() < v.size() && m.size() > 1) c.nontrivial();
    sv = gutil_strv_remove_dups(sv);
    strv::check(c, sv, m, "remove_dups again");
    g_strfreev(sv);
}

void strip(Ctx& c)
{
    static const char ws[] = " \t\n\r\f";
    SV v = strv::gen_all(c, c.chance(180) ? 3 : 0, 30);
    for (auto& s : v) if (c.chance(30)) s += c.str(c.range(1, 5), " \tx\x80\xff");
    GStrV* sv = gutil_strv_strip(strv::make(c, v));
    bool changed = false;
    for (auto& s : v) {
        const size_t b = s.find_first_not_of(ws), e = s.find_last_not_of(ws);
        const std::string t = b == std::string::npos ? std::string() : s.substr(b, e - b + 1);
        if (t != s) changed = true;
        s = t;
    }
    strv::check(c, sv, v, "strip");
    if (changed) c.nontrivial();
    g_strfreev(sv);
}

void equality(Ctx& c)
{
    const int m = mode(c);
    SV a = strv::gen_all(c, m, 20), b(a);
    switch (c.range(0, 6)) {
    case 0: break;
    case 1: if (b.size()) b.resize(c.range(0, (int)b.size() - 1)); break;
    case 2: b.push_back(c.coin() ? std::string() : strv::gen(c, m)); break;
    case 3: if (b.size()) { auto& s = b[c.range(0, (int)b.size() - 1)]; if (s.size()) s[c.range(0, (int)s.size() - 1)] ^= 1;
        for (auto& x : s) if (!x) x = 'z'; break; }
        // fallthrough
    case 4: if (b.size()) b[c.range(0, (int)b.size() - 1)] += "x"; break;
    case 5: if (b.size() > 1) std::swap(b[0], b[c.range(0, (int)b.size() - 1)]); break;
    default: b = strv::gen_all(c, m, 20);
    }
    GStrV* x = strv::make(c, a);
    GStrV* y = strv::make(c, b);
    const bool eq = a == b;
    VP_EQ(c, !!gutil_strv_equal(x, y), eq, "equal");
    VP_EQ(c, !!gutil_strv_equal(y, x), eq, "equal (swapped)");
    VP_CHECK(c, gutil_strv_equal(x, x) && gutil_strv_equal(y, y), "equal to itself");
    strv::check(c, x, a, "first");
    strv::check(c, y, b, "second");
    if (a.size() && b.size()) c.nontrivial();
    if (eq) c.label("equal");
    g_strfreev(x);
    g_strfreev(y);
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C15";
    p.rule = "vectors of up to 120 strings: sorting both ways and search for all present and some missing strings, de-duplication, "
        "stripping, equality of related vectors, the same with up to 131000 strings; non-trivial = 3+ not all equal sorted strings, some duplicates "
        "and more than one left, something stripped, both compared vectors not empty";
    p.targets = { { "sorting", sorting, 1500, 900 }, { "dups", dups, 1000, 500 }, { "strip", strip, 500, 300 },
        { "equality", equality, 500, 400 }, { "large", large, 1, 60 } };
    p.fixed = { { "many-dups", fixed_dups } };
    p.leak_check = true;
    return p;
}
