// VP-GIANT: 20
/* C13: equality, hash, order and search */
#include <algorithm>
#include <gutil_ints.h>
#include <gutil_intarray.h>
#include "vp.h"
#include "giant.h"
using namespace vp;

namespace {

typedef std::vector<int> V;

V gen(Ctx& c, int mode)
{
    V v(c.chance(200) ? (unsigned)c.range(0, 6) : c.len(40));
    for (int& x : v) x = mode == 0 ? c.range(0, 2) : mode == 1 ? c.i32() : mode == 2 ? c.range(-300, 300) : (int)c.u32();
    return v;
}

V related(Ctx& c, const V& a, int mode)
{
    V v(a);
    switch (c.range(0, 6)) {
    case 0: break;
    case 1: if (v.size()) v.resize(c.range(0, (int)v.size() - 1)); break;
    case 2: v.push_back(mode == 0 ? c.range(0, 2) : c.i32()); break;
    case 3: if (v.size()) v[c.range(0, (int)v.size() - 1)] ^= 1 << c.range(0, 31); break;
    case 4: if (v.size() > 1) std::swap(v[c.range(0, (int)v.size() - 1)], v[c.range(0, (int)v.size() - 1)]); break;
    case 5: if (v.size()) v[c.range(0, (int)v.size() - 1)] += c.coin() ? 1 : 256; break;
    default: v = gen(c, mode); break;
    }
    return v;
}

/* The same contents stored in different ways */
struct Ints {
    GUtilInts* p;
    std::vector<int> keep;
    Ints(Ctx& c, const V& v, GUtilInts* base = NULL, const V* bv = NULL) {
        if (base && v.size() && c.coin()) {
            /* Shares its storage with the others */
            const auto it = std::search(bv->begin(), bv->end(), v.begin(), v.end());
            if (it != bv->end()) {
                c.label("shared");
                p = gutil_ints_new_from_ints(base, it - bv->begin(), (guint)v.size());
                return;
            }
        }
        switch (c.range(0, 4)) {
        case 0: p = gutil_ints_new(v.data(), (guint)v.size()); break;
        case 1: keep = v; p = gutil_ints_new_static(keep.data(), (guint)v.size()); break;
        case 2: {
            V big(v);
            const int before = c.range(0, 3), after = c.range(0, 3);
            for (int i = 0; i < before; i++) big.insert(big.begin(), c.i32());
            for (int i = 0; i < after; i++) big.push_back(c.i32());
            GUtilInts* all = gutil_ints_new(big.data(), (guint)big.size());
            p = gutil_ints_new_from_ints(all, before, (guint)v.size());
            gutil_ints_unref(all);
            break;
        }
        case 3: {
            GUtilIntArray* a = gutil_int_array_new();
            for (int x : v) gutil_int_array_append(a, x);
            p = gutil_int_array_free_to_ints(a);
            break;
        }
        default: p = v.empty() ? NULL : gutil_ints_new_take((int*)g_memdup2(v.data(), v.size() * sizeof(int)), (guint)v.size());
        }
    }
    ~Ints() { gutil_ints_unref(p); }
};

int sign(int x) { return (x > 0) - (x < 0); }

void laws(Ctx& c)
{
    const int mode = c.range(0, 3);
    V v[3];
    v[0] = gen(c, mode);
    v[1] = related(c, v[0], mode);
    v[2] = related(c, v[c.range(0, 1)], mode);
    V* longest = std::max_element(v, v + 3, [](const V& a, const V& b) { return a.size() < b.size(); });
    Ints base(c, *longest);
    Ints a0(c, v[0], base.p, longest), a1(c, v[1], base.p, longest), a2(c, v[2], base.p, longest);
    /* And the second set of the same */
    Ints b0(c, v[0]), b1(c, v[1]), b2(c, v[2]);
    GUtilInts* p[3] = { a0.p, a1.p, a2.p };
    GUtilInts* q[3] = { b0.p, b1.p, b2.p };
    int cmp[3][3];
    for (int i = 0; i < 3; i++) {
        VP_CHECK(c, v[i].empty() == !p[i], "empty is NULL");
        VP_EQ(c, gutil_ints_hash(p[i]), gutil_ints_hash(q[i]), "hash of the same contents");
        VP_EQ(c, gutil_ints_hash(p[i]), gutil_ints_hash(p[i]), "hash is stable");
        for (int j = 0; j < 3; j++) {
            const bool eq = v[i] == v[j];
            VP_EQ(c, !!gutil_ints_equal(p[i], p[j]), eq, "equal");
            VP_EQ(c, !!gutil_ints_equal(p[i], q[j]), eq, "equal (different storage)");
            if (eq) VP_EQ(c, gutil_ints_hash(p[i]), gutil_ints_hash(p[j]), "hash of equal vectors");
            cmp[i][j] = sign(gutil_ints_compare(p[i], p[j]));
            VP_EQ(c, sign(gutil_ints_compare(q[i], p[j])), cmp[i][j], "comparison of the same contents");
            VP_EQ(c, cmp[i][j] == 0, eq, "comparison gives zero");
            if (!eq && v[i].size() < v[j].size() && std::equal(v[i].begin(), v[i].end(), v[j].begin())) {
                VP_EQ(c, cmp[i][j], -1, "prefix must be less");
                c.label("prefix");
            }
            if (eq && i != j) c.label("equal");
        }
    }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        VP_EQ(c, cmp[i][j], -cmp[j][i], "antisymmetry");
        for (int k = 0; k < 3; k++) {
            if (cmp[i][j] <= 0 && cmp[j][k] <= 0) {
                VP_CHECK(c, cmp[i][k] <= 0, "transitivity");
                if (cmp[i][j] < 0 || cmp[j][k] < 0) VP_EQ(c, cmp[i][k], -1, "transitivity");
            }
        }
    }
    if (!v[0].empty() && !v[1].empty() && v[0] != v[1]) c.nontrivial();
}

void search(Ctx& c)
{
    const V v = gen(c, c.range(0, 3));
    Ints a(c, v);
    for (int k = 0; k < 4; k++) {
        const int x = v.size() && c.coin() ? v[c.range(0, (int)v.size() - 1)] + (c.chance(40) ? 256 : 0) : c.i32();
        const auto it = std::find(v.begin(), v.end(), x);
        const int expect = it == v.end() ? -1 : (int)(it - v.begin());
        VP_EQ(c, gutil_ints_find(a.p, x), expect, "find");
        VP_EQ(c, !!gutil_ints_contains(a.p, x), expect >= 0, "contains");
        if (expect > 0) c.nontrivial();
    }
}

/* Long vectors, lengths of which don't fit into 8 or 16 bits */
void longer(Ctx& c)
{
    V v[2];
    const unsigned n = c.pick({ 1, 0, 256, 32768, 65536, 65537, 2 });
    v[0].resize(n + c.range(0, 3));
    v[1].resize(c.coin() ? n + c.pick({ 0, 256, 32768, 65536, 131072 }) + c.range(0, 3) :
        c.pick({ 1, 256, 32768, 32769, 65536, 65537 }));
    uint32_t seed = c.u32();
    const unsigned shift = c.pick({ 0, 24, 28 });
    for (V& x : v) {
        uint32_t s = seed;
        for (int& e : x) {
            s = s * 1664525u + 1013904223u;
            e = (int)s >> shift;
        }
    }
    V& d = v[c.range(0, 1)];
    if (d.size() && c.chance(120)) {
        d[c.coin() ? d.size() - 1 : c.urange(0, d.size() - 1)] ^= 1 << c.range(0, 31);
        c.label("changed");
    }
    Ints a(c, v[0]), b(c, v[1]);
    const bool eq = v[0] == v[1];
    const int cmp = sign(gutil_ints_compare(a.p, b.p));
    VP_EQ(c, gutil_ints_get_count(a.p), v[0].size(), "count");
    VP_EQ(c, gutil_ints_get_count(b.p), v[1].size(), "count");
    VP_EQ(c, !!gutil_ints_equal(a.p, b.p), eq, "equal");
    VP_EQ(c, !!gutil_ints_equal(b.p, a.p), eq, "equal");
    VP_EQ(c, cmp == 0, eq, "comparison gives zero");
    VP_EQ(c, sign(gutil_ints_compare(b.p, a.p)), -cmp, "antisymmetry");
    if (eq) VP_EQ(c, gutil_ints_hash(a.p), gutil_ints_hash(b.p), "hash of equal vectors");
    const size_t common = std::min(v[0].size(), v[1].size());
    if (!eq && std::equal(v[0].begin(), v[0].begin() + common, v[1].begin())) {
        VP_EQ(c, cmp, v[0].size() < v[1].size() ? -1 : 1, "prefix must be less");
        c.label("long-prefix");
    }
    const V& w = v[c.range(0, 1)];
    if (w.size()) {
        GUtilInts* p = &w == &v[0] ? a.p : b.p;
        const int x = c.chance(200) ? w[c.coin() ? w.size() - 1 : c.urange(0, w.size() - 1)] : c.i32();
        const auto it = std::find(w.begin(), w.end(), x);
        VP_EQ(c, gutil_ints_find(p, x), it == w.end() ? -1 : (int)(it - w.begin()), "find");
        VP_EQ(c, !!gutil_ints_contains(p, x), it != w.end(), "contains");
    }
    if (v[0].size() > 32767 && v[1].size() > 0) c.nontrivial();
}

/* Gigabytes */
void giants(Ctx& c)
{
    const size_t size = giant::size(c, 2) & ~(size_t)3;
    const guint n = (guint)(size / sizeof(int));
    giant::Block a(c, size), b(c, size);
    if (!a.ok() || !b.ok()) return;
    int* x = (int*)a.p;
    int* y = (int*)b.p;
    for (int i = 0; i < 5; i++) {
        const guint at = giant::pos(c, size) / sizeof(int);
        x[at] = y[at] = c.range(-2, 100);
    }
    const int k = c.range(0, 4);
    const guint at = giant::pos(c, size) / sizeof(int);
    /* A difference in one value, in length or not at all */
    const int how = c.range(0, 2);
    if (how == 1) y[at] ^= 0x10000;
    const guint m = how == 2 ? n - c.range(1, 3) : n;
    GUtilInts* p = gutil_ints_new_static(x, n);
    GUtilInts* q = gutil_ints_new_static(y, m);
    VP_LOG(c, "%u and %u integers, difference %d at %u, %d", n, m, how, at, k);
    switch (k) {
    case 0: case 1:
        VP_EQ(c, !!gutil_ints_equal(p, q), !how, "equal");
        break;
    case 2: {
        const int r = sign(gutil_ints_compare(p, q));
        VP_EQ(c, r == 0, !how, "comparison gives zero");
        if (how == 2) VP_EQ(c, r, 1, "prefix must be less");
        VP_EQ(c, sign(gutil_ints_compare(q, p)), -r, "antisymmetry");
        break;
    }
    case 3:
        if (!how) VP_EQ(c, gutil_ints_hash(p), gutil_ints_hash(q), "hash of equal vectors");
        else VP_EQ(c, gutil_ints_hash(q), gutil_ints_hash(q), "hash is stable");
        break;
    default:
        x[at] = 0x1234567;
        VP_EQ(c, gutil_ints_find(p, 0x1234567), at, "find");
        VP_CHECK(c, gutil_ints_contains(p, 0x1234567) && !gutil_ints_contains(p, 0x7654321), "contains");
        break;
    }
    gutil_ints_unref(p);
    gutil_ints_unref(q);
    c.nontrivial();
}

/* Search in the vectors with more than 2G values */
void giant_search(Ctx& c)
{
    const guint n = 0x80000000u + c.range(2, 40);
    giant::Block a(c, (size_t)n * sizeof(int));
    if (!a.ok()) return;
    int* x = (int*)a.p;
    const guint at = c.coin() ? n - 1 - c.range(0, 1) : 0x7fffffffu - c.range(0, 2);
    x[at] = 77;
    GUtilInts* p = gutil_ints_new_static(x, n);
    VP_LOG(c, "%u integers, looking for the one at %u", n, at);
    VP_CHECK(c, gutil_ints_contains(p, 77), "contains");
    /* int is too short for the other ones */
    if (at <= (guint)G_MAXINT) VP_EQ(c, gutil_ints_find(p, 77), at, "find");
    gutil_ints_unref(p);
    c.nontrivial();
}

/* As keys of a hash table */
void table(Ctx& c)
{
    GHashTable* t = g_hash_table_new(gutil_ints_hash, gutil_ints_equal);
    std::vector<std::pair<V, int>> m;
    std::vector<Ints*> all;
    const int n = c.range(1, 12);
    for (int i = 1; i <= n; i++) {
        const V v = m.empty() || c.coin() ? gen(c, c.range(0, 2)) : related(c, m[c.range(0, (int)m.size() - 1)].first, 0);
        Ints* p = new Ints(c, v);
        all.push_back(p);
        int old = 0;
        for (auto& x : m) if (x.first == v) { old = x.second; break; }
        VP_EQ(c, GPOINTER_TO_INT(g_hash_table_lookup(t, p->p)), old, "lookup");
        if (!old) {
            m.push_back(std::make_pair(v, i));
            g_hash_table_insert(t, p->p, GINT_TO_POINTER(i));
        } else c.label("same-key");
    }
    VP_EQ(c, g_hash_table_size(t), m.size(), "number of keys");
    if (m.size() > 3) c.nontrivial();
    g_hash_table_destroy(t);
    for (auto* x : all) delete x;
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C13";
    p.rule = "laws: triples of related vectors (equal, prefixes, one bit, one element or order changed), each stored in two of five ways; "
        "search: present and absent values; table: up to 12 related keys in a hash table; "
        "longer: pairs of vectors up to 200000 elements long, equal, prefixes or with one bit changed; a few vectors of 2 to 8 gigabytes; "
        "non-trivial = different non-empty vectors, the value isn't the first one, more than 3 keys";
    p.targets = { { "laws", laws, 32, 300 }, { "search", search, 8, 200 }, { "table", table, 8, 400 },
        { "longer", longer, 1, 60 } };
    p.giant = { { "giants", giants, 3, 60 }, { "giant_search", giant_search, 1, 20 } };
    p.leak_check = true;
    return p;
}
