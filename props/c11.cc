// VP-ASSUMES: inserted values are not a part of the array itself; less than 2^30 elements
/* C11: int arrays */
#include <algorithm>
#include <gutil_intarray.h>
#include <gutil_ints.h>
#include "vp.h"
using namespace vp;

namespace {

struct Model {
    Ctx& c;
    GUtilIntArray* a;
    std::vector<int> m;
    int mode;
    int refs;
    bool removed, grown, big;

    Model(Ctx& ctx, bool b) : c(ctx), a(NULL), mode(c.range(0, 3)), refs(1), removed(false), grown(false), big(b) {}

    int val() {
        if (big && m.size() && c.chance(180)) {
            /* An element which exists, preferably far away */
            return m[c.coin() ? m.size() - 1 - c.range(0, 20) % m.size() : c.urange(0, m.size() - 1)];
        }
        switch (mode) {
        case 0: return c.range(0, 5);
        case 1: return c.range(-100, 100);
        case 2: return c.i32();
        default: return c.coin() && m.size() ? m[c.range(0, (int)m.size() - 1)] : (int)c.u32();
        }
    }
    std::vector<int> vals() {
        if (big && m.size() < 70000 && (m.empty() || c.chance(60))) {
            /* Sizes which don't fit into 8, 15, 16, 17 bits */
            std::vector<int> v(c.pick({ 65536, 32768, 131072, 256, 65536 }) + c.range(-5, 40));
            uint32_t x = c.u32(), mask = c.pick({ 0xffffffffu, 0xffu, 7u, 0xffffu });
            for (size_t i = 0; i < v.size(); i++) {
                x = x * 1664525u + 1013904223u;
                v[i] = mask == 0xffffffffu ? (int)x : (int)((x >> 9) & mask);
            }
            return v;
        }
        std::vector<int> v(c.chance(200) ? (unsigned)c.range(0, 8) : c.len(150));
        for (int& x : v) x = val();
        return v;
    }
    guint pos() {
        if (big && c.chance(120) && m.size() > 300) {
            return std::min((guint)m.size() - 1, (guint)c.pick({ 65536, 32768, 256, 131072 }) + c.range(-3, 3));
        }
        switch (c.range(0, 5)) {
        case 0: return (guint)m.size();
        case 1: return (guint)m.size() + c.range(0, 20);
        case 2: return m.size() ? (guint)m.size() - 1 : 0;
        default: return m.size() ? (guint)c.range(0, (int)m.size() - 1) : 0;
        }
    }
    /* Positions which are never valid */
    guint any_pos() {
        switch (c.range(0, 3)) {
        case 0: return G_MAXUINT - c.range(0, 10);
        case 1: return (guint)c.x64();
        default: return pos();
        }
    }

    void check(const char* what) {
        VP_EQ(c, a->count, m.size(), what);
        for (size_t i = 0; i < m.size(); i++) {
            if (a->data[i] != m[i]) c.fail("%s: element %d is %d, expected %d", what, (int)i, a->data[i], m[i]);
        }
    }
    /* After the fast removals */
    void reordered(const char* what) {
        VP_EQ(c, a->count, m.size(), what);
        std::vector<int> v(a->data, a->data + a->count), s(m);
        std::sort(v.begin(), v.end());
        std::sort(s.begin(), s.end());
        VP_CHECK(c, v == s, "%s: wrong elements left", what);
        m.assign(a->data, a->data + a->count);
    }

    void create() {
        std::vector<int> v;
        const int how = big ? 3 : c.range(0, 3);
        switch (how) {
        case 0: a = gutil_int_array_new(); break;
        case 1: a = gutil_int_array_sized_new(c.range(0, 40)); break;
        case 2: { int x = val(); a = gutil_int_array_new_from_value(x); v.push_back(x); break; }
        default: v = vals();
            a = gutil_int_array_new_from_vals(v.size() || c.coin() ? v.data() : NULL, (guint)v.size());
        }
        m = v;
        VP_LOG(c, "new (%d) with %d", how, (int)v.size());
        check("new");
    }

    /* The array was extended by n unspecified elements at pos */
    void fill(size_t from, size_t to) {
        for (size_t i = from; i < to; i++) m[i] = a->data[i] = to - from > 200 ? (int)i : val();
    }

    void op(int k) {
        GUtilIntArray* r = a;
        switch (k) {
        case 0: {
            int v = val();
            VP_LOG(c, "append %d", v);
            r = gutil_int_array_append(a, v);
            m.push_back(v);
            check("append");
            break;
        }
        case 1: {
            std::vector<int> v = vals();
            VP_LOG(c, "append %d values", (int)v.size());
            r = gutil_int_array_append_vals(a, v.data(), (guint)v.size());
            m.insert(m.end(), v.begin(), v.end());
            check("append_vals");
            break;
        }
        case 2: {
            int v = val();
            VP_LOG(c, "prepend %d", v);
            r = gutil_int_array_prepend(a, v);
            m.insert(m.begin(), v);
            check("prepend");
            break;
        }
        case 3: {
            std::vector<int> v = vals();
            VP_LOG(c, "prepend %d values", (int)v.size());
            r = gutil_int_array_prepend_vals(a, v.data(), (guint)v.size());
            m.insert(m.begin(), v.begin(), v.end());
            check("prepend_vals");
            break;
        }
        case 4: case 5: {
            const guint p = pos();
            std::vector<int> v = vals();
            if (k == 4) v.assign(1, val());
            VP_LOG(c, "insert %d values at %u", (int)v.size(), p);
            r = k == 4 ? gutil_int_array_insert(a, p, v[0]) :
                gutil_int_array_insert_vals(a, p, v.data(), (guint)v.size());
            const size_t before = m.size();
            if (v.size()) {
                if (p > before) {
                    m.resize(p);
                    grown = true;
                    VP_EQ(c, a->count, p + v.size(), "count after insertion past the end");
                    fill(before, p);
                }
                m.insert(m.begin() + p, v.begin(), v.end());
            }
            check("insert");
            break;
        }
        case 6: {
            const size_t before = m.size();
            const guint n = c.coin() ? (guint)c.range(0, (int)before) : (guint)before + c.range(0, big ? 70000 : 30);
            VP_LOG(c, "set count %u", n);
            r = gutil_int_array_set_count(a, n);
            VP_EQ(c, a->count, n, "count");
            m.resize(n);
            if (n > before) { fill(before, n); grown = true; }
            check("set_count");
            break;
        }
        case 7: case 8: case 9: case 10: {
            int v = val();
            const int n = (int)std::count(m.begin(), m.end(), v);
            if (n) removed = true;
            VP_LOG(c, "remove (%d) %d", k, v);
            if (k == 7) {
                const gboolean ok = gutil_int_array_remove(a, v);
                VP_EQ(c, ok, n > 0, "remove");
                if (n) m.erase(std::find(m.begin(), m.end(), v));
                check("remove");
            } else if (k == 8) {
                const gboolean ok = gutil_int_array_remove_fast(a, v);
                VP_EQ(c, ok, n > 0, "remove_fast");
                if (n) { m.erase(std::find(m.begin(), m.end(), v)); reordered("remove_fast"); }
                else check("remove_fast");
            } else if (k == 9) {
                VP_EQ(c, gutil_int_array_remove_all(a, v), n, "remove_all");
                m.erase(std::remove(m.begin(), m.end(), v), m.end());
                check("remove_all");
            } else {
                VP_EQ(c, gutil_int_array_remove_all_fast(a, v), n, "remove_all_fast");
                m.erase(std::remove(m.begin(), m.end(), v), m.end());
                if (n) reordered("remove_all_fast"); else check("remove_all_fast");
            }
            break;
        }
        case 11: {
            const guint p = any_pos();
            VP_LOG(c, "remove index %u", p);
            r = gutil_int_array_remove_index(a, p);
            if (p < m.size()) { m.erase(m.begin() + p); removed = true; }
            check("remove_index");
            break;
        }
        case 12: {
            const guint p = any_pos();
            VP_LOG(c, "remove index fast %u", p);
            r = gutil_int_array_remove_index_fast(a, p);
            if (p < m.size()) { m.erase(m.begin() + p); removed = true; reordered("remove_index_fast"); }
            else check("remove_index_fast");
            break;
        }
        case 13: case 14: {
            const guint p = any_pos();
            guint n = c.chance(60) ? G_MAXUINT - c.range(0, 200) : c.chance(40) ? (guint)c.x64() : (guint)c.range(0, 20);
            if (c.chance(40)) n = 0u - p + c.range(0, 10) ; /* wraps around */
            VP_LOG(c, "remove range %u %u", p, n);
            r = gutil_int_array_remove_range(a, p, n);
            if (p < m.size()) {
                const size_t k2 = std::min((size_t)n, m.size() - p);
                m.erase(m.begin() + p, m.begin() + p + k2);
                if (k2) removed = true;
            }
            check("remove_range");
            break;
        }
        case 15:
            VP_LOG(c, "sort ascending");
            gutil_int_array_sort_ascending(a);
            std::sort(m.begin(), m.end());
            check("sort_ascending");
            break;
        case 16:
            VP_LOG(c, "sort descending");
            gutil_int_array_sort_descending(a);
            std::sort(m.begin(), m.end(), std::greater<int>());
            check("sort_descending");
            break;
        case 17: {
            int v = val();
            const auto it = std::find(m.begin(), m.end(), v);
            VP_EQ(c, gutil_int_array_find(a, v), it == m.end() ? -1 : (int)(it - m.begin()), "find");
            VP_EQ(c, gutil_int_array_contains(a, v), it != m.end(), "contains");
            check("find");
            break;
        }
        case 18:
            if (refs < 4 && c.coin()) {
                VP_CHECK(c, gutil_int_array_ref(a) == a, "ref");
                refs++;
            } else if (refs > 1) {
                gutil_int_array_unref(a);
                refs--;
            }
            check("ref/unref");
            break;
        }
        VP_CHECK(c, r == a, "return value");
    }

    void finish() {
        const std::vector<int> v(m);
        const int n = (int)v.size();
        if (refs > 1 && c.coin()) {
            while (refs > 1) { gutil_int_array_unref(a); refs--; check("unref"); }
        }
        const int how = refs > 1 ? 0 : c.range(0, 3);
        VP_LOG(c, "finish %d refs %d", how, refs);
        if (how == 0) {
            while (refs-- > 0) {
                check("unref");
                gutil_int_array_unref(a);
            }
        } else if (how == 1) {
            int* d = gutil_int_array_free(a, TRUE);
            VP_CHECK(c, !d, "free with the data");
        } else if (how == 2) {
            int* d = gutil_int_array_free(a, FALSE);
            if (n) {
                VP_CHECK(c, d && !memcmp(d, v.data(), n * sizeof(int)), "released data");
                g_free(d);
            } else {
                VP_CHECK(c, !d, "data of an empty array");
            }
        } else {
            GUtilInts* i = gutil_int_array_free_to_ints(a);
            VP_EQ(c, gutil_ints_get_count(i), n, "free_to_ints");
            if (n) VP_CHECK(c, !memcmp(gutil_ints_get_data(i, NULL), v.data(), n * sizeof(int)), "ints data");
            else VP_CHECK(c, !i, "ints from empty array");
            gutil_ints_unref(i);
        }
    }
};

void play(Ctx& c, bool big)
{
    Model m(c, big);
    Swarm s(c, 19);
    m.create();
    while (c.more() && c.steps++ < (big ? 20u : 300u)) {
        m.op(s.op(c));
        if (m.m.size() > (big ? 300000 : 3000)) break;
    }
    if (m.removed) c.label("removed");
    if (m.grown) c.label("extended");
    if (m.mode >= 2) c.label("any-values");
    if (big) c.label("large");
    if (m.removed && c.steps > 5) c.nontrivial();
    m.finish();
}

void history(Ctx& c) { play(c, false); }
void large(Ctx& c) { play(c, true); }

void sorting(Ctx& c)
{
    std::vector<int> v(c.len(300));
    const int mode = c.range(0, 3);
    for (int& x : v) {
        x = mode == 0 ? c.i32() : mode == 1 ? (int)c.u32() : mode == 2 ? c.range(-3, 3) :
            c.coin() ? INT32_MIN + c.range(0, 2) : INT32_MAX - c.range(0, 2);
    }
    GUtilIntArray* a = gutil_int_array_new_from_vals(v.data(), (guint)v.size());
    const bool desc = c.coin();
    if (desc) gutil_int_array_sort_descending(a); else gutil_int_array_sort_ascending(a);
    std::sort(v.begin(), v.end());
    if (desc) std::reverse(v.begin(), v.end());
    VP_EQ(c, a->count, v.size(), "count");
    for (size_t i = 0; i < v.size(); i++) VP_EQ(c, a->data[i], v[i], "sorted element");
    if (v.size() > 2) c.nontrivial();
    gutil_int_array_unref(a);
}

void null_array(Ctx& c)
{
    int v[2] = { 1, 2 };
    VP_CHECK(c, !gutil_int_array_free(NULL, TRUE) && !gutil_int_array_free(NULL, FALSE), "free");
    VP_CHECK(c, !gutil_int_array_free_to_ints(NULL), "free_to_ints");
    VP_CHECK(c, !gutil_int_array_ref(NULL), "ref");
    gutil_int_array_unref(NULL);
    VP_CHECK(c, !gutil_int_array_append(NULL, 1) && !gutil_int_array_append_vals(NULL, v, 2), "append");
    VP_CHECK(c, !gutil_int_array_prepend(NULL, 1) && !gutil_int_array_prepend_vals(NULL, v, 2), "prepend");
    VP_CHECK(c, !gutil_int_array_insert(NULL, 0, 1) && !gutil_int_array_insert_vals(NULL, 0, v, 2), "insert");
    VP_CHECK(c, !gutil_int_array_set_count(NULL, 2), "set_count");
    VP_EQ(c, gutil_int_array_find(NULL, 1), -1, "find");
    VP_CHECK(c, !gutil_int_array_contains(NULL, 1), "contains");
    VP_CHECK(c, !gutil_int_array_remove(NULL, 1) && !gutil_int_array_remove_fast(NULL, 1), "remove");
    VP_CHECK(c, !gutil_int_array_remove_all(NULL, 1) && !gutil_int_array_remove_all_fast(NULL, 1), "remove_all");
    VP_CHECK(c, !gutil_int_array_remove_index(NULL, 0) && !gutil_int_array_remove_index_fast(NULL, 0), "remove_index");
    VP_CHECK(c, !gutil_int_array_remove_range(NULL, 0, 1), "remove_range");
    gutil_int_array_sort_ascending(NULL);
    gutil_int_array_sort_descending(NULL);
}

void fixed_sort(Ctx& c)
{
    const int v[] = { INT32_MAX, -1, INT32_MIN, 5 };
    GUtilIntArray* a = gutil_int_array_new_from_vals(v, 4);
    gutil_int_array_sort_ascending(a);
    VP_CHECK(c, a->data[0] == INT32_MIN && a->data[1] == -1 && a->data[2] == 5 && a->data[3] == INT32_MAX, "ascending");
    gutil_int_array_sort_descending(a);
    VP_CHECK(c, a->data[3] == INT32_MIN && a->data[2] == -1 && a->data[1] == 5 && a->data[0] == INT32_MAX, "descending");
    gutil_int_array_unref(a);
}

void fixed_range(Ctx& c)
{
    const int v[] = { 1, 2, 3, 4 };
    GUtilIntArray* a = gutil_int_array_new_from_vals(v, 4);
    gutil_int_array_remove_range(a, 2, G_MAXUINT);
    VP_EQ(c, a->count, 2, "count after remove_range(2, G_MAXUINT)");
    gutil_int_array_remove_range(a, 1, G_MAXUINT);
    VP_EQ(c, a->count, 1, "count after remove_range(1, G_MAXUINT)");
    gutil_int_array_unref(a);
}

void fixed_index(Ctx& c)
{
    GUtilIntArray* a = gutil_int_array_new_from_value(1);
    gutil_int_array_remove_index_fast(a, 1);
    VP_EQ(c, a->count, 1, "count after remove_index_fast(1)");
    gutil_int_array_unref(a);
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C11";
    p.rule = "history: up to 300 edits of an array of small, repeated, extreme and arbitrary values at any positions, "
        "contents compared with a list after each one (as a multiset after the fast removals); large: the same with up to 300000 elements and up to 20 edits; sorting: arrays of up to 300 "
        "values compared with sorted list; non-trivial = something was removed in more than 5 steps, 3 or more sorted values";
    p.targets = { { "history", history, 480, 1200 }, { "large", large, 1, 160 }, { "sorting", sorting, 120, 1300 } };
    p.fixed = { { "sort-overflow", fixed_sort }, { "range-overflow", fixed_range },
        { "index-fast", fixed_index }, { "null", null_array } };
    p.leak_check = true;
    return p;
}
