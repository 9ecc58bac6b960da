/* Ring buffer against a plain list */
#ifndef RING_MODEL_H
#define RING_MODEL_H
#include "vp.h"
#include "gutil_ring.h"
#include <deque>
#include <vector>
#include <stdlib.h>

struct RingModel {
    typedef void* P;
    vp::Ctx& c;
    GUtilRing* r;
    std::deque<P> m;
    int max;              /* -1 = unlimited */
    int refs;
    bool big;             /* rings of tens of thousands of elements */
    uintptr_t next;
    int func;             /* 0 = none, 1 or 2 */
    bool wrapped_hint;
    size_t peak;
    bool fronted;
    std::vector<std::pair<int, P>> freed; /* (function, element) */
    std::vector<std::pair<int, P>> expect;
    bool unordered;       /* order of free calls isn't specified for this step */

    static RingModel*& self() { static RingModel* x; return x; }
    static void free1(gpointer p) { self()->freed.push_back({ 1, p }); }
    static void free2(gpointer p) { self()->freed.push_back({ 2, p }); }
    static GDestroyNotify fn(int i) { return i == 1 ? free1 : i == 2 ? free2 : NULL; }

    RingModel(vp::Ctx& ctx) : c(ctx), r(NULL), max(-1), refs(1), big(false), next(1), func(0),
        wrapped_hint(false), peak(0), fronted(false), unordered(false) { self() = this; }

    bool limited() const { return max >= 0; }
    bool full() const { return limited() && (int)m.size() >= max; }

    void create(int reserved, int limit, int f) {
        max = limit < 0 ? -1 : limit;
        func = f;
        if (!f && reserved == 0 && limit < 0 && c.coin()) {
            VP_LOG(c, "new()");
            r = gutil_ring_new();
        } else if (!f && c.coin()) {
            VP_LOG(c, "sized_new(%d,%d)", reserved, limit);
            r = gutil_ring_sized_new(reserved, limit);
        } else {
            VP_LOG(c, "new_full(%d,%d,f%d)", reserved, limit, f);
            r = gutil_ring_new_full(reserved, limit, fn(f));
        }
        VP_CHECK(c, r != NULL, "no ring");
        after("create");
    }

    P newelem() {
        /* NULL is an element like any other */
        if (c.chance(6)) return NULL;
        return (P)(next++ * 16);
    }

    /* Element leaves the ring by internal removal */
    void released(P p) { if (func) expect.push_back({ func, p }); }

    void check_freed(const char* what) {
        if (unordered) {
            auto a = freed, b = expect;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            VP_CHECK(c, a == b, "%s: %u elements freed, expected %u (or wrong ones)", what,
                (unsigned)freed.size(), (unsigned)expect.size());
        } else {
            VP_CHECK(c, freed.size() == expect.size(), "%s: %u elements freed, expected %u", what,
                (unsigned)freed.size(), (unsigned)expect.size());
            for (size_t i = 0; i < freed.size(); i++) {
                VP_CHECK(c, freed[i] == expect[i], "%s: freed #%u is %p by f%d, expected %p by f%d", what,
                    (unsigned)i, freed[i].second, freed[i].first, expect[i].second, expect[i].first);
            }
        }
        freed.clear();
        expect.clear();
        unordered = false;
    }

    void after(const char* what) {
        const int n = (int)m.size();
        check_freed(what);
        VP_CHECK(c, gutil_ring_size(r) == n, "after %s: size %d, expected %d", what, gutil_ring_size(r), n);
        VP_CHECK(c, gutil_ring_max_size(r) == max, "after %s: max size %d, expected %d", what,
            gutil_ring_max_size(r), max);
        VP_CHECK(c, !limited() || n <= max, "limit exceeded");
        if (n <= 48) {
            for (int i = 0; i < n; i++) at(what, i);
        } else {
            for (int i = 0; i < 8; i++) { at(what, i); at(what, n - 1 - i); }
            for (int i = 0; i < 16; i++) at(what, (int)(((unsigned)i * 2654435761u + n) % (unsigned)n));
        }
        VP_CHECK(c, !gutil_ring_data_at(r, n) && !gutil_ring_data_at(r, -1), "data past the end");
        if (m.size() > peak) peak = m.size();
    }

    void at(const char* what, int i) {
        const P p = gutil_ring_data_at(r, i);
        VP_CHECK(c, p == m[i], "after %s: element %d of %u is %p, expected %p", what, i,
            (unsigned)m.size(), p, m[i]);
    }

    void put(bool front) {
        const P p = newelem();
        const bool fits = !full();
        const gboolean can = gutil_ring_can_put(r, 1);
        const gboolean ok = front ? gutil_ring_put_front(r, p) : gutil_ring_put(r, p);
        VP_LOG(c, "put%s(%p) => %d", front ? "_front" : "", p, ok);
        VP_CHECK(c, (ok != 0) == fits, "put%s with %u elements, limit %d: %d", front ? "_front" : "",
            (unsigned)m.size(), max, ok);
        VP_CHECK(c, (can != 0) == fits, "can_put(1) with %u elements, limit %d: %d", (unsigned)m.size(), max, can);
        if (fits) {
            if (front) { m.push_front(p); fronted = true; }
            else m.push_back(p);
        } else c.label("put-refused");
        after(front ? "put_front" : "put");
    }

    void bulk() {
        int n = big ? (int)c.huge() : (int)c.len(3000);
        const unsigned pattern = c.raw() & 7;
        VP_LOG(c, "bulk put %d pattern %u", n, pattern);
        for (int i = 0; i < n; i++) {
            const P p = (P)(next++ * 16);
            const bool front = pattern == 1 || (pattern >= 4 && ((i >> (pattern - 4)) & 1));
            const gboolean ok = front ? gutil_ring_put_front(r, p) : gutil_ring_put(r, p);
            VP_CHECK(c, (ok != 0) == !full(), "put");
            if (!ok) break;
            if (front) m.push_front(p); else m.push_back(p);
        }
        after("bulk put");
    }

    void get(bool last) {
        const P p = last ? gutil_ring_get_last(r) : gutil_ring_get(r);
        VP_LOG(c, "get%s => %p", last ? "_last" : "", p);
        if (m.empty()) VP_CHECK(c, !p, "got %p from the empty ring", p);
        else {
            const P e = last ? m.back() : m.front();
            VP_CHECK(c, p == e, "get%s: %p, expected %p", last ? "_last" : "", p, e);
            if (last) m.pop_back(); else m.pop_front();
        }
        after(last ? "get_last" : "get");
    }

    void bulk_get() {
        int n = big ? (int)c.huge() : (int)c.len(2000);
        const unsigned pattern = c.raw() & 3;
        VP_LOG(c, "bulk get %d pattern %u", n, pattern);
        for (int i = 0; i < n && !m.empty(); i++) {
            const bool last = pattern == 1 || (pattern == 2 && (i & 1));
            const P p = last ? gutil_ring_get_last(r) : gutil_ring_get(r);
            const P e = last ? m.back() : m.front();
            VP_CHECK(c, p == e, "bulk get: %p, expected %p", p, e);
            if (last) m.pop_back(); else m.pop_front();
        }
        after("bulk get");
    }

    int amount() {
        /* Mostly comparable with the number of elements */
        switch (c.range(0, 4)) {
        case 0: return c.range(-2, 3);
        case 1: return (int)m.size() - c.range(-2, 3);
        case 2: return m.empty() ? 0 : c.range(0, (int)m.size());
        case 3: return big ? (int)c.huge() : (int)c.len(3000);
        default: return c.i32();
        }
    }

    void drop(bool last) {
        const int n = amount();
        const int expected = n <= 0 ? 0 : n < (int)m.size() ? n : (int)m.size();
        const bool all = expected == (int)m.size();
        for (int i = 0; i < expected; i++) {
            if (last && !all) { released(m.back()); m.pop_back(); }
            else { released(m.front()); m.pop_front(); }
        }
        unordered = last;
        const int k = last ? gutil_ring_drop_last(r, n) : gutil_ring_drop(r, n);
        VP_LOG(c, "drop%s(%d) => %d", last ? "_last" : "", n, k);
        VP_CHECK(c, k == expected, "drop%s(%d): %d, expected %d", last ? "_last" : "", n, k, expected);
        after(last ? "drop_last" : "drop");
    }

    void clear() {
        VP_LOG(c, "clear");
        for (P p : m) released(p);
        m.clear();
        gutil_ring_clear(r);
        after("clear");
    }

    void compact() {
        VP_LOG(c, "compact");
        gutil_ring_compact(r);
        after("compact");
    }

    void flatten() {
        gint n = -77;
        const bool null_size = c.chance(40);
        gpointer* p = gutil_ring_flatten(r, null_size ? NULL : &n);
        VP_LOG(c, "flatten");
        if (!null_size) VP_EQ(c, n, m.size(), "flatten size");
        VP_CHECK(c, !p == m.empty(), "flatten");
        for (size_t i = 0; i < m.size(); i++) {
            VP_CHECK(c, p[i] == m[i], "flat element %u is %p, expected %p", (unsigned)i, p[i], m[i]);
        }
        after("flatten");
    }

    void reserve() {
        int n;
        switch (c.range(0, 3)) {
        case 0: n = c.range(0, 20); break;
        case 1: n = (int)m.size() + c.range(0, 4); break;
        case 2: n = limited() ? max + c.range(-2, 3) : c.range(0, 300); break;
        default: n = big ? (int)c.huge() * c.range(1, 3) : (int)c.len(5000); break;
        }
        if (n < 0) n = 0;
        if (n > 400000) n = 400000;
        const gboolean ok = gutil_ring_reserve(r, n);
        VP_LOG(c, "reserve(%d) => %d", n, ok);
        VP_CHECK(c, (ok != 0) == (!limited() || n <= max), "reserve(%d) with limit %d: %d", n, max, ok);
        after("reserve");
    }

    void can_put() {
        int n;
        switch (c.range(0, 2)) {
        case 0: n = c.range(0, 10); break;
        case 1: n = limited() ? max - (int)m.size() + c.range(-2, 2) : c.range(0, 1000); break;
        default: n = c.i32(); break;
        }
        if (n < 0) n = 0;
        const gboolean ok = gutil_ring_can_put(r, n);
        VP_LOG(c, "can_put(%d) => %d", n, ok);
        VP_CHECK(c, (ok != 0) == (!limited() || (long long)m.size() + n <= max),
            "can_put(%d) with %u elements and limit %d: %d", n, (unsigned)m.size(), max, ok);
    }

    void set_max() {
        int n;
        switch (c.range(0, 4)) {
        case 0: n = -1; break;
        case 1: n = c.range(0, 10); break;
        case 2: n = (int)m.size() + c.range(-3, 3); break;
        case 3: n = big ? (int)c.huge() : (int)c.len(4000); break;
        default: n = c.i32(); break;
        }
        VP_LOG(c, "set_max_size(%d)", n);
        if (n < 0) max = -1;
        else {
            max = n;
            while ((int)m.size() > max) { released(m.front()); m.pop_front(); }
        }
        gutil_ring_set_max_size(r, n);
        after("set_max_size");
    }

    void set_free() {
        func = c.range(0, 2);
        VP_LOG(c, "set_free_func(f%d)", func);
        gutil_ring_set_free_func(r, fn(func));
        after("set_free_func");
    }

    void ref() {
        if (refs < 5) {
            VP_CHECK(c, gutil_ring_ref(r) == r, "ref");
            refs++;
            VP_LOG(c, "ref");
        }
    }

    void unref() {
        if (refs > 1) {
            refs--;
            VP_LOG(c, "unref");
            gutil_ring_unref(r);
            after("unref");
        }
    }

    void finish() {
        VP_LOG(c, "the last unref of %u elements", (unsigned)m.size());
        while (refs > 1) { refs--; gutil_ring_unref(r); check_freed("unref"); }
        for (P p : m) released(p);
        gutil_ring_unref(r);
        check_freed("the last unref");
        m.clear();
        self() = NULL;
    }

    enum { NOPS = 17 };
    void op(int i) {
        switch (i) {
        case 0: case 1: put(false); break;
        case 2: put(true); break;
        case 3: get(false); break;
        case 4: get(true); break;
        case 5: flatten(); break;
        case 6: drop(false); break;
        case 7: drop(true); break;
        case 8: clear(); break;
        case 9: compact(); break;
        case 10: reserve(); break;
        case 11: can_put(); break;
        case 12: set_max(); break;
        case 13: set_free(); break;
        case 14: if (c.coin()) ref(); else unref(); break;
        case 15: bulk(); break;
        case 16: bulk_get(); break;
        }
    }
};
#endif
