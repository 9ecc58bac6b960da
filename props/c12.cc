// VP-GIANT: 8
// VP-ASSUMES: wrapped data don't change while wrapped; data of an empty vector remain owned by the caller
/* C12: immutable int vectors */
#include <algorithm>
#include <memory>
#include <gutil_ints.h>
#include <gutil_intarray.h>
#include "vp.h"
#include "giant.h"
#include <map>
using namespace vp;

namespace {

enum Origin { COPIED, TAKEN, STATIC, WRAPPED, BLOCK, FROM_ARRAY, NULL_DATA, SELF, ORIGINS };

struct Root { int id; Origin origin; int live; int freed; int* data; guint n; Ctx* c; };
struct Vec { GUtilInts* p; int refs; std::vector<int> v; Root* root; bool slice; };

void release(gpointer p)
{
    Root* r = (Root*)p;
    if (r->freed) r->c->fail("free function of vector %d is called twice", r->id);
    if (r->live) r->c->fail("free function of vector %d is called while it's still in use", r->id);
    r->freed++;
    /* Nobody is supposed to look there anymore */
    g_free(r->data);
    r->data = NULL;
}

/* The argument of the free function is the data */
std::map<gpointer, Root*> self_roots;
void release_self(gpointer p)
{
    auto it = self_roots.find(p);
    if (it == self_roots.end()) current->fail("unexpected argument of the free function");
    Root* r = it->second;
    self_roots.erase(it);
    release(r);
}

/* The free function is entitled to being called with NULL */
int null_free_calls;
void release_null(gpointer p)
{
    if (p) current->fail("unexpected argument of the free function");
    null_free_calls++;
}

struct World {
    Ctx& c;
    std::vector<std::unique_ptr<Root>> roots;
    std::vector<std::unique_ptr<Vec>> vecs;
    bool big, sliced, extracted, shared_extracted;

    World(Ctx& ctx, bool b) : c(ctx), big(b), sliced(false), extracted(false), shared_extracted(false) {}

    void check(const char* what) {
        for (auto& x : vecs) {
            guint n = 12345;
            const int* d = gutil_ints_get_data(x->p, &n);
            VP_EQ(c, n, x->v.size(), what);
            VP_EQ(c, gutil_ints_get_count(x->p), n, "count");
            VP_CHECK(c, gutil_ints_get_data(x->p, NULL) == d, "data without count");
            if (memcmp(d, x->v.data(), n * sizeof(int))) c.fail("%s: values have changed", what);
        }
        int n = 0;
        for (auto& r : roots) {
            if (r->origin == WRAPPED || r->origin == SELF) VP_EQ(c, r->freed, r->live ? 0 : 1, "number of free function calls");
            if (r->origin == NULL_DATA && !r->live) n++;
        }
        VP_EQ(c, null_free_calls, n, "number of free function calls with NULL");
    }

    void add(GUtilInts* p, const std::vector<int>& v, Root* r, bool slice) {
        VP_CHECK(c, p, "vector isn't created");
        Vec* x = new Vec();
        x->p = p;
        x->refs = 1;
        x->v = v;
        x->root = r;
        x->slice = slice;
        vecs.emplace_back(x);
        r->live++;
    }

    void create() {
        if (vecs.size() > 30) return;
        std::vector<int> v(big && vecs.size() < 2 ? (unsigned)c.pick({ 256, 32768, 65536, 70000 }) + c.range(0, 2) : 1 + c.len(40));
        if (v.size() > 100) { const int x0 = c.i32(); for (size_t i = 0; i < v.size(); i++) v[i] = x0 ^ (int)(i * 2654435761u); }
        else for (int& x : v) x = c.chance(128) ? c.range(0, 9) : c.i32();
        const guint n = (guint)v.size();
        Root* r = new Root();
        r->id = (int)roots.size();
        r->c = &c;
        r->origin = (Origin)c.range(0, ORIGINS - 1);
        r->n = n;
        roots.emplace_back(r);
        VP_LOG(c, "vector %d origin %d count %u", r->id, r->origin, n);
        GUtilInts* p = NULL;
        switch (r->origin) {
        case COPIED: {
            std::vector<int> tmp(v);
            p = gutil_ints_new(tmp.data(), n);
            std::fill(tmp.begin(), tmp.end(), 0x5a5a5a5a);
            break;
        }
        case TAKEN: p = gutil_ints_new_take((int*)g_memdup2(v.data(), n * sizeof(int)), n); break;
        case STATIC:
            r->data = (int*)g_memdup2(v.data(), n * sizeof(int));
            p = gutil_ints_new_static(r->data, n);
            break;
        case NULL_DATA:
            r->data = (int*)g_memdup2(v.data(), n * sizeof(int));
            p = gutil_ints_new_with_free_func(r->data, n, release_null, NULL);
            break;
        case WRAPPED:
            r->data = (int*)g_memdup2(v.data(), n * sizeof(int));
            p = gutil_ints_new_with_free_func(r->data, n, release, r);
            break;
        case SELF:
            r->data = (int*)g_memdup2(v.data(), n * sizeof(int));
            self_roots[r->data] = r;
            p = gutil_ints_new_with_free_func(r->data, n, release_self, r->data);
            break;
        case BLOCK: {
            /* Data in the middle of the allocated block */
            int* block = (int*)g_malloc((n + 4) * sizeof(int));
            memset(block, 0, (n + 4) * sizeof(int));
            memcpy(block + 2, v.data(), n * sizeof(int));
            p = gutil_ints_new_with_free_func(block + 2, n, g_free, block);
            break;
        }
        default: {
            GUtilIntArray* a = gutil_int_array_new_from_vals(v.data(), n);
            p = gutil_int_array_free_to_ints(a);
        }
        }
        add(p, v, r, false);
        check("new");
    }

    Vec* some() { return vecs.empty() ? NULL : vecs[c.range(0, (int)vecs.size() - 1)].get(); }

    void gone(Vec* x) {
        x->root->live--;
        for (size_t i = 0; i < vecs.size(); i++) if (vecs[i].get() == x) { vecs.erase(vecs.begin() + i); break; }
    }

    void slice() {
        Vec* x = some();
        if (!x || vecs.size() > 30) return;
        const guint size = (guint)x->v.size();
        guint off = c.chance(220) ? c.range(0, (int)size) : c.chance(128) ? (guint)c.x64() : G_MAXUINT - c.range(0, 3);
        guint n = c.chance(180) ? c.range(0, (int)size + 1) : c.chance(128) ? (guint)c.x64() : G_MAXUINT - c.range(0, 50);
        VP_LOG(c, "slice of %d: %u %u", x->root->id, off, n);
        GUtilInts* p = gutil_ints_new_from_ints(x->p, off, n);
        const guint len = off < size ? std::min(n, size - off) : 0;
        if (len) {
            Root* r = x->root;
            sliced = true;
            add(p, std::vector<int>(x->v.begin() + off, x->v.begin() + off + len), r, true);
        } else {
            VP_CHECK(c, !p, "empty slice must be NULL");
        }
        check("slice");
    }

    void unref(Vec* x) {
        VP_LOG(c, "unref vector %d refs %d%s", x->root->id, x->refs, x->slice ? " slice" : "");
        GUtilInts* p = x->p;
        if (!--x->refs) gone(x);
        gutil_ints_unref(p);
        check("unref");
    }

    void extract(Vec* x) {
        VP_LOG(c, "extract vector %d refs %d%s", x->root->id, x->refs, x->slice ? " slice" : "");
        GUtilInts* p = x->p;
        const std::vector<int> v(x->v);
        const bool last = !--x->refs;
        if (x->root->live > 1 || !last) shared_extracted = true;
        if (last) gone(x);
        guint n = 12345;
        int* d = c.coin() ? gutil_ints_unref_to_data(p, &n) : (n = (guint)v.size(), gutil_ints_unref_to_data(p, NULL));
        extracted = true;
        VP_EQ(c, n, v.size(), "extracted count");
        VP_CHECK(c, d && !memcmp(d, v.data(), n * sizeof(int)), "extracted data");
        /* It's ours now */
        memset(d, 0xa5, n * sizeof(int));
        check("unref_to_data");
        g_free(d);
        check("free");
    }

    void op() {
        switch (c.range(0, 9)) {
        case 0: case 1: create(); break;
        case 2: case 3: slice(); break;
        case 4: if (Vec* x = some()) {
            VP_CHECK(c, gutil_ints_ref(x->p) == x->p, "ref");
            x->refs++;
            check("ref");
            break;
        }
        case 5: case 6: if (Vec* x = some()) unref(x); break;
        case 7: if (Vec* x = some()) extract(x); break;
        case 8: {
            /* Nothing changes if it's added to something */
            if (Vec* x = some()) {
                guint n;
                const int* d = gutil_ints_get_data(x->p, &n);
                GUtilIntArray* a = gutil_int_array_new_from_vals(d, n);
                gutil_int_array_sort_ascending(a);
                GUtilInts* i = gutil_int_array_free_to_ints(a);
                VP_EQ(c, gutil_ints_get_count(i), n, "count");
                check("sort of a copy");
                gutil_ints_unref(i);
            }
            break;
        }
        case 9: {
            guint n = 5;
            static const int x[] = { 1 };
            VP_CHECK(c, !gutil_ints_new(x, 0) && !gutil_ints_new(NULL, 1), "new");
            VP_CHECK(c, !gutil_ints_new_static(x, 0) && !gutil_ints_new_static(NULL, 1), "new_static");
            VP_CHECK(c, !gutil_ints_new_take(NULL, 0), "new_take");
            VP_CHECK(c, !gutil_ints_new_from_ints(NULL, 0, 1), "new_from_ints");
            VP_CHECK(c, !gutil_ints_ref(NULL), "ref");
            gutil_ints_unref(NULL);
            VP_CHECK(c, !gutil_ints_unref_to_data(NULL, NULL) && !gutil_ints_unref_to_data(NULL, &n) && !n, "unref_to_data");
            n = 5;
            VP_CHECK(c, !gutil_ints_get_data(NULL, NULL) && !gutil_ints_get_data(NULL, &n) && !n, "get_data");
            VP_EQ(c, gutil_ints_get_count(NULL), 0, "count");
            break;
        }
        }
    }

    void finish() {
        while (!vecs.empty()) {
            Vec* x = some();
            if (c.coin()) extract(x); else unref(x);
        }
        check("finish");
        for (auto& r : roots) {
            if (r->origin == STATIC || r->origin == NULL_DATA) g_free(r->data);
        }
    }
};

void play(Ctx& c, bool big)
{
    World w(c, big);
    null_free_calls = 0;
    self_roots.clear();
    w.create();
    while (c.more() && c.steps++ < (big ? 20u : 150u)) w.op();
    w.finish();
    if (w.sliced) c.label("sliced");
    if (w.extracted) c.label("extracted");
    if (w.shared_extracted) c.label("extracted-while-shared");
    if (w.sliced && w.extracted) c.nontrivial();
}

void history(Ctx& c) { play(c, false); }
void large(Ctx& c) { play(c, true); }

/* Slices of (static) vectors larger than 4G, without looking into them much */
void far(Ctx& c)
{
    const guint n = c.pick({ 0xfffffff0u, 0xffffffffu, 0x80000000u, 0x80000010u, 0x40000000u, 0x40000008u }) - c.range(0, 2);
    giant::Block b(c, (size_t)n * sizeof(int));
    if (!b.ok()) return;
    int* v = (int*)b.p;
    std::vector<guint> marks;
    for (int i = 0; i < 8; i++) {
        const guint at = c.range(0, 3) ? (c.pick({ 0u, 0x3fffffffu, 0x7fffffffu, 0xfffffff0u }) + c.range(-4, 4)) % n : c.u32() % n;
        v[at] = i + 1;
        marks.push_back(at);
    }
    GUtilInts* p = gutil_ints_new_static(v, n);
    VP_EQ(c, gutil_ints_get_count(p), n, "count");
    GUtilInts* cur = p;
    guint from = 0, count = n;
    for (int k = c.range(1, 4); k > 0; k--) {
        const guint off = c.coin() ? c.range(0, 10) : c.coin() ? c.u32() % count : marks[c.range(0, 7)];
        const guint want = c.coin() ? G_MAXUINT - c.range(0, 3) : c.coin() ? c.u32() : c.range(1, 10);
        VP_LOG(c, "%u at %u out of %u", want, off, count);
        GUtilInts* s = gutil_ints_new_from_ints(cur, off, want);
        if (off >= count || !want) {
            VP_CHECK(c, !s, "empty slice must be NULL");
            continue;
        }
        from += off;
        count = std::min(want, count - off);
        VP_CHECK(c, s, "no slice");
        gutil_ints_unref(cur);
        cur = s;
        guint m = 0;
        const int* d = gutil_ints_get_data(cur, &m);
        VP_EQ(c, m, count, "count of a slice");
        VP_EQ(c, gutil_ints_get_count(cur), count, "count of a slice");
        VP_CHECK(c, !memcmp(d, v + from, std::min<guint>(count, 4) * sizeof(int)), "beginning of a slice");
        VP_CHECK(c, d[count - 1] == v[from + count - 1], "end of a slice");
        for (guint at : marks) if (at >= from && at - from < count) VP_EQ(c, d[at - from], v[at], "value in a slice");
        if (count < 100000) {
            int* x = gutil_ints_unref_to_data(gutil_ints_ref(cur), &m);
            VP_EQ(c, m, count, "extracted count");
            VP_CHECK(c, !memcmp(x, v + from, count * sizeof(int)), "extracted data");
            g_free(x);
        }
    }
    gutil_ints_unref(cur);
    c.label("gigabytes");
    c.nontrivial();
}

/* Those which are actually copied */
void giants(Ctx& c)
{
    const size_t size = giant::size(c, 2) & ~(size_t)3;
    const guint n = (guint)(size / sizeof(int));
    giant::Block b(c, size);
    if (!b.ok()) return;
    const int k = c.range(0, 2);
    for (int i = 0; i < 5; i++) b.p[giant::pos(c, size)] = c.u8() | 1;
    VP_LOG(c, "%u integers, %d", n, k);
    if (k) {
        GUtilInts* p = gutil_ints_new((int*)b.p, n);
        guint m = 0;
        const int* d = gutil_ints_get_data(p, &m);
        VP_EQ(c, m, n, "count");
        VP_CHECK(c, d && (uint8_t*)d != b.p && !memcmp(d, b.p, size), "wrong copy");
        if (k == 2) {
            /* And without copying */
            int* x = gutil_ints_unref_to_data(p, &m);
            VP_EQ(c, m, n, "extracted count");
            VP_CHECK(c, !memcmp(x, b.p, size), "extracted data");
            g_free(x);
        } else gutil_ints_unref(p);
    } else {
        GUtilInts* p = gutil_ints_new_static((int*)b.p, n);
        const guint off = c.range(0, 2);
        GUtilInts* s = gutil_ints_new_from_ints(p, off, n);
        gutil_ints_unref(p);
        guint m = 0;
        int* x = gutil_ints_unref_to_data(s, &m);
        VP_EQ(c, m, n - off, "extracted count");
        VP_CHECK(c, x && (uint8_t*)x != b.p && !memcmp(x, b.p + off * sizeof(int), m * sizeof(int)), "extracted data");
        g_free(x);
    }
    c.nontrivial();
}

void fixed_slice(Ctx& c)
{
    const int v[] = { 1, 2, 3 };
    GUtilInts* p = gutil_ints_new(v, 3);
    GUtilInts* s = gutil_ints_new_from_ints(p, 1, G_MAXUINT);
    VP_EQ(c, gutil_ints_get_count(s), 2, "count of slice(1, G_MAXUINT)");
    gutil_ints_unref(s);
    gutil_ints_unref(p);
}
void fixed_empty(Ctx& c)
{
    const int v[] = { 1, 2, 3 };
    GUtilInts* p = gutil_ints_new(v, 3);
    VP_CHECK(c, !gutil_ints_new_from_ints(p, 1, 0), "empty slice");
    gutil_ints_unref(p);
}
void fixed_static(Ctx& c)
{
    static const int v[] = { 1, 2, 3 };
    guint n;
    int* d = gutil_ints_unref_to_data(gutil_ints_new_static(v, 3), &n);
    VP_CHECK(c, d && n == 3 && !memcmp(d, v, sizeof(v)), "data");
    g_free(d);
}
void fixed_block(Ctx& c)
{
    int* block = g_new0(int, 4);
    guint n;
    int* d = gutil_ints_unref_to_data(gutil_ints_new_with_free_func(block + 1, 2, g_free, block), &n);
    VP_CHECK(c, d && n == 2, "data");
    g_free(d);
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C12";
    p.rule = "up to 150 operations (creation in all ways, slices of slices with any ranges, ref, unref, extraction of the data, "
        "scribbling over the sources and over the extracted data) on up to 30 vectors (large: vectors of up to 70000 elements; far: slices of vectors of 4 to 16 gigabytes; giants: copies of a few of those); all vectors and free function "
        "calls are compared with the model after each step; non-trivial = there was a slice and something was extracted";
    p.targets = { { "history", history, 400, 800 }, { "large", large, 1, 120 }, { "far", far, 4, 80 } };
    p.giant = { { "giants", giants, 1, 40 } };
    p.fixed = { { "slice-overflow", fixed_slice }, { "empty-slice", fixed_empty },
        { "extract-static", fixed_static }, { "extract-from-block", fixed_block } };
    p.leak_check = true;
    return p;
}
