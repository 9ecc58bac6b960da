// VP-ASSUMES: reserved sizes are not negative; free functions don't touch the ring (except when it's being cleared)
/* C05: limits and ownership of the elements of the ring buffer */
#include <algorithm>
#include "ring_model.h"
using namespace vp;

static void history(Ctx& c)
{
    RingModel m(c);
    Swarm s(c, RingModel::NOPS);
    const int reserved = (int)(c.coin() ? c.range(0, 12) : c.len(200));
    const int limit = c.chance(40) ? -1 : c.coin() ? c.range(0, 12) : (int)c.len(200);
    m.create(reserved, limit, c.chance(60) ? 0 : c.range(1, 2));
    bool freed = false, refused = false;
    while (c.more() && c.steps++ < 400) {
        const size_t before = m.m.size();
        m.op(s.op(c));
        if (m.func && m.m.size() < before) freed = true;
        if (m.full()) refused = true;
    }
    if (freed && refused) c.nontrivial();
    if (freed) c.label("freed");
    if (refused) c.label("limit-reached");
    m.finish();
}

static void large(Ctx& c)
{
    RingModel m(c);
    m.big = true;
    const int limit = c.coin() ? (int)c.huge() : -1;
    m.create(c.coin() ? 0 : (int)c.huge(), limit, c.range(0, 2));
    m.bulk();
    bool freed = false, refused = false;
    while (c.more() && c.steps++ < 24) {
        static const int ops[] = { 15, 16, 15, 12, 6, 7, 9, 10, 12, 0, 2, 13, 8, 11 };
        const size_t before = m.m.size();
        m.op(ops[c.range(0, 13)]);
        if (m.func && m.m.size() < before) freed = true;
        if (m.full()) refused = true;
        if (m.m.size() > 300000) m.clear();
    }
    if (freed && refused) c.nontrivial();
    if (m.peak > 32768) c.label("over-32768-elements");
    m.finish();
}

/* Free function which uses the ring while it's being cleared: nothing gets lost or freed twice */
struct Reentrant { Ctx* c; GUtilRing* r; std::vector<int> state; int depth, budget; };
static Reentrant* reentrant;
enum { IN_RING, FREED, TAKEN };
static void reentrant_put(Reentrant* x)
{
    const int id = (int)x->state.size();
    const gboolean can = gutil_ring_can_put(x->r, 1);
    const gboolean ok = x->c->coin() ? gutil_ring_put(x->r, GINT_TO_POINTER(id + 1)) :
        gutil_ring_put_front(x->r, GINT_TO_POINTER(id + 1));
    VP_CHECK(*x->c, !can == !ok, "put");
    if (ok) x->state.push_back(IN_RING);
}
static void reentrant_free(gpointer p)
{
    Reentrant* x = reentrant;
    Ctx& c = *x->c;
    const int id = GPOINTER_TO_INT(p) - 1;
    VP_CHECK(c, id >= 0 && id < (int)x->state.size() && x->state[id] == IN_RING, "freed %d in a wrong state", id);
    x->state[id] = FREED;
    if (x->budget <= 0) return;
    for (int k = c.range(0, 2); k > 0; k--) {
        x->budget--;
        switch (c.range(0, 3)) {
        case 0: reentrant_put(x); break;
        case 1: {
            gpointer d = c.coin() ? gutil_ring_get(x->r) : gutil_ring_get_last(x->r);
            if (d) {
                const int i = GPOINTER_TO_INT(d) - 1;
                VP_CHECK(c, x->state[i] == IN_RING, "got %d in a wrong state", i);
                x->state[i] = TAKEN;
            }
            break;
        }
        case 2: {
            const gint n = gutil_ring_size(x->r);
            VP_CHECK(c, n >= 0 && n <= (int)x->state.size(), "size");
            for (gint i = 0; i < n; i++) {
                const int e = GPOINTER_TO_INT(gutil_ring_data_at(x->r, i)) - 1;
                VP_CHECK(c, e >= 0 && x->state[e] == IN_RING, "element in a wrong state");
            }
            break;
        }
        case 3:
            if (x->depth < 2) {
                x->depth++;
                gutil_ring_clear(x->r);
                x->depth--;
            }
            break;
        }
    }
}
static void reentrant_clear(Ctx& c)
{
    Reentrant x = { &c, NULL, {}, 0, 0 };
    reentrant = &x;
    x.r = gutil_ring_new_full(c.range(0, 10), c.coin() ? -1 : c.range(1, 20), reentrant_free);
    unsigned freed_before = 0;
    while (c.more() && c.steps++ < 40) {
        switch (c.range(0, 5)) {
        default: for (int k = c.range(1, 6); k > 0; k--) reentrant_put(&x); break;
        case 4: {
            gpointer d = gutil_ring_get(x.r);
            if (d) x.state[GPOINTER_TO_INT(d) - 1] = TAKEN;
            break;
        }
        case 5: {
            x.budget = c.range(0, 12);
            VP_LOG(c, "clear with %d", gutil_ring_size(x.r));
            const std::vector<int> before(x.state);
            gutil_ring_clear(x.r);
            x.budget = 0;
            unsigned n = 0;
            for (int s : x.state) if (s == FREED) n++;
            if (n > freed_before + 1) c.nontrivial();
            freed_before = n;
            break;
        }
        }
        const gint n = gutil_ring_size(x.r);
        int expected = 0;
        for (int s : x.state) if (s == IN_RING) expected++;
        VP_EQ(c, n, expected, "number of elements");
        for (gint i = 0; i < n; i++) {
            VP_EQ(c, x.state[GPOINTER_TO_INT(gutil_ring_data_at(x.r, i)) - 1], IN_RING, "state of the element");
        }
    }
    gutil_ring_unref(x.r);
    for (int s : x.state) VP_CHECK(c, s != IN_RING, "an element is lost");
}

/* Mostly limits */
static void limits(Ctx& c)
{
    RingModel m(c);
    m.create(c.range(0, 40), c.range(-1, 20), c.range(0, 2));
    while (c.more() && c.steps++ < 100) {
        switch (c.range(0, 9)) {
        case 0: case 1: case 2: m.put(false); break;
        case 3: m.put(true); break;
        case 4: m.set_max(); break;
        case 5: m.can_put(); break;
        case 6: m.reserve(); break;
        case 7: m.drop(c.coin()); break;
        case 8: m.compact(); break;
        default: m.get(c.coin()); break;
        }
        if (m.full() && m.max > 0) c.nontrivial();
    }
    m.finish();
}

static void null_ring(Ctx& c)
{
    gint size = 5;
    VP_CHECK(c, !gutil_ring_ref(NULL), "ref");
    gutil_ring_unref(NULL);
    gutil_ring_set_free_func(NULL, g_free);
    gutil_ring_clear(NULL);
    gutil_ring_compact(NULL);
    gutil_ring_set_max_size(NULL, 1);
    VP_EQ(c, gutil_ring_max_size(NULL), 0, "max size");
    VP_EQ(c, gutil_ring_size(NULL), 0, "size");
    VP_CHECK(c, !gutil_ring_reserve(NULL, 1), "reserve");
    VP_CHECK(c, !gutil_ring_can_put(NULL, 1), "can_put");
    VP_CHECK(c, !gutil_ring_put(NULL, &size) && !gutil_ring_put_front(NULL, &size), "put");
    VP_CHECK(c, !gutil_ring_get(NULL) && !gutil_ring_get_last(NULL), "get");
    VP_CHECK(c, !gutil_ring_drop(NULL, 2) && !gutil_ring_drop_last(NULL, 2), "drop");
    VP_CHECK(c, !gutil_ring_data_at(NULL, 0), "data_at");
    VP_CHECK(c, !gutil_ring_flatten(NULL, NULL) && !gutil_ring_flatten(NULL, &size) && !size, "flatten");
}

static void fixed_put(Ctx& c)
{
    /* More is reserved than allowed */
    RingModel m(c);
    m.create(10, 3, 1);
    for (int i = 0; i < 5; i++) m.put(i & 1);
    m.finish();
    RingModel m2(c);
    m2.create(10, -1, 1);
    for (int i = 0; i < 5; i++) m2.put(false);
    m2.max = 3;
    while (m2.m.size() > 3) { m2.released(m2.m.front()); m2.m.pop_front(); }
    gutil_ring_set_max_size(m2.r, 3);
    m2.after("set_max_size");
    m2.put(false);
    m2.finish();
}

static void fixed_reserve(Ctx& c)
{
    RingModel m(c);
    m.create(0, 5, 0);
    VP_CHECK(c, !gutil_ring_reserve(m.r, 6), "reserve above the limit");
    VP_CHECK(c, gutil_ring_reserve(m.r, 5), "reserve up to the limit");
    m.finish();
}

static void fixed_can_put(Ctx& c)
{
    RingModel m(c);
    m.create(0, 5, 0);
    m.put(false);
    VP_CHECK(c, !gutil_ring_can_put(m.r, G_MAXINT), "can_put overflow");
    m.finish();
}

Property vp::property()
{
    Property p = {};
    p.id = "C05";
    p.rule = "histories of up to 400 operations on rings with generated reserved size, limit and free function (replaced "
        "on the way), up to 300000 elements; clearing with a free function which puts, takes or clears (conservation of elements); refusals, sizes and the exact list of free calls are compared with the model after each step; "
        "non-trivial = the limit was reached (and, in general histories, elements were freed)";
    p.targets = { { "history", history, 1200, 1500 }, { "limits", limits, 400, 500 },
        { "large", large, 1, 120 }, { "reentrant_clear", reentrant_clear, 200, 300 } };
    p.fixed = { { "put-above-limit", fixed_put }, { "reserve-above-limit", fixed_reserve },
        { "can-put-overflow", fixed_can_put }, { "null", null_ring } };
    p.leak_check = true;
    return p;
}
