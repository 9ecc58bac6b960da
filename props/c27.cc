// VP-ASSUMES: handler and source ids passed to the helpers are zero or valid, as GLib requires
/* C27: signal, source, object and pointer helpers */
#include "vp.h"
#include "giant.h"
#include <glib-object.h>
#include <gutil_misc.h>
#include <stdlib.h>
using namespace vp;

namespace {

guint the_signal;

void init() {
    the_signal = g_signal_new("vp-test", G_TYPE_OBJECT, G_SIGNAL_RUN_LAST, 0, NULL, NULL, NULL, G_TYPE_NONE, 0);
}

/*==========================================================================*
 * Signals
 *==========================================================================*/

struct Handlers {
    struct H {
        Handlers* all;
        int index;
        gulong id;
        unsigned calls;
        bool destroyed;
    };
    Ctx& c;
    GObject* o[2];
    std::vector<H*> h[2];
    /* What the handlers do when they are called */
    int trigger;
    std::vector<gulong>* list;
    int count;
    bool fired;

    Handlers(Ctx& ctx) : c(ctx), trigger(-1), list(NULL), count(0), fired(false) {
        o[0] = (GObject*)g_object_new(G_TYPE_OBJECT, NULL);
        o[1] = (GObject*)g_object_new(G_TYPE_OBJECT, NULL);
    }
    static void cb(GObject* obj, gpointer data) {
        H* h = (H*)data;
        Handlers* a = h->all;
        h->calls++;
        if (obj == a->o[0] && h->index == a->trigger && !a->fired) {
            a->fired = true;
            gutil_disconnect_handlers(a->o[0], a->list->data(), a->count);
        }
    }
    static void gone(gpointer data, GClosure*) { ((H*)data)->destroyed = true; }
    void connect(int k) {
        H* x = new H { this, (int)h[k].size(), 0, 0, false };
        x->id = g_signal_connect_data(o[k], "vp-test", G_CALLBACK(cb), x, gone, (GConnectFlags)0);
        h[k].push_back(x);
    }
};

void signals(Ctx& c)
{
    Handlers w(c);
    for (int k = 0; k < 2; k++) for (int n = c.range(k ? 1 : 0, 8); n > 0; n--) w.connect(k);
    std::vector<bool> connected(w.h[0].size(), true);
    bool some = false, zeros = false;
    for (int round = 0; round < 4 && (c.more() || !round); round++) {
        /* The list: some of the connected handlers in any order, with zeros in between */
        std::vector<gulong> ids;
        std::vector<int> idx;
        for (size_t i = 0; i < w.h[0].size(); i++) if (connected[i] && c.coin()) {
            const int pos = c.range(0, (int)ids.size());
            ids.insert(ids.begin() + pos, w.h[0][i]->id);
            idx.insert(idx.begin() + pos, (int)i);
        }
        for (int n = c.pick({0, 0, 1, 2, 3}); n > 0; n--) {
            const int pos = c.range(0, (int)ids.size());
            ids.insert(ids.begin() + pos, 0);
            idx.insert(idx.begin() + pos, -1);
            zeros = true;
        }
        int count = (int)ids.size();
        if (count && c.chance(80)) count = c.range(0, count);
        if (c.chance(20)) count = c.pick({-1, -2, G_MININT});
        const int how = c.range(0, 5);
        std::vector<gulong> list(ids);
        std::vector<bool> before(connected);
        VP_LOG(c, "%d ids, count %d, %s", (int)ids.size(), count, how == 0 ? "NULL object" : how == 1 ? "NULL list" : how == 2 ? "from a handler" : "");
        w.fired = false;
        w.trigger = -1;
        bool applied = false;
        for (auto& v : w.h) for (auto x : v) x->calls = 0;
        if (how == 0) {
            gutil_disconnect_handlers(NULL, list.data(), count);
        } else if (how == 1) {
            gutil_disconnect_handlers(w.o[0], NULL, count);
        } else if (how == 2) {
            std::vector<int> live;
            for (size_t i = 0; i < connected.size(); i++) if (connected[i]) live.push_back((int)i);
            if (live.size()) {
                w.trigger = c.pickv(live);
                w.list = &list;
                w.count = count;
                g_signal_emit(w.o[0], the_signal, 0);
                VP_CHECK(c, w.fired, "handler wasn't called");
                applied = true;
            }
        } else {
            gutil_disconnect_handlers(w.o[0], list.data(), count);
            applied = true;
        }
        for (int i = 0; i < (int)ids.size(); i++) {
            if (applied && i < count) {
                VP_CHECK(c, !list[i], "id %d isn't zeroed", i);
                if (idx[i] >= 0) { connected[idx[i]] = false; some = true; }
            } else {
                VP_CHECK(c, list[i] == ids[i], "id %d changed", i);
            }
        }
        if (how == 2 && w.fired) {
            /* The handlers before the trigger and itself were called, the later ones only if still connected */
            for (int i = 0; i < (int)connected.size(); i++) {
                VP_EQ(c, w.h[0][i]->calls, i <= w.trigger ? before[i] : connected[i], "number of calls in the middle of emission");
                w.h[0][i]->calls = 0;
            }
            w.trigger = -1;
        }
        if (c.coin()) w.connect(0), connected.push_back(true);
        for (int k = 0; k < 2; k++) g_signal_emit(w.o[k], the_signal, 0);
        for (size_t i = 0; i < connected.size(); i++) {
            VP_EQ(c, w.h[0][i]->calls, connected[i], "number of calls");
            VP_CHECK(c, w.h[0][i]->destroyed == !connected[i], "handler %d is %sdestroyed", (int)i, connected[i] ? "" : "not ");
            VP_CHECK(c, g_signal_handler_is_connected(w.o[0], w.h[0][i]->id) == connected[i], "handler %d", (int)i);
        }
        for (auto x : w.h[1]) VP_EQ(c, x->calls, 1, "number of calls of the other object's handler");
    }
    VP_CHECK(c, w.o[0]->ref_count == 1 && w.o[1]->ref_count == 1, "reference count of the object");
    g_object_unref(w.o[0]);
    g_object_unref(w.o[1]);
    for (auto& v : w.h) for (auto x : v) {
        VP_CHECK(c, x->destroyed, "handler is still there");
        delete x;
    }
    if (some) c.nontrivial();
    if (some && zeros) c.label("with zero ids");
}

/*==========================================================================*
 * Sources
 *==========================================================================*/

struct Src { guint id; guint stored; unsigned calls; bool destroyed; bool once; };

gboolean src_cb(gpointer data) {
    Src* s = (Src*)data;
    s->calls++;
    if (s->once) {
        s->once = false;
        s->stored = 0;
        return G_SOURCE_REMOVE;
    }
    return G_SOURCE_CONTINUE;
}
void src_gone(gpointer data) { ((Src*)data)->destroyed = true; }

void sources(Ctx& c)
{
    enum { MAX = 12 };
    std::vector<Src*> v;
    bool removed = false;
    while (c.more() && c.steps++ < 40) {
        std::vector<Src*> live;
        for (auto s : v) if (!s->destroyed) live.push_back(s);
        switch (c.range(0, 5)) {
        default: {
            if (v.size() >= MAX) break;
            Src* s = new Src();
            s->once = c.chance(40);
            const int prio = c.pick({G_PRIORITY_DEFAULT_IDLE, G_PRIORITY_DEFAULT, G_PRIORITY_HIGH});
            s->id = s->stored = g_idle_add_full(prio, src_cb, s, src_gone);
            VP_LOG(c, "add #%d%s", (int)v.size(), s->once ? " once" : "");
            v.push_back(s);
            break;
        }
        case 2:
            if (live.size() && !c.chance(40)) {
                Src* s = c.pickv(live);
                VP_LOG(c, "remove id %u", s->id);
                VP_EQ(c, gutil_source_remove(s->id), TRUE, "source_remove");
                VP_CHECK(c, s->destroyed, "the source isn't removed");
                removed = true;
            } else {
                VP_EQ(c, gutil_source_remove(0), FALSE, "source_remove(0)");
            }
            break;
        case 3: {
            if (v.empty()) break;
            /* Either live or already cleared one */
            Src* s = c.pickv(v);
            if (s->destroyed) s->stored = 0;
            VP_LOG(c, "clear %u", s->stored);
            const bool was = s->stored != 0;
            VP_EQ(c, gutil_source_clear(&s->stored), was, "source_clear");
            VP_EQ(c, s->stored, 0, "stored id");
            VP_CHECK(c, s->destroyed, "the source isn't removed");
            VP_EQ(c, gutil_source_clear(&s->stored), FALSE, "source_clear again");
            if (was) removed = true;
            break;
        }
        case 4: {
            guint zero = 0;
            VP_EQ(c, gutil_source_clear(NULL), FALSE, "source_clear(NULL)");
            VP_EQ(c, gutil_source_clear(&zero), FALSE, "source_clear of zero");
            VP_EQ(c, zero, 0, "zero id");
            break;
        }
        case 5: {
            /* Everyone of the most important ones gets called */
            std::vector<unsigned> calls;
            for (auto s : v) calls.push_back(s->calls);
            std::vector<bool> dead;
            for (auto s : v) dead.push_back(s->destroyed);
            g_main_context_iteration(NULL, FALSE);
            for (size_t i = 0; i < v.size(); i++) if (dead[i]) VP_EQ(c, v[i]->calls, calls[i], "calls of a removed source");
            break;
        }
        }
        for (size_t i = 0; i < v.size(); i++) {
            VP_CHECK(c, (g_main_context_find_source_by_id(NULL, v[i]->id) != NULL) == !v[i]->destroyed, "source #%d", (int)i);
        }
        for (auto s : live) {
            /* Only the one we were removing could have gone (checked above), or the one which has run */
            if (s->destroyed && s->stored) s->stored = 0;
        }
    }
    for (auto s : v) if (!s->destroyed) VP_EQ(c, gutil_source_remove(s->id), TRUE, "source_remove");
    for (auto s : v) { VP_CHECK(c, s->destroyed, "not removed"); delete s; }
    VP_CHECK(c, !g_main_context_pending(NULL), "something is left in the main context");
    if (removed && v.size() > 1) c.nontrivial();
}

/* Removing one source never affects another one */
void one_of_many(Ctx& c)
{
    const int n = c.range(1, 10);
    std::vector<Src> v(n);
    for (auto& s : v) { s = Src(); s.id = s.stored = g_timeout_add_full(G_PRIORITY_DEFAULT, c.coin() ? 0 : 100000, src_cb, &s, src_gone); }
    std::vector<bool> dead(n, false);
    for (int k = 0; k < n; k++) {
        const int i = c.range(0, n - 1);
        if (dead[i]) continue;
        const bool clear = c.coin();
        VP_LOG(c, "%s #%d", clear ? "clear" : "remove", i);
        if (clear) VP_EQ(c, gutil_source_clear(&v[i].stored), TRUE, "clear");
        else VP_EQ(c, gutil_source_remove(v[i].id), TRUE, "remove");
        dead[i] = true;
        for (int j = 0; j < n; j++) {
            VP_CHECK(c, v[j].destroyed == dead[j], "source #%d is%s there", j, dead[j] ? " still" : "n't");
            if (j != i && !dead[j]) VP_CHECK(c, v[j].stored == v[j].id, "stored id changed");
        }
    }
    for (int i = 0; i < n; i++) if (!dead[i]) gutil_source_clear(&v[i].stored);
    if (n > 1) c.nontrivial();
}

/*==========================================================================*
 * Objects and pointers
 *==========================================================================*/

void obj_gone(gpointer data, GObject*) { (*(int*)data)++; }

void objects(Ctx& c)
{
    int gone = 0;
    int refs = 1;
    /* Floating reference is just a reference, these functions don't sink it */
    const bool floating = c.chance(80);
    GObject* o = (GObject*)g_object_new(floating ? G_TYPE_INITIALLY_UNOWNED : G_TYPE_OBJECT, NULL);
    g_object_weak_ref(o, obj_gone, &gone);
    while (refs > 0 && c.steps++ < 60) {
        if (c.more() && c.coin()) {
            VP_CHECK(c, gutil_object_ref(o) == o, "object_ref");
            refs++;
        } else {
            gutil_object_unref(o);
            refs--;
        }
        VP_CHECK(c, !gutil_object_ref(NULL), "object_ref(NULL)");
        gutil_object_unref(NULL);
        VP_EQ(c, gone, !refs, "number of finalizations");
        if (refs) {
            VP_EQ(c, o->ref_count, refs, "reference count");
            VP_EQ(c, !!g_object_is_floating(o), floating, "floating");
        }
    }
    while (refs-- > 0) gutil_object_unref(o);
    VP_EQ(c, gone, 1, "number of finalizations");
    if (c.steps > 3) c.nontrivial();
}

/* Lots of everything */
void large(Ctx& c)
{
    const unsigned n = c.huge();
    VP_LOG(c, "%u", n);
    if (c.coin()) {
        void** v = g_new(void*, n + 1);
        for (unsigned i = 0; i < n; i++) v[i] = g_malloc(1);
        v[n] = NULL;
        VP_EQ(c, gutil_ptrv_length(v), n, "ptrv_length");
        VP_EQ(c, !!gutil_ptrv_is_empty(v), !n, "ptrv_is_empty");
        gutil_ptrv_free(v);     /* Allocations must balance */
        std::string s(n, 'x');
        for (unsigned k = 0; k < 8 && n; k++) s[c.range(0, n - 1)] = (char)c.range(1, 255);
        if (n) s[n - 1] = (char)c.range(1, 255);
        VP_EQ(c, gutil_strlen0(s.c_str()), n, "strlen0");
        char* d = (char*)gutil_memdup(s.data(), n);
        VP_CHECK(c, (!n && !d) || !memcmp(d, s.data(), n), "wrong copy");
        g_free(d);
    } else {
        /* Disconnection takes linear time */
        const unsigned m = n % 5000;
        GObject* o = (GObject*)g_object_new(G_TYPE_OBJECT, NULL);
        std::vector<gulong> ids(m, 0);
        std::vector<unsigned> calls(m, 0);
        unsigned connected = 0;
        for (unsigned i = 0; i < m; i++) if (c.more() ? c.chance(128) : (i * 2654435761u >> 16) & 1) {
            ids[i] = g_signal_connect_swapped(o, "vp-test", G_CALLBACK(+[](unsigned* x) { (*x)++; }), &calls[i]);
            connected++;
        }
        const std::vector<gulong> was(ids);
        const unsigned count = c.coin() ? m : c.range(0, m);
        gutil_disconnect_handlers(o, ids.data(), count);
        g_signal_emit(o, the_signal, 0);
        for (unsigned i = 0; i < m; i++) {
            VP_EQ(c, calls[i], i >= count && was[i], "number of calls");
            VP_EQ(c, ids[i], i < count ? 0 : was[i], "handler id");
        }
        g_object_unref(o);
    }
    if (n > 2) c.nontrivial();
}

void pointers(Ctx& c)
{
    /* Pointer vector */
    const int n = c.len(40);
    void** v = g_new(void*, n + 1);
    std::vector<void*> m;
    for (int i = 0; i < n; i++) {
        const unsigned k = c.range(1, 20);
        v[i] = memset(g_malloc(k), i, k);
        m.push_back(v[i]);
    }
    v[n] = NULL;
    VP_EQ(c, gutil_ptrv_length(v), n, "ptrv_length");
    VP_EQ(c, !!gutil_ptrv_is_empty(v), !n, "ptrv_is_empty");
    for (int i = 0; i < n; i++) VP_CHECK(c, v[i] == m[i], "vector modified");
    VP_CHECK(c, !v[n], "terminator modified");
    if (n) {
        const int from = c.range(0, n);
        VP_EQ(c, gutil_ptrv_length(v + from), n - from, "ptrv_length of a tail");
        VP_EQ(c, !!gutil_ptrv_is_empty(v + from), from == n, "ptrv_is_empty of a tail");
    }
    gutil_ptrv_free(v);     /* Allocations must balance */
    gutil_ptrv_free(NULL);
    VP_CHECK(c, !gutil_ptrv_length(NULL) && gutil_ptrv_is_empty(NULL), "NULL vector");
    /* Memory */
    const std::string s = c.bytes(c.len(c.chance(20) ? 5000 : 100));
    char* p = (char*)malloc(s.size() ? s.size() : 1);
    memcpy(p, s.data(), s.size());
    char* d = (char*)gutil_memdup(p, s.size());
    VP_CHECK(c, !memcmp(p, s.data(), s.size()), "source modified");
    if (s.size()) {
        VP_CHECK(c, d && d != p && !memcmp(d, s.data(), s.size()), "wrong copy");
        memset(p, 0x5a, s.size());
        VP_CHECK(c, !memcmp(d, s.data(), s.size()), "the copy isn't independent");
        memset(d, 1, s.size());
    } else {
        VP_CHECK(c, !d, "copy of nothing");
    }
    VP_CHECK(c, !gutil_memdup(NULL, c.coin() ? s.size() : 0) && !gutil_memdup(p, 0), "copy of NULL or nothing");
    free(p);
    g_free(d);
    /* String */
    const std::string str = c.str(c.len(200), NULL);
    p = (char*)malloc(str.size() + 1);
    memcpy(p, str.c_str(), str.size() + 1);
    VP_EQ(c, gutil_strlen0(p), str.size(), "strlen0");
    VP_EQ(c, gutil_strlen0(NULL), 0, "strlen0(NULL)");
    free(p);
    VP_LOG(c, "%d pointers, %d bytes, string of %d", n, (int)s.size(), (int)str.size());
    if (n > 1 || s.size() > 1) c.nontrivial();
}

/* Gigabytes */
void giants(Ctx& c)
{
    const size_t n = giant::size(c);
    giant::Block a(c, n);
    if (!a.ok()) return;
    VP_LOG(c, "%zu bytes", n);
    if (c.chance(70)) {
        const size_t len = giant::pos(c, n);
        memset(a.p, 'x', n);
        a.p[len] = 0;
        VP_EQ(c, gutil_strlen0((char*)a.p), len, "strlen0");
    } else {
        for (int i = 0; i < 5; i++) a.p[giant::pos(c, n)] = c.u8() | 1;
        void* copy = gutil_memdup(a.p, n);
        VP_CHECK(c, copy && copy != a.p && !memcmp(copy, a.p, n), "wrong copy");
        g_free(copy);
    }
    c.nontrivial();
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C27";
    p.rule = "lists of up to 10 handler ids in any order mixed with zeros, shorter and negative counts, also disconnected in the middle "
        "of emission; histories of adding, removing and clearing sources; object references; pointer vectors, memory blocks "
        "and strings, a few of 2 to 4 gigabytes; non-trivial = something disconnected, removed with other sources around, 3+ reference operations, "
        "2+ pointers or bytes";
    p.targets = { { "signals", signals, 3000, 120 }, { "sources", sources, 2000, 160 }, { "one_of_many", one_of_many, 1000, 40 },
        { "objects", objects, 1000, 60 }, { "pointers", pointers, 2000, 300 }, { "large", large, 8, 64 } };
    p.giant = { { "giants", giants, 1, 40 } };
    p.init = init;
    p.leak_check = true;
    return p;
}
