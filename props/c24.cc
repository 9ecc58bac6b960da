// VP-CONFIGS: dbg rel plain
/* C24: shared weak references */
#include "vp.h"
#include <gutil_weakref.h>
#include <glib-object.h>
#include <atomic>
#include <mutex>
#include <sched.h>
#include <stdlib.h>
using namespace vp;

namespace {

/*==========================================================================*
 * The object
 *==========================================================================*/

enum { ALIVE = 0x600df00d, DEAD = 0xdeadbeef };
struct Obj { GObject parent; unsigned magic; int id; };
struct ObjClass { GObjectClass parent; };

std::atomic<int> finalized[64];
std::atomic<bool> twice;
void (*on_dispose)(Obj*);
GObjectClass* parent_class;

void obj_dispose(GObject* o) {
    if (on_dispose) on_dispose((Obj*)o);
    parent_class->dispose(o);
}
void obj_finalize(GObject* o) {
    Obj* x = (Obj*)o;
    if (x->magic != ALIVE) twice = true;
    x->magic = DEAD;
    finalized[x->id]++;
    parent_class->finalize(o);
}
void obj_class_init(gpointer klass, gpointer) {
    parent_class = (GObjectClass*)g_type_class_peek_parent(klass);
    ((GObjectClass*)klass)->dispose = obj_dispose;
    ((GObjectClass*)klass)->finalize = obj_finalize;
}
GType type;
void init() {
    if (!type) {
        type = g_type_register_static_simple(G_TYPE_OBJECT, "VpObj", sizeof(ObjClass), obj_class_init, sizeof(Obj), NULL, (GTypeFlags)0);
        g_type_class_ref(type);
    }
}
Obj* obj_new(int id) {
    Obj* o = (Obj*)g_object_new(type, NULL);
    o->magic = ALIVE;
    o->id = id;
    finalized[id] = 0;
    return o;
}

/*==========================================================================*
 * One thread
 *==========================================================================*/

struct World {
    Ctx& c;
    struct O { Obj* o; int refs; };
    struct W { GUtilWeakRef* w; int refs; int target; };    /* target = -1 for nothing */
    std::vector<O> o;
    std::vector<W> w;
    unsigned expired, hits;
    int dying;
    World(Ctx& ctx) : c(ctx), expired(0), hits(0), dying(-1) {}

    /*
     * GLib isn't instrumented, it may touch the memory of a reference which
     * is gone. Without the address sanitizer that memory is reused at once.
     */
    std::vector<unsigned char*> guards;
    enum { GUARD_SIZE = 16, GUARD_MAX = 64 };
    void guard() {
        for (int i = 0; i < 4 && guards.size() < GUARD_MAX; i++) {
            unsigned char* g = (unsigned char*)malloc(GUARD_SIZE);
            memset(g, 0x5a, GUARD_SIZE);
            guards.push_back(g);
        }
    }
    void check_guards() {
        for (auto* g : guards) for (int i = 0; i < GUARD_SIZE; i++)
            VP_CHECK(c, g[i] == 0x5a, "memory of a reference which is gone has been modified");
    }
    ~World() { for (auto* g : guards) free(g); }

    int pick_obj() {
        std::vector<int> l;
        for (size_t i = 0; i < o.size(); i++) if (o[i].refs) l.push_back((int)i);
        return l.empty() ? -1 : c.pickv(l);
    }
    int pick_ref() {
        std::vector<int> l;
        for (size_t i = 0; i < w.size(); i++) if (w[i].refs) l.push_back((int)i);
        return l.empty() ? -1 : c.pickv(l);
    }
    void check(int i) {
        W& x = w[i];
        gpointer p = gutil_weakref_get(x.w);
        if (x.target < 0) {
            VP_CHECK(c, !p, "reference %d returns something, not NULL", i);
        } else {
            O& y = o[x.target];
            VP_CHECK(c, p == y.o, "reference %d doesn't return object %d", i, x.target);
            VP_EQ(c, y.o->parent.ref_count, y.refs + 1, "reference count of the object");
            g_object_unref(p);
            VP_EQ(c, y.o->parent.ref_count, y.refs, "reference count of the object");
            hits++;
        }
    }
    void check_all() {
        for (size_t i = 0; i < w.size(); i++) if (w[i].refs) check((int)i);
        for (size_t i = 0; i < o.size(); i++) {
            if (o[i].refs) VP_EQ(c, o[i].o->parent.ref_count, o[i].refs, "reference count of the object");
            VP_EQ(c, finalized[i].load(), !o[i].refs, "number of finalizations");
        }
    }
    void drop(int i) {
        VP_LOG(c, "object %d unref (%d)", i, o[i].refs - 1);
        if (!--o[i].refs) {
            for (auto& x : w) if (x.target == i) { x.target = -1; if (x.refs) expired++; }
            dying = i;
        }
        g_object_unref(o[i].o);
        dying = -1;
    }
};
World* world;

/* What's still possible when the object is being disposed */
void disposing(Obj* x)
{
    World* w = world;
    if (!w) return;
    for (size_t i = 0; i < w->w.size(); i++) {
        /* The one being disposed may still be there or not, depends on GLib. Others must be all right */
        if (w->w[i].refs && w->w[i].target != -1) w->check((int)i);
    }
    (void)x;
}

void history(Ctx& c)
{
    World w(c);
    world = &w;
    twice = false;
    for (auto& x : finalized) x = 0;
    on_dispose = disposing;
    Swarm s(c, 12);
    while (c.more() && c.steps++ < 60) {
        switch (s.op(c)) {
        case 0: case 1:
            if (w.o.size() < 20) { w.o.push_back({ obj_new((int)w.o.size()), 1 }); VP_LOG(c, "object %d", (int)w.o.size() - 1); }
            break;
        case 2: case 3: case 4: {
            if (w.w.size() >= 20) break;
            const int t = c.chance(200) ? w.pick_obj() : -1;
            VP_LOG(c, "reference %d to %d", (int)w.w.size(), t);
            GUtilWeakRef* r = gutil_weakref_new(t < 0 ? NULL : w.o[t].o);
            VP_CHECK(c, r != NULL, "no reference");
            w.w.push_back({ r, 1, t });
            break;
        }
        case 5: case 6: { const int i = w.pick_obj(); if (i >= 0) w.drop(i); break; }
        case 7: { const int i = w.pick_obj(); if (i >= 0) { VP_LOG(c, "object %d ref", i); g_object_ref(w.o[i].o); w.o[i].refs++; } break; }
        case 8: { const int i = w.pick_ref(); if (i >= 0) {
            VP_LOG(c, "reference %d ref", i);
            VP_CHECK(c, gutil_weakref_ref(w.w[i].w) == w.w[i].w, "ref");
            w.w[i].refs++;
        } break; }
        case 9: { const int i = w.pick_ref(); if (i >= 0) {
            VP_LOG(c, "reference %d unref", i);
            w.w[i].refs--;
            gutil_weakref_unref(w.w[i].w);
            if (!w.w[i].refs) w.guard();
        } break; }
        case 10: { const int i = w.pick_ref(); if (i >= 0) {
            const int t = c.chance(200) ? w.pick_obj() : -1;
            VP_LOG(c, "reference %d set to %d", i, t);
            w.w[i].target = t;
            gutil_weakref_set(w.w[i].w, t < 0 ? NULL : w.o[t].o);
        } break; }
        case 11: { const int i = w.pick_ref(); if (i >= 0 && w.w[i].target >= 0) {
            /* The object returned by get is ours */
            VP_LOG(c, "reference %d get", i);
            VP_CHECK(c, gutil_weakref_get(w.w[i].w) == w.o[w.w[i].target].o, "get");
            w.o[w.w[i].target].refs++;
        }
            gutil_weakref_unref(NULL);
            gutil_weakref_set(NULL, NULL);
            VP_CHECK(c, !gutil_weakref_ref(NULL) && !gutil_weakref_get(NULL), "NULL reference");
            break; }
        }
        w.check_all();
    }
    /* In random order */
    for (;;) {
        const int i = w.pick_obj(), k = w.pick_ref();
        if (i < 0 && k < 0) break;
        if (k < 0 || (i >= 0 && c.coin())) w.drop(i);
        else { w.w[k].refs--; gutil_weakref_unref(w.w[k].w); }
    }
    w.check_all();
    VP_CHECK(c, !twice, "finalized twice");
    w.check_guards();
    on_dispose = NULL;
    world = NULL;
    if (w.hits > 1 && w.expired) c.nontrivial();
}

/*==========================================================================*
 * Several threads
 *==========================================================================*/

enum Op { GET, GET_HOLD, DROP, RETARGET, CLEAR, SHARE, UNSHARE, YIELD };
struct Team;
struct Worker {
    Team* t;
    int id;
    std::vector<uint8_t> script;
    Obj* own;               /* Has a reference to */
    const char* error;
};
struct Team {
    GUtilWeakRef* ref;
    bool fixed_target;      /* Nobody changes the target */
    bool keep;              /* Threads keep their references until the end */
    std::atomic<int> ready;
    std::atomic<bool> go;
    std::vector<Worker> w;
};

gpointer thread_proc(gpointer arg)
{
    Worker* w = (Worker*)arg;
    Team* t = w->t;
    Obj* held = NULL;
    int shares = 1;
    t->ready++;
    while (!t->go) sched_yield();
    for (uint8_t op : w->script) {
        switch (op) {
        case GET: case GET_HOLD: {
            Obj* o = (Obj*)gutil_weakref_get(t->ref);
            if (o) {
                if (o->magic != ALIVE) { w->error = "got a dead object"; return NULL; }
                if (t->fixed_target && o != t->w[0].own && w->own != o && t->keep) { w->error = "got a wrong object"; return NULL; }
                if (op == GET_HOLD && !held) held = o;
                else g_object_unref(o);
            } else if (t->fixed_target && t->keep) {
                w->error = "the object is alive but can't be reached";
                return NULL;
            }
            break;
        }
        case DROP:
            if (held) { g_object_unref(held); held = NULL; }
            else if (w->own && !t->keep) { g_object_unref(w->own); w->own = NULL; }
            break;
        case RETARGET: if (w->own && !t->fixed_target) gutil_weakref_set(t->ref, w->own); break;
        case CLEAR: if (!t->fixed_target) gutil_weakref_set(t->ref, NULL); break;
        case SHARE: gutil_weakref_ref(t->ref); shares++; break;
        case UNSHARE: if (shares > 1) { shares--; gutil_weakref_unref(t->ref); } break;
        case YIELD: sched_yield(); break;
        }
    }
    if (held) g_object_unref(held);
    while (shares-- > 1) gutil_weakref_unref(t->ref);
    return NULL;
}

void threads(Ctx& c)
{
    Team t;
    const int n = c.range(2, 4);
    const bool same = c.coin();
    unsigned gets = 0;
    twice = false;
    on_dispose = NULL;
    t.ready = 0;
    t.go = false;
    t.fixed_target = same;
    t.keep = c.coin();
    t.w.resize(n);
    Obj* first = obj_new(0);
    for (int i = 0; i < n; i++) {
        Worker& w = t.w[i];
        w.t = &t;
        w.id = i;
        w.error = NULL;
        w.own = !i ? first : same ? (Obj*)g_object_ref(first) : obj_new(i);
        for (int k = c.range(1, 12); k > 0; k--) {
            w.script.push_back(c.pick<uint8_t>({GET, GET_HOLD, DROP, RETARGET, CLEAR, SHARE, UNSHARE, YIELD, GET, RETARGET}));
            gets += w.script.back() <= GET_HOLD;
        }
        VP_LOG(c, "thread %d: %d operations", i, (int)w.script.size());
    }
    VP_LOG(c, "%s, references %s", same ? "one target" : "own targets", t.keep ? "kept" : "dropped");
    t.ref = gutil_weakref_new(first);
    std::vector<GThread*> th;
    for (auto& w : t.w) { gutil_weakref_ref(t.ref); th.push_back(g_thread_new("w", thread_proc, &w)); }
    while (t.ready < n) sched_yield();
    t.go = true;
    for (auto* x : th) g_thread_join(x);
    for (auto& w : t.w) gutil_weakref_unref(t.ref);
    for (auto& w : t.w) VP_CHECK(c, !w.error, "thread %d: %s", w.id, w.error);
    for (auto& w : t.w) if (w.own) g_object_unref(w.own);
    for (int i = 0; i < (same ? 1 : n); i++) VP_EQ(c, finalized[i].load(), 1, "number of finalizations");
    VP_CHECK(c, !twice, "finalized twice");
    VP_CHECK(c, !gutil_weakref_get(t.ref), "the object is gone but still referenced");
    gutil_weakref_unref(t.ref);
    if (gets > 2) c.nontrivial();
    c.label("threads");
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C24";
    p.rule = "history: creating, referencing and releasing objects and weak references, retargeting, all of them are checked after each step; "
        "threads: 2..4 threads getting, holding, retargeting and sharing one weak reference; non-trivial = 2+ objects were returned and a "
        "reference has expired, or 3+ gets";
    p.targets = { { "history", history, 8, 200 }, { "threads", threads, 1, 80 } };
    p.init = init;
    p.leak_check = true;
    p.attempts = 20;
    return p;
}
