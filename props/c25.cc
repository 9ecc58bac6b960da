// VP-CONFIGS: dbg rel tsan
// VP-TSAN: ignore_noninstrumented_modules=1
// VP-ASSUMES: the contents of the objects isn't modified by the threads (only the reference counting is thread-safe); GLib itself is not instrumented, so objects counted by GLib (int arrays, notifiers, watches, targets of weak references) are only checked for memory errors and their number of destructions
/* C25: thread-safe reference counting */
#include "vp.h"
#include <gutil_history.h>
#include <gutil_idlepool.h>
#include <gutil_idlequeue.h>
#include <gutil_inotify.h>
#include <gutil_intarray.h>
#include <gutil_ints.h>
#include <gutil_ring.h>
#include <gutil_timenotify.h>
#include <gutil_weakref.h>
#include <glib-object.h>
#include <atomic>
#include <mutex>
#include <sched.h>
#include <sys/inotify.h>
using namespace vp;

namespace {

enum { MAX_THREADS = 4, MAX_ITEMS = 4, MAX_DATA = 8 };

/* What the threads have done, not synchronized by itself */
struct Done { unsigned uses; };

struct Case;
Case* cur;

enum Op { REF, UNREF, USE, YIELD, SLICE, NOPS };

struct Worker {
    Case* k;
    int id;
    std::vector<uint8_t> script;
    int extra;              /* Initial references, at least 1 */
    bool to_data;           /* Final unref of ints */
    Done done;              /* Written by the thread, read by the destructor */
    std::string error;
};

struct Case {
    Ctx& c;
    int kind;
    gpointer obj;
    std::vector<Worker> w;
    std::atomic<int> ready;
    std::atomic<bool> go;
    std::atomic<int> destroyed;     /* Destructor calls */
    std::atomic<bool> bad;          /* Something's wrong in the destructor */
    std::atomic<int> item_calls[MAX_ITEMS];
    int nitems, ndata;
    int data[MAX_DATA];
    unsigned expected_uses;
    std::atomic<unsigned> target_alive;
    std::vector<int*> stolen;
    std::mutex lock;
    Case(Ctx& ctx) : c(ctx), kind(0), obj(NULL), ready(0), go(false), destroyed(0), bad(false), nitems(0), ndata(0), expected_uses(0) {
        for (auto& x : item_calls) x = 0;
    }
    /* The destructor must see everything what has been done by the threads */
    void check_done() {
        for (auto& x : w) {
            unsigned n = 0;
            for (uint8_t op : x.script) n += op == USE;
            if (x.done.uses != n) bad = true;
        }
    }
};

void item_free(gpointer p) {
    const int i = GPOINTER_TO_INT(p) - 1;
    cur->item_calls[i]++;
    cur->check_done();
}
void data_free(gpointer p) {
    cur->destroyed++;
    cur->check_done();
    g_free(p);
}
void run_never(gpointer) { cur->bad = true; }
void time_cb(GUtilTimeNotify*, void*) {}
void watch_cb(GUtilInotifyWatch*, guint, guint, const char*, void*) {}

/*==========================================================================*
 * Objects
 *==========================================================================*/

enum { INTS, INTS_STATIC, INTS_FREE, RING, HISTORY, QUEUE, POOL, WEAKREF, ARRAY, TIME, WATCH, NKINDS };
const char* const KIND[] = { "ints", "static ints", "ints with a free function", "ring", "history", "idle queue", "idle pool", "weak reference",
    "int array", "time notifier", "inotify watch" };

gpointer ref(int kind, gpointer p) {
    switch (kind) {
    case INTS: case INTS_STATIC: case INTS_FREE: return gutil_ints_ref((GUtilInts*)p);
    case RING: return gutil_ring_ref((GUtilRing*)p);
    case HISTORY: return gutil_int_history_ref((GUtilIntHistory*)p);
    case QUEUE: return gutil_idle_queue_ref((GUtilIdleQueue*)p);
    case POOL: return gutil_idle_pool_ref((GUtilIdlePool*)p);
    case WEAKREF: return gutil_weakref_ref((GUtilWeakRef*)p);
    case ARRAY: return gutil_int_array_ref((GUtilIntArray*)p);
    case TIME: return gutil_time_notify_ref((GUtilTimeNotify*)p);
    default: return gutil_inotify_watch_ref((GUtilInotifyWatch*)p);
    }
}
void unref(int kind, gpointer p) {
    switch (kind) {
    case INTS: case INTS_STATIC: case INTS_FREE: gutil_ints_unref((GUtilInts*)p); break;
    case RING: gutil_ring_unref((GUtilRing*)p); break;
    case HISTORY: gutil_int_history_unref((GUtilIntHistory*)p); break;
    case QUEUE: gutil_idle_queue_unref((GUtilIdleQueue*)p); break;
    case POOL: gutil_idle_pool_unref((GUtilIdlePool*)p); break;
    case WEAKREF: gutil_weakref_unref((GUtilWeakRef*)p); break;
    case ARRAY: gutil_int_array_unref((GUtilIntArray*)p); break;
    case TIME: gutil_time_notify_unref((GUtilTimeNotify*)p); break;
    default: gutil_inotify_watch_unref((GUtilInotifyWatch*)p); break;
    }
}
/* The object is valid as long as there's a reference */
const char* use(Case* k, gpointer p) {
    switch (k->kind) {
    case INTS: case INTS_STATIC: case INTS_FREE: {
        guint n = 0;
        const int* d = gutil_ints_get_data((GUtilInts*)p, &n);
        if ((int)n != k->ndata || memcmp(d, k->data, n * sizeof(int))) return "wrong data";
        if (gutil_ints_find((GUtilInts*)p, k->data[0]) != 0) return "wrong position";
        break;
    }
    case RING:
        if (gutil_ring_size((GUtilRing*)p) != k->nitems) return "wrong size";
        if (k->nitems && gutil_ring_data_at((GUtilRing*)p, k->nitems - 1) != GINT_TO_POINTER(k->nitems)) return "wrong element";
        break;
    case HISTORY:
        break;
    case QUEUE:
        if (!gutil_idle_queue_contains_tag((GUtilIdleQueue*)p, 1) != !k->nitems) return "wrong contents";
        break;
    case WEAKREF: {
        gpointer o = gutil_weakref_get((GUtilWeakRef*)p);
        if (!o) return "no object";
        g_object_unref(o);
        break;
    }
    case ARRAY:
#ifndef VP_TSAN
        if ((int)((GUtilIntArray*)p)->count != k->ndata || ((GUtilIntArray*)p)->data[0] != k->data[0])
            return "wrong contents";
#endif
        break;
    default: break;
    }
    return NULL;
}

/*==========================================================================*
 * Threads
 *==========================================================================*/

gpointer thread_proc(gpointer arg)
{
    Worker* w = (Worker*)arg;
    Case* k = w->k;
    gpointer p = k->obj;
    int own = w->extra;
    std::vector<GUtilInts*> slices;
    k->ready++;
    while (!k->go) sched_yield();
    for (uint8_t op : w->script) {
        switch (op) {
        case REF: own++; if (ref(k->kind, p) != p) w->error = "ref returned something else"; break;
        case UNREF: if (own > 1) { own--; unref(k->kind, p); } break;
        case USE: {
            const char* err = use(k, p);
            if (err) w->error = err;
            w->done.uses++;
            break;
        }
        case YIELD: sched_yield(); break;
        case SLICE:
            if (k->kind <= INTS_FREE) slices.push_back(gutil_ints_new_from_ints((GUtilInts*)p, k->ndata / 2, MAX_DATA));
            break;
        }
    }
    while (own > 1) { own--; unref(k->kind, p); }
    if (w->to_data && k->kind <= INTS_FREE) {
        guint n = 0;
        int* d = gutil_ints_unref_to_data((GUtilInts*)p, &n);
        if (!d || (int)n != k->ndata || memcmp(d, k->data, n * sizeof(int))) w->error = "wrong extracted data";
        g_free(d);
    } else {
        unref(k->kind, p);
    }
    for (GUtilInts* s : slices) {
        guint n = 0;
        const int* d = gutil_ints_get_data(s, &n);
        if ((int)n != k->ndata - k->ndata / 2 || memcmp(d, k->data + k->ndata / 2, n * sizeof(int))) w->error = "wrong slice";
        gutil_ints_unref(s);
    }
    return NULL;
}

void stress(Ctx& c)
{
    Case k(c);
    cur = &k;
    k.kind = c.range(0, NKINDS - 1);
    k.ndata = c.range(1, MAX_DATA);
    k.nitems = c.range(0, MAX_ITEMS);
    for (int i = 0; i < k.ndata; i++) k.data[i] = c.range(-100, 100) * 1000 + i;
    const int n = c.range(2, MAX_THREADS);
    k.w.resize(n);
    int total = 0;
    unsigned uses = 0;
    for (int i = 0; i < n; i++) {
        Worker& w = k.w[i];
        w.k = &k;
        w.id = i;
        w.extra = c.range(1, 3);
        w.to_data = c.coin();
        w.done.uses = 0;
        for (int m = c.range(0, 12); m > 0; m--) w.script.push_back(c.pick<uint8_t>({REF, UNREF, USE, UNREF, REF, YIELD, SLICE}));
        total += w.extra;
        uses += w.script.size();
        VP_LOG(c, "thread %d: %d reference(s), %d operation(s)%s", i, w.extra, (int)w.script.size(),
            w.to_data && k.kind <= INTS_FREE ? ", unref_to_data" : "");
    }
    VP_LOG(c, "%s, %d data, %d items", KIND[k.kind], k.ndata, k.nitems);

    GObject* target = NULL;
    int destroyed = 0, items = 0;
    switch (k.kind) {
    case INTS: k.obj = gutil_ints_new(k.data, k.ndata); break;
    case INTS_STATIC: k.obj = gutil_ints_new_static(k.data, k.ndata); break;
    case INTS_FREE: {
        gpointer d = g_memdup2(k.data, k.ndata * sizeof(int));
        k.obj = gutil_ints_new_with_free_func((int*)d, k.ndata, data_free, d);
        destroyed = 1;
        break;
    }
    case RING: {
        GUtilRing* r = gutil_ring_new_full(1, -1, item_free);
        for (int i = 0; i < k.nitems; i++) gutil_ring_put(r, GINT_TO_POINTER(i + 1));
        k.obj = r;
        items = k.nitems;
        break;
    }
    case HISTORY: {
        GUtilIntHistory* h = gutil_int_history_new(4, 1000);
        for (int i = 0; i < k.nitems; i++) gutil_int_history_add(h, i);
        k.obj = h;
        break;
    }
    case QUEUE: {
        GUtilIdleQueue* q = gutil_idle_queue_new();
        for (int i = 0; i < k.nitems; i++) gutil_idle_queue_add_tag_full(q, 1, run_never, GINT_TO_POINTER(i + 1), item_free);
        k.obj = q;
        items = k.nitems;
        break;
    }
    case POOL: {
        GUtilIdlePool* p = gutil_idle_pool_new();
        for (int i = 0; i < k.nitems; i++) gutil_idle_pool_add(p, GINT_TO_POINTER(i + 1), item_free);
        k.obj = p;
        items = k.nitems;
        break;
    }
    case WEAKREF: target = (GObject*)g_object_new(G_TYPE_OBJECT, NULL); k.obj = gutil_weakref_new(target); break;
    case ARRAY: k.obj = gutil_int_array_new_from_vals(k.data, k.ndata); break;
    case TIME: {
        k.obj = gutil_time_notify_new();
        gutil_time_notify_add_handler((GUtilTimeNotify*)k.obj, time_cb, NULL);
        break;
    }
    default: {
        GUtilInotifyWatch* w = gutil_inotify_watch_new(scratch(), IN_DELETE_SELF);
        if (!w) return;     /* No resources */
        gutil_inotify_watch_add_handler(w, watch_cb, NULL);
        k.obj = w;
    }
    }
    for (int i = 1; i < total; i++) ref(k.kind, k.obj);
    std::vector<GThread*> th;
    /* The thread which has created the object may be one of them */
    const bool owner = c.chance(100);
    for (auto& w : k.w) if (w.id || !owner) th.push_back(g_thread_new("w", thread_proc, &w));
    while (k.ready < (int)th.size()) sched_yield();
    k.go = true;
    if (owner) {
        c.label("used by the creator");
        thread_proc(&k.w[0]);
    }
    for (auto* t : th) g_thread_join(t);
    for (auto& w : k.w) VP_CHECK(c, w.error.empty(), "thread %d: %s", w.id, w.error.c_str());
    /* The pool is kept alive by the pending items */
    if (k.kind == POOL) for (int i = 0; g_main_context_iteration(NULL, FALSE) && i < 100; i++);
    VP_EQ(c, k.destroyed.load(), destroyed, "number of destructions");
    for (int i = 0; i < MAX_ITEMS; i++) VP_EQ(c, k.item_calls[i].load(), i < items, "number of times the item was released");
    VP_CHECK(c, !k.bad, "wrong things seen by the destructor");
    if (target) {
        VP_EQ(c, target->ref_count, 1, "references to the target of the weak reference");
        g_object_unref(target);
    }
    int left = 0;
    while (g_main_context_iteration(NULL, FALSE)) VP_CHECK(c, ++left < 100, "the main loop never becomes idle");
    VP_CHECK(c, !k.bad, "cancelled callback was invoked");
    for (int i = 0; i < MAX_ITEMS; i++) VP_EQ(c, k.item_calls[i].load(), i < items, "number of times the item was released");
    if (uses > 2) c.nontrivial();
    c.label(KIND[k.kind]);
    cur = NULL;
}

/* One thread drops its reference and another one extracts the data */
struct Extract { GUtilInts* p; std::atomic<int>* turn; int n; bool to_data, bad; };
enum { EXTRACT_ROUNDS = 3000 };
std::atomic<GUtilInts*> extract_obj;
gpointer extract_proc(gpointer arg)
{
    Extract* e = (Extract*)arg;
    for (int i = 1; i <= EXTRACT_ROUNDS; i++) {
        while (*e->turn < i) sched_yield();
        GUtilInts* p = extract_obj;
        if (e->to_data) {
            guint n = 0;
            int* d = gutil_ints_unref_to_data(p, &n);
            if (!d || n != 2 || d[0] != i || d[1] != -i) e->bad = true;
            g_free(d);
        } else {
            gutil_ints_unref(p);
        }
        e->turn[1]++;
    }
    return NULL;
}
void fixed_to_data(Ctx& c)
{
    std::atomic<int> turn[2];
    turn[0] = turn[1] = 0;
    Extract e[2] = { { NULL, turn, 0, true, false }, { NULL, turn, 0, false, false } };
    GThread* t[2];
    for (int k = 0; k < 2; k++) t[k] = g_thread_new("x", extract_proc, e + k);
    for (int i = 1; i <= EXTRACT_ROUNDS; i++) {
        const int d[2] = { i, -i };
        extract_obj = gutil_ints_new(d, 2);
        gutil_ints_ref(extract_obj);
        turn[0] = i;
        while (turn[1] < 2 * i) sched_yield();
    }
    for (int k = 0; k < 2; k++) g_thread_join(t[k]);
    VP_CHECK(c, !e[0].bad, "wrong extracted data");
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C25";
    p.rule = "2..4 threads own 1..3 references each to the same object (one of 11 kinds) and simultaneously make up to 12 steps each (ref, unref, use, "
        "yield, make a slice) and finally drop the rest of their references; non-trivial = more than 2 steps";
    p.targets = { { "stress", stress, 1, 120 } };
    p.fixed = { { "unref-to-data-race", fixed_to_data } };
    p.leak_check = true;
    p.attempts = 200;
    return p;
}
