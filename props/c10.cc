// VP-ASSUMES: a worker thread either has its own main context which goes away before the thread exits or some time after that, or has none at all and then its pool is attached to the global default context
// VP-CONFIGS: dbg rel tsan
// VP-TSAN: ignore_noninstrumented_modules=1
/* C10: shared and per-thread idle pools */
#include <atomic>
#include <functional>
#include <mutex>
#include <condition_variable>
#include "idlepool_model.h"
using namespace vp;

namespace {

/*==========================================================================*
 * Threads making steps one at a time
 *==========================================================================*/

struct Thread;
struct Item { int id; Thread* owner; bool released; int nested; bool at_exit; bool shared; };

enum Mode { CTX_DESTROYED, CTX_OUTLIVES, NO_CTX, MAIN };

struct Thread {
    int id;
    Mode mode;
    GThread* th;
    GThread* self;
    GMainContext* ctx;
    GUtilIdlePool* pool;    /* NULL until asked for */
    GUtilIdlePool* shared;  /* shared by the functions of this thread */
    bool alive, exiting;
    bool draining;          /* it's time to release */
    std::mutex m;   /* GMutex is invisible for ThreadSanitizer */
    std::condition_variable cond;
    std::function<void()>* job;
    bool quit;
};

struct World {
    Ctx& c;
    std::vector<std::unique_ptr<Thread>> threads;
    std::vector<std::unique_ptr<Item>> items;
    bool settling;
    int exited;
    World(Ctx& ctx) : c(ctx), settling(false), exited(0) {}
};
World* W;

void destroyed(gpointer p)
{
    Item* i = (Item*)p;
    Thread* t = i->owner;
    Ctx& c = W->c;
    VP_CHECK(c, !i->released, "item %d is released twice", i->id);
    i->released = true;
    if (t->alive && !t->exiting) {
        VP_CHECK(c, g_thread_self() == t->self, "item %d of thread %d is released by another thread", i->id, t->id);
        VP_CHECK(c, t->draining, "item %d of thread %d is released too early", i->id, t->id);
    }
    VP_LOG(c, "item %d of thread %d released", i->id, t->id);
    if (i->nested > 0 && t->alive && g_thread_self() == t->self) {
        Item* n = new Item();
        n->id = (int)W->items.size();
        n->owner = t;
        n->nested = i->nested - 1;
        n->at_exit = t->exiting;
        W->items.emplace_back(n);
        n->shared = t->shared && i->shared;
        VP_LOG(c, "item %d of thread %d added", n->id, t->id);
        gutil_idle_pool_add(n->shared ? gutil_idle_pool_get(&t->shared) : NULL, n, destroyed);
    }
}

gpointer thread_proc(gpointer p)
{
    Thread* t = (Thread*)p;
    GMainContext* ctx = NULL;
    t->self = g_thread_self();
    if (t->mode != NO_CTX) {
        ctx = t->ctx;
        g_main_context_push_thread_default(ctx);
    }
    {
        std::unique_lock<std::mutex> lock(t->m);
        for (;;) {
            while (!t->job && !t->quit) t->cond.wait(lock);
            if (t->quit) break;
            (*t->job)();
            t->job = NULL;
            t->cond.notify_all();
        }
    }
    if (ctx) {
        g_main_context_pop_thread_default(ctx);
        if (t->mode == CTX_DESTROYED) g_main_context_unref(ctx);
    }
    return NULL;
}

void on(Thread* t, std::function<void()> f)
{
    if (t->mode == MAIN) {
        f();
    } else {
        std::unique_lock<std::mutex> lock(t->m);
        t->job = &f;
        t->cond.notify_all();
        while (t->job) t->cond.wait(lock);
    }
}

void start(Ctx& c, Mode mode)
{
    Thread* t = new Thread();
    t->id = (int)W->threads.size();
    t->mode = mode;
    t->alive = true;
    W->threads.emplace_back(t);
    if (mode == MAIN) {
        t->self = g_thread_self();
        return;
    }
    VP_LOG(c, "thread %d mode %d", t->id, mode);
    if (mode != NO_CTX) t->ctx = g_main_context_new();
    t->th = g_thread_new("w", thread_proc, t);
}

/* what: 1 = in the default pool, 2 = in the shared one, 3 = both */
void released(Ctx& c, Thread* t, const char* when, int what)
{
    for (auto& i : W->items) {
        if (i->owner == t && !i->at_exit && (what & (i->shared ? 2 : 1))) {
            VP_CHECK(c, i->released, "item %d of thread %d is still there %s", i->id, t->id, when);
        }
    }
}

void finish_thread(Ctx& c, Thread* t)
{
    VP_LOG(c, "thread %d exits", t->id);
    W->exited++;
    on(t, [t]() {
        t->exiting = true;
        /* This one holds a reference to itself, there's nobody else to release it */
        if (t->shared) gutil_idle_pool_drain(t->shared);
    });
    VP_CHECK(c, !t->shared, "shared pool of thread %d is still there", t->id);
    {
        std::unique_lock<std::mutex> lock(t->m);
        t->quit = true;
        t->cond.notify_all();
    }
    g_thread_join(t->th);
    t->alive = false;
    t->pool = NULL;
    if (t->mode == CTX_OUTLIVES) g_main_context_unref(t->ctx);
    if (t->mode != NO_CTX) released(c, t, "after the thread has exited", 3);
}

void op(Ctx& c)
{
    std::vector<Thread*> live;
    for (auto& t : W->threads) if (t->alive) live.push_back(t.get());
    Thread* t = c.pickv(live);
    switch (c.range(0, 9)) {
    case 0: case 1: {
        const bool twice = c.coin();
        on(t, [&c, t, twice]() {
            GUtilIdlePool* p = gutil_idle_pool_get_default();
            VP_CHECK(c, p, "no default pool");
            if (t->pool) VP_CHECK(c, t->pool == p, "default pool of thread %d has changed", t->id);
            t->pool = p;
            if (twice) VP_CHECK(c, gutil_idle_pool_get_default() == p, "default pool isn't the same");
        });
        for (Thread* o : live) {
            if (o != t && o->pool) VP_CHECK(c, o->pool != t->pool, "threads %d and %d have the same default pool",
                t->id, o->id);
        }
        break;
    }
    default: {
        Item* i = new Item();
        i->id = (int)W->items.size();
        i->owner = t;
        i->nested = c.range(0, 3) - 1;
        W->items.emplace_back(i);
        const bool explicit_pool = c.coin();
        i->shared = t->mode != NO_CTX && c.chance(90);
        on(t, [&c, t, i, explicit_pool]() {
            VP_LOG(c, "item %d of thread %d added%s", i->id, t->id, i->shared ? " to the shared pool" : "");
            gutil_idle_pool_add(i->shared ? gutil_idle_pool_get(&t->shared) : explicit_pool ? gutil_idle_pool_get_default() : NULL, i, destroyed);
        });
        VP_CHECK(c, !i->released, "item is released when it's added");
        break;
    }
    case 5:
        if (t->shared && c.coin()) {
            on(t, [&c, t]() {
                VP_LOG(c, "thread %d drain shared", t->id);
                t->draining = true;
                gutil_idle_pool_drain(t->shared);
                t->draining = false;
            });
            released(c, t, "after drain", 2);
            break;
        }
        on(t, [&c, t]() {
            VP_LOG(c, "thread %d drain", t->id);
            t->draining = true;
            gutil_idle_pool_drain(NULL);
            t->draining = false;
        });
        released(c, t, "after drain", 1);
        break;
    case 6: case 7:
        if (t->mode == NO_CTX) break;
        on(t, [&c, t]() {
            VP_LOG(c, "thread %d iterates", t->id);
            t->draining = true;
            while (g_main_context_iteration(t->ctx, FALSE));
            t->draining = false;
        });
        released(c, t, "after the main loop", 3);
        VP_CHECK(c, !t->shared, "shared pool of thread %d is still there", t->id);
        break;
    case 8:
        if (live.size() < 4) start(c, (Mode)c.range(0, 2));
        break;
    case 9:
        if (t->mode != MAIN) finish_thread(c, t);
        break;
    }
}

void threads(Ctx& c)
{
    World w(c);
    W = &w;
    start(c, MAIN);
    start(c, (Mode)c.range(0, 2));
    while (c.more() && c.steps < 150) {
        c.steps++;
        op(c);
    }
    unsigned n = 0;
    for (auto& t : w.threads) {
        for (auto& i : w.items) if (i->owner == t.get()) { n++; break; }
    }
    if (n >= 2) c.nontrivial();
    if (n >= 2) c.label("several-threads");
    for (auto& t : w.threads) if (t->alive && t->mode != MAIN) finish_thread(c, t.get());
    w.threads[0]->draining = true;
    if (w.threads[0]->shared) gutil_idle_pool_drain(w.threads[0]->shared);
    gutil_idle_pool_drain(NULL);
    while (g_main_context_iteration(NULL, FALSE));
    for (auto& i : w.items) {
        VP_CHECK(c, i->released, "item %d of thread %d is leaked", i->id, i->owner->id);
    }
    W = NULL;
}

/*==========================================================================*
 * Threads running at the same time
 *==========================================================================*/

struct Worker {
    std::vector<uint8_t> script;
    std::vector<int> released;
    std::vector<GUtilIdlePool*> seen;
    GMainContext* ctx;
    GThread* self;
    std::atomic<int>* ready;
    int total;
    int wrong;
};

void count(gpointer p) { (*(int*)p)++; }

gpointer worker(gpointer p)
{
    Worker* w = (Worker*)p;
    GMainContext* ctx = g_main_context_new();
    g_main_context_push_thread_default(ctx);
    w->released.assign(w->script.size() + 1, 0);
    w->ready->fetch_sub(1);
    for (int k = 0; k < 100000 && w->ready->load() > 0; k++);
    GUtilIdlePool* pool = gutil_idle_pool_get_default();
    for (size_t k = 0; k < w->script.size(); k++) {
        switch (w->script[k] % 5) {
        case 0: if (gutil_idle_pool_get_default() != pool) w->wrong++; break;
        case 1: while (g_main_context_iteration(ctx, FALSE)); break;
        case 2: gutil_idle_pool_drain(NULL); break;
        default: gutil_idle_pool_add(k & 1 ? pool : NULL, &w->released[k], count); w->total++; break;
        }
        if (w->script[k] & 0x80) g_thread_yield();
    }
    w->seen.push_back(pool);
    g_main_context_pop_thread_default(ctx);
    g_main_context_unref(ctx);
    return NULL;
}

void concurrent(Ctx& c)
{
    const int n = c.range(2, 4);
    std::atomic<int> ready(n);
    std::vector<Worker> w(n);
    int work = 0;
    for (auto& x : w) {
        const unsigned k = c.range(1, 30);
        for (unsigned i = 0; i < k; i++) x.script.push_back(c.u8());
        x.ready = &ready;
    }
    std::vector<GThread*> th;
    for (auto& x : w) th.push_back(g_thread_new("w", worker, &x));
    for (auto* t : th) g_thread_join(t);
    for (auto& x : w) {
        VP_EQ(c, x.wrong, 0, "default pool has changed");
        int got = 0;
        for (int r : x.released) { VP_CHECK(c, r <= 1, "item is released more than once"); got += r; }
        VP_EQ(c, got, x.total, "released items");
        work += got;
    }
    if (work > 1) c.nontrivial();
}

void shared(Ctx& c)
{
    pool::World w(c);
    int pools = 0;
    while (c.more() && c.steps < 300) {
        c.steps++;
        switch (c.range(0, 9)) {
        case 0: case 1: w.get(c.range(0, 1)); w.check_slots("get"); pools++; break;
        case 2: {
            const int i = c.range(0, 1);
            pool::Pool* p = w.get(i);
            w.begin(p);
            gutil_idle_pool_drain(p->p);
            w.end(p, "drain");
            break;
        }
        case 3: w.settle(); break;
        case 4: w.ref(); break;
        case 5: case 6: if (pool::Pool* p = w.owned()) { if (c.coin()) w.unref(p); else w.destroy(p); } break;
        default: w.op(); break;
        }
    }
    if (pools > 1 && w.released) c.nontrivial();
    w.finish();
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C10";
    p.rule = "shared: histories of up to 300 operations on two shared pool pointers (identity, references, drain, destroy, main "
        "loop, re-entered destructors); threads: up to 150 steps of main and worker threads with their own or "
        "no main context taking turns; concurrent: 2-4 threads running at once; non-trivial = shared pool was requested more than once "
        "and something was released, or at least two threads pooled something";
    p.targets = { { "shared", shared, 3, 700 }, { "threads", threads, 2, 400 }, { "concurrent", concurrent, 1, 200 } };
    p.leak_check = true;
    p.attempts = 5;
    return p;
}
