// VP-ASSUMES: destroy and unref are called by an owner of a reference which it holds until the call; a pool isn't used by its address after the last reference has been dropped; one thread
/* C09: idle pool */
#include "idlepool_model.h"
using namespace vp;

static void history(Ctx& c)
{
    pool::World w(c);
    while (c.more() && c.steps < 500) {
        c.steps++;
        w.op();
    }
    if (w.reentered && w.released) c.nontrivial();
    if (w.reentered) c.label("re-entered");
    if (w.ctx1) c.label("two-contexts");
    w.finish();
}

/* A lot of items. One of the destructors does something to the pool */
struct Many {
    Ctx& c;
    GUtilIdlePool* p;
    GUtilIdlePool* slot;
    std::vector<uint8_t> gone;
    size_t added, at, total;
    int what;
    bool allowed;
    struct Arg { Many* m; uint32_t i; };
    std::vector<Arg> args;
    void add(size_t i) {
        added++;
        VP_CHECK(c, gutil_idle_pool_add(p, &args[i], release) == &args[i], "add");
    }
    static void release(gpointer arg) {
        Arg* a = (Arg*)arg;
        Many* m = a->m;
        VP_CHECK(m->c, m->allowed, "item %d is released when it shouldn't be", (int)a->i);
        VP_CHECK(m->c, !m->gone[a->i], "item %d is released twice", (int)a->i);
        m->gone[a->i] = 1;
        if (a->i == m->at) {
            if (m->what == 1) while (m->added < m->args.size()) m->add(m->added);
            if (m->what == 2) gutil_idle_pool_drain(m->p);
        }
    }
};

static void many(Ctx& c)
{
    Many m = { c, NULL, NULL };
    const size_t n = c.huge() * (c.chance(16) ? 8 : 1), later = c.coin() ? c.len(300) : 0;
    m.gone.assign(n + later, 0);
    m.args.resize(n + later);
    for (size_t i = 0; i < n + later; i++) m.args[i] = { &m, (uint32_t)i };
    m.what = later ? 1 : c.coin() ? 2 : 0;
    m.at = n ? (c.coin() ? c.range(0, 20) : c.u32()) % n : 0;
    const int kind = c.range(0, 2), how = c.range(0, 2);
    /* The destructors don't use the pool without having a reference to it */
    if (how == 1 && kind == 0) m.what = 0;
    m.p = kind == 0 ? gutil_idle_pool_new() : kind == 1 ? gutil_idle_pool_get(&m.slot) : NULL;
    VP_LOG(c, "%d items, pool %d, %d when releasing item %d, then %d more", (int)n, kind, m.what, (int)m.at, (int)later);
    for (size_t i = 0; i < n; i++) m.add(i);
    m.allowed = true;
    if (how == 0) {
        gutil_idle_pool_drain(m.p);
    } else if (how == 1 && kind == 0) {
        gutil_idle_pool_unref(m.p);
        /* Whatever is left belongs to the main loop */
        while (g_main_context_iteration(NULL, FALSE));
        m.p = NULL;
    } else {
        size_t k = 0;
        while (g_main_context_iteration(NULL, FALSE)) VP_CHECK(c, ++k < 1000, "the main loop never becomes idle");
    }
    for (size_t i = 0; i < m.added; i++) VP_CHECK(c, m.gone[i], "item %d of %d isn't released", (int)i, (int)m.added);
    VP_CHECK(c, !m.slot, "shared pool is still there");
    m.allowed = false;
    if (kind == 0 && m.p) gutil_idle_pool_unref(m.p);
    if (n > 1000) { c.nontrivial(); c.label("over-1000-items"); }
    if (n > 65536) c.label("over-65536-items");
}

static void inc(gpointer p) { (*(int*)p)++; }

/* Pool attached to non-default context must not touch the sources of the default one */
static void fixed_context(Ctx& c)
{
    int n = 0, other = 0;
    GSource* src = g_idle_source_new();
    GMainContext* ctx = g_main_context_new();
    GUtilIdlePool* p = gutil_idle_pool_new();
    guint id = g_source_attach(src, NULL);
    g_main_context_push_thread_default(ctx);
    /* The same id in the other context */
    for (guint k = 1; k < id; k++) {
        GSource* x = g_idle_source_new();
        g_source_attach(x, ctx);
        g_source_destroy(x);
        g_source_unref(x);
        if (k > 100000) break;
    }
    gutil_idle_pool_add(p, &n, inc);
    gutil_idle_pool_drain(p);
    VP_EQ(c, n, 1, "released");
    VP_CHECK(c, !g_source_is_destroyed(src), "source in the default context is removed");
    gutil_idle_pool_add(p, &n, inc);
    gutil_idle_pool_destroy(p);
    VP_EQ(c, n, 2, "released");
    VP_CHECK(c, !g_main_context_pending(ctx), "source is left in the context");
    g_main_context_pop_thread_default(ctx);
    g_main_context_unref(ctx);
    g_source_destroy(src);
    g_source_unref(src);
    (void)other;
}

static GUtilIdlePool* the_pool;
static int* the_count;
static void nested_drain(gpointer p) { inc(p); gutil_idle_pool_drain(the_pool); }
static void nested_add(gpointer p) { inc(p); gutil_idle_pool_add(the_pool, the_count, inc); }

static void fixed_nested_drain(Ctx& c)
{
    int n = 0;
    GUtilIdlePool* slot = NULL;
    the_pool = gutil_idle_pool_get(&slot);
    gutil_idle_pool_add(the_pool, &n, nested_drain);
    gutil_idle_pool_add(the_pool, &n, inc);
    gutil_idle_pool_drain(the_pool);
    VP_EQ(c, n, 2, "released");
    VP_CHECK(c, !slot, "shared pool is still there");
}

/* Main context is destroyed together with the source, the pool loses its last reference after that */
static void fixed_add_in_unref(Ctx& c)
{
    int n = 0;
    GMainContext* ctx = g_main_context_new();
    the_pool = gutil_idle_pool_new();
    the_count = &n;
    g_main_context_push_thread_default(ctx);
    gutil_idle_pool_add(the_pool, &n, nested_add);
    g_main_context_pop_thread_default(ctx);
    g_main_context_unref(ctx);
    VP_EQ(c, n, 0, "nothing is released before the pool is gone");
    gutil_idle_pool_unref(the_pool);
    VP_EQ(c, n, 2, "released");
    VP_CHECK(c, !g_main_context_pending(NULL), "source is left in the context");
}

static void fixed_context_gone(Ctx& c)
{
    int n = 0;
    GMainContext* ctx = g_main_context_new();
    GUtilIdlePool* p = gutil_idle_pool_new();
    g_main_context_push_thread_default(ctx);
    gutil_idle_pool_add(p, &n, inc);
    g_main_context_pop_thread_default(ctx);
    g_main_context_unref(ctx);
    gutil_idle_pool_add(p, &n, inc);
    while (g_main_context_iteration(NULL, FALSE));
    VP_EQ(c, n, 2, "released by the main loop");
    gutil_idle_pool_unref(p);
}

Property vp::property()
{
    Property p = {};
    p.id = "C09";
    p.rule = "histories of up to 500 operations on explicit, shared and default pools (adding of custom items, strings, "
        "objects, variants, arrays and byte blocks with and without an extra reference, drain, ref, unref, destroy, "
        "main loop iterations in two contexts), a part of them made from within the destructors; every release is "
        "checked against the model of owners, everything must be released in the end; "
        "non-trivial = items were released and destructors made operations";
    p.targets = { { "history", history, 1500, 1200 }, { "many", many, 1, 40 } };
    p.fixed = { { "non-default-context", fixed_context }, { "nested-drain", fixed_nested_drain },
        { "add-in-last-unref", fixed_add_in_unref }, { "context-gone", fixed_context_gone } };
    p.leak_check = true;
    return p;
}
