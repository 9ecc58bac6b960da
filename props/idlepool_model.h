/* Model of idle pools used by one thread */
#include <glib-object.h>
#include <gutil_idlepool.h>
#include <algorithm>
#include <memory>
#include "vp.h"

namespace pool {
using namespace vp;

enum Kind { OBJECT, VARIANT, PTR_ARRAY, BYTES, KINDS };
enum State { PENDING, MAYBE, RELEASED };

struct Entry;
struct Obj {
    int id;
    Kind kind;
    gpointer p;
    int test_refs;
    bool destroyed;
    std::vector<Entry*> entries;
};
struct Pool {
    GUtilIdlePool* p;
    int id;
    int slot;       /* -1 explicit, -2 default */
    int refs;       /* held by the test */
    int pins;
    int draining;
    bool orphan;    /* main context has been destroyed */
    bool armed;     /* attached to the context */
    int attach;     /* which one (if known) */
    bool unknown;   /* something could have happened in the callbacks */
    bool drained;   /* has been (or may have been) drained at least once */
};
struct Entry { int id; Obj* obj; Pool* pool; State state; };

struct World;
inline World*& world() { static World* w; return w; }

struct World {
    Ctx& c;
    std::vector<std::unique_ptr<Obj>> objs;
    std::vector<std::unique_ptr<Pool>> pools;
    std::vector<std::unique_ptr<Entry>> entries;
    GUtilIdlePool* slot[2];
    Pool* current[2];
    GMainContext* ctx1;
    Pool* def;
    int pushed, depth, looping, loops, draining, callbacks;
    bool reentered, released, dropping;
    int cb_adds;    /* additions made by the callbacks */

    World(Ctx& ctx) : c(ctx), ctx1(NULL), def(NULL), pushed(0), depth(0), looping(0),
        loops(0), draining(0), callbacks(0), reentered(false), released(false), dropping(false), cb_adds(0) {
        world() = this;
        slot[0] = slot[1] = NULL;
        current[0] = current[1] = NULL;
        def = new_model(gutil_idle_pool_get_default(), -2);
    }
    ~World() { world() = NULL; }

    Pool* new_model(GUtilIdlePool* p, int s) {
        Pool* m = new Pool();
        m->p = p;
        m->id = (int)pools.size();
        m->slot = s;
        m->drained = looping > 0;
        if (s >= 0) arm(m);
        pools.emplace_back(m);
        return m;
    }
    /* Something is being added */
    void arm(Pool* p) {
        if (looping || draining) {
            cb_adds++;
            p->unknown = true;
        } else if (!p->armed) {
            p->armed = true;
            p->attach = pushed;
        }
    }

    /* Shared pools */
    void check_slots(const char* when) {
        for (int i = 0; i < 2; i++) {
            Pool* m = current[i];
            if (!m) {
                VP_CHECK(c, !slot[i], "%s: shared pool appeared out of nowhere", when);
            } else if (slot[i]) {
                VP_CHECK(c, slot[i] == m->p, "%s: shared pool pointer has changed", when);
            } else {
                VP_CHECK(c, m->drained, "%s: shared pool disappeared before it was drained", when);
                VP_CHECK(c, !m->refs, "%s: shared pool pointer is cleared but it's still referenced", when);
                current[i] = NULL;
            }
        }
    }
    Pool* get(int i) {
        const bool existed = slot[i] != NULL;
        if (!existed) check_slots("get");
        GUtilIdlePool* p = gutil_idle_pool_get(slot + i);
        VP_CHECK(c, p, "get returned NULL");
        VP_CHECK(c, slot[i] == p, "shared pool pointer wasn't updated");
        if (existed) {
            VP_CHECK(c, current[i] && current[i]->p == p, "existing shared pool must be reused");
        } else {
            current[i] = new_model(p, i);
            VP_LOG(c, "shared pool %d for pointer %d", current[i]->id, i);
        }
        return current[i];
    }

    Pool* some_pool() {
        for (int k = 0; k < 4; k++) {
            switch (c.range(0, 3)) {
            case 0: return def;
            case 1: return get(c.range(0, 1));
            default: {
                std::vector<Pool*> ok;
                for (auto& p : pools) if (p->slot == -1 && p->refs > 0) ok.push_back(p.get());
                if (!ok.empty()) return c.pickv(ok);
            }
            }
        }
        return def;
    }
    GUtilIdlePool* arg(Pool* p) {
        if (p->slot == -2) return c.coin() ? p->p : NULL;
        return p->p;
    }

    /* Objects */
    static void obj_destroyed(gpointer data) {
        Obj* o = (Obj*)data;
        World* w = world();
        Ctx& c = w->c;
        VP_CHECK(c, !o->destroyed, "object %d is destroyed twice", o->id);
        VP_CHECK(c, o->test_refs == 0, "object %d is destroyed with %d caller's references", o->id, o->test_refs);
        for (Entry* e : o->entries) if (e->state == PENDING) {
            VP_CHECK(c, e->pool->draining || w->looping,
                "object %d is released but pool %d isn't being drained", o->id, e->pool->id);
        }
        for (Entry* e : o->entries) { e->state = RELEASED; e->pool->drained = true; }
        o->destroyed = true;
        VP_LOG(c, "object %d destroyed {", o->id);
        w->released = true;
        w->callback_ops();
        VP_LOG(c, "}");
    }
    static void custom_destroyed(gpointer data) {
        Entry* e = (Entry*)data;
        World* w = world();
        Ctx& c = w->c;
        VP_CHECK(c, e->state != RELEASED, "item %d is destroyed twice", e->id);
        VP_CHECK(c, e->pool->draining || w->looping, "item %d is destroyed but pool %d isn't being drained",
            e->id, e->pool->id);
        e->state = RELEASED;
        e->pool->drained = true;
        VP_LOG(c, "item %d destroyed {", e->id);
        w->released = true;
        w->callback_ops();
        VP_LOG(c, "}");
    }

    Obj* new_obj() {
        Obj* o = new Obj();
        o->id = (int)objs.size();
        o->kind = (Kind)c.range(0, KINDS - 1);
        o->test_refs = 1;
        alignas(16) static const char abc[] = "abc";
        switch (o->kind) {
        case OBJECT: {
            GObject* obj = (GObject*)g_object_new(c.chance(60) ? G_TYPE_INITIALLY_UNOWNED : G_TYPE_OBJECT, NULL);
            g_object_set_data_full(obj, "vp", o, obj_destroyed);
            o->p = obj;
            break;
        }
        case VARIANT: {
            /* Unaligned data would've been copied and released right away */
            static const struct { const char* type; alignas(16) char data[8]; unsigned size; } V[] = {
                { "()", "\0", 1 }, { "b", "\1", 1 }, { "s", "abc", 4 }, { "y", "x", 1 }, { "as", "", 0 }, { "v", "\1\0b", 3 },
                { "a{sv}", "", 0 }, { "mb", "", 0 }, { "(yy)", "ab", 2 }, { "h", "\0\0\0\0", 4 }, { "x", {0, 0, 0, 0, 0, 0, 0, 1}, 8 }
            };
            GVariant* v;
            if (c.coin()) {
                v = g_variant_new_from_data(G_VARIANT_TYPE("ay"), abc, c.chance(60) ? 0 : 3, TRUE, obj_destroyed, o);
            } else {
                const auto& x = V[c.range(0, (int)(sizeof(V) / sizeof(V[0])) - 1)];
                VP_LOG(c, "object %d is a variant of type %s", o->id, x.type);
                v = g_variant_new_from_data(G_VARIANT_TYPE(x.type), x.data, x.size, TRUE, obj_destroyed, o);
            }
            o->p = c.coin() ? v : g_variant_take_ref(v);
            break;
        }
        case PTR_ARRAY:
            o->p = g_ptr_array_new_with_free_func(obj_destroyed);
            /* Or right after it's added to the pool */
            if (!c.chance(100)) g_ptr_array_add((GPtrArray*)o->p, o);
            break;
        default:
            o->p = g_bytes_new_with_free_func(abc, c.chance(60) ? 0 : 3, obj_destroyed, o);
            break;
        }
        objs.emplace_back(o);
        return o;
    }
    void obj_ref(Obj* o) {
        o->test_refs++;
        switch (o->kind) {
        case OBJECT: g_object_ref(o->p); break;
        case VARIANT: g_variant_ref((GVariant*)o->p); break;
        case PTR_ARRAY: g_ptr_array_ref((GPtrArray*)o->p); break;
        default: g_bytes_ref((GBytes*)o->p); break;
        }
    }
    void check_obj(Obj* o) {
        int definite = o->test_refs, maybe = 0;
        for (Entry* e : o->entries) {
            if (e->state == RELEASED) continue;
            if (e->state == MAYBE || looping || e->pool->draining) maybe++; else definite++;
        }
        if (definite > 0) VP_CHECK(c, !o->destroyed, "object %d is destroyed", o->id);
        if (definite + maybe == 0) VP_CHECK(c, o->destroyed, "object %d hasn't been released", o->id);
        if (!o->destroyed && o->kind == OBJECT) {
            const int n = (int)((GObject*)o->p)->ref_count;
            VP_CHECK(c, n >= definite && n <= definite + maybe, "object %d has %d references, expected %d to %d",
                o->id, n, definite, definite + maybe);
        }
    }
    void obj_unref(Obj* o) {
        o->test_refs--;
        VP_LOG(c, "object %d unref", o->id);
        switch (o->kind) {
        case OBJECT: g_object_unref(o->p); break;
        case VARIANT: g_variant_unref((GVariant*)o->p); break;
        case PTR_ARRAY: g_ptr_array_unref((GPtrArray*)o->p); break;
        default: g_bytes_unref((GBytes*)o->p); break;
        }
        if (!draining && !looping) check_obj(o);
    }

    Entry* new_entry(Obj* o, Pool* p) {
        Entry* e = new Entry();
        e->id = (int)entries.size();
        e->obj = o;
        e->pool = p;
        e->state = PENDING;
        entries.emplace_back(e);
        return e;
    }

    void add() {
        if (entries.size() > 250) return;
        Pool* p = some_pool();
        const int what = c.range(0, 7);
        if (what != 4 && !dropping) p->orphan = false;
        if (what != 4) arm(p);
        if (what <= 2) {
            Entry* e = new_entry(NULL, p);
            VP_LOG(c, "item %d to pool %d", e->id, p->id);
            gpointer r = gutil_idle_pool_add(arg(p), e, custom_destroyed);
            VP_CHECK(c, r == e, "add must return the item");
            VP_CHECK(c, e->state == PENDING, "item is released by add");
        } else if (what == 3) {
            char** v = g_strsplit(c.coin() ? "a:b" : "", ":", 0);
            const guint n = g_strv_length(v);
            VP_LOG(c, "strv of %u to pool %d", n, p->id);
            VP_CHECK(c, gutil_idle_pool_add_strv(arg(p), v) == v, "add_strv");
            VP_CHECK(c, g_strv_length(v) == n && (!n || (!strcmp(v[0], "a") && !strcmp(v[1], "b"))), "strv is damaged");
        } else if (what == 4 && c.chance(60)) {
            int x;
            VP_CHECK(c, !gutil_idle_pool_ref(NULL), "ref(NULL)");
            gutil_idle_pool_unref(NULL);
            gutil_idle_pool_destroy(NULL);
            VP_CHECK(c, gutil_idle_pool_add(arg(p), &x, NULL) == &x, "add without destructor");
            VP_CHECK(c, !gutil_idle_pool_add_strv(arg(p), NULL), "NULL strv");
            VP_CHECK(c, !gutil_idle_pool_add_object(arg(p), NULL), "NULL object");
            VP_CHECK(c, !gutil_idle_pool_add_variant(arg(p), NULL), "NULL variant");
            VP_CHECK(c, !gutil_idle_pool_add_ptr_array(arg(p), NULL), "NULL array");
            VP_CHECK(c, !gutil_idle_pool_add_bytes(arg(p), NULL), "NULL bytes");
            VP_CHECK(c, !gutil_idle_pool_add_object_ref(arg(p), NULL), "NULL object");
            VP_CHECK(c, !gutil_idle_pool_add_variant_ref(arg(p), NULL), "NULL variant");
            VP_CHECK(c, !gutil_idle_pool_add_ptr_array_ref(arg(p), NULL), "NULL array");
            VP_CHECK(c, !gutil_idle_pool_add_bytes_ref(arg(p), NULL), "NULL bytes");
        } else {
            std::vector<Obj*> ok;
            for (auto& o : objs) if (o->test_refs > 0) ok.push_back(o.get());
            Obj* o = ok.empty() || c.coin() ? new_obj() : c.pickv(ok);
            const bool own = c.coin();
            arm(p);
            Entry* e = new_entry(o, p);
            o->entries.push_back(e);
            if (!own) o->test_refs--;
            VP_LOG(c, "object %d kind %d %s to pool %d", o->id, o->kind, own ? "ref" : "noref", p->id);
            gpointer r = NULL;
            GUtilIdlePool* a = arg(p);
            switch (o->kind) {
            case OBJECT: r = own ? gutil_idle_pool_add_object_ref(a, o->p) : gutil_idle_pool_add_object(a, o->p); break;
            case VARIANT: r = own ? gutil_idle_pool_add_variant_ref(a, (GVariant*)o->p) :
                gutil_idle_pool_add_variant(a, (GVariant*)o->p); break;
            case PTR_ARRAY: r = own ? gutil_idle_pool_add_ptr_array_ref(a, (GPtrArray*)o->p) :
                gutil_idle_pool_add_ptr_array(a, (GPtrArray*)o->p); break;
            default: r = own ? gutil_idle_pool_add_bytes_ref(a, (GBytes*)o->p) :
                gutil_idle_pool_add_bytes(a, (GBytes*)o->p); break;
            }
            VP_CHECK(c, r == o->p, "add must return its argument");
            if (o->kind == PTR_ARRAY && !o->destroyed && !((GPtrArray*)o->p)->len) g_ptr_array_add((GPtrArray*)o->p, o);
            check_obj(o);
        }
    }

    /* Everything which was in the pool is expected to be released */
    void complete(Pool* p, const char* what) {
        std::vector<Obj*> check;
        for (auto& e : entries) if (e->pool == p && e->state != RELEASED) {
            VP_CHECK(c, e->obj, "%s of pool %d didn't release item %d", what, p->id, e->id);
            e->state = RELEASED;
            check.push_back(e->obj);
        }
        p->orphan = p->armed = p->unknown = false;
        for (Obj* o : check) check_obj(o);
        if (p->slot >= 0 && !p->refs && current[p->slot] == p) {
            VP_CHECK(c, !slot[p->slot], "%s: shared pool %d is still there", what, p->id);
            check_slots(what);
        }
    }
    void maybe(Pool* p) {
        p->unknown = true;
        for (auto& e : entries) if (e->pool == p && e->state == PENDING) e->state = MAYBE;
    }

    void begin(Pool* p) { p->draining++; draining++; p->drained = true; }
    void end(Pool* p, const char* what) {
        p->draining--;
        draining--;
        if (!looping && !draining) {
            complete(p, what);
            check_all();
        } else {
            maybe(p);
        }
    }
    void check_all() {
        if (looping || draining) return;
        for (auto& o : objs) check_obj(o.get());
        check_slots("check");
    }

    void drain() {
        Pool* p = some_pool();
        VP_LOG(c, "drain pool %d {", p->id);
        begin(p);
        gutil_idle_pool_drain(arg(p));
        end(p, "drain");
        VP_LOG(c, "}");
    }
    Pool* owned() {
        std::vector<Pool*> ok;
        for (auto& p : pools) if (p->slot >= -1 && p->refs > p->pins) ok.push_back(p.get());
        return ok.empty() ? NULL : c.pickv(ok);
    }
    void unref(Pool* p) {
        VP_LOG(c, "unref pool %d", p->id);
        const bool last = p->refs == 1;
        p->refs--;
        if (last) { p->draining++; draining++; p->drained = true; }
        gutil_idle_pool_unref(p->p);
        if (last) { p->draining--; draining--; maybe(p); }
        check_all();
    }
    void destroy(Pool* p) {
        VP_LOG(c, "destroy pool %d {", p->id);
        p->pins++;
        begin(p);
        gutil_idle_pool_destroy(p->p);
        p->pins--;
        p->refs--;
        end(p, "destroy");
        VP_LOG(c, "}");
    }
    void ref() {
        Pool* p = some_pool();
        if (p->slot == -2) return;
        VP_LOG(c, "ref pool %d", p->id);
        VP_CHECK(c, gutil_idle_pool_ref(p->p) == p->p, "ref");
        p->refs++;
    }
    void create() {
        int n = 0;
        for (auto& p : pools) if (p->refs > 0) n++;
        if (n >= 3) return;
        Pool* p = new_model(c.coin() ? gutil_idle_pool_new() : gutil_idle_pool_get(NULL), -1);
        p->refs = 1;
        VP_LOG(c, "pool %d = new", p->id);
    }
    void iterate() {
        if (looping >= 3 || ++loops > 40) return;
        GMainContext* ctx = ctx1 && c.coin() ? ctx1 : NULL;
        VP_LOG(c, "iteration of %d {", ctx ? 1 : 0);
        for (auto& p : pools) { maybe(p.get()); p->drained = true; }
        looping++;
        g_main_context_iteration(ctx, FALSE);
        looping--;
        for (auto& p : pools) { maybe(p.get()); p->drained = true; }
        VP_LOG(c, "}");
        check_all();
    }
    void push() {
        if (looping || draining) return;
        if (pushed) {
            VP_LOG(c, "pop context");
            g_main_context_pop_thread_default(ctx1);
            pushed = 0;
        } else {
            VP_LOG(c, "push context");
            if (!ctx1) ctx1 = g_main_context_new();
            g_main_context_push_thread_default(ctx1);
            pushed = 1;
        }
    }
    void settle() {
        if (looping || draining) return;
        VP_LOG(c, "settle {");
        looping++;
        for (int k = 0; k < 2000; k++) {
            for (auto& p : pools) { maybe(p.get()); p->drained = true; }
            bool more = g_main_context_iteration(NULL, FALSE);
            if (ctx1 && g_main_context_iteration(ctx1, FALSE)) more = true;
            if (!more) break;
            VP_CHECK(c, k < 1999, "main loop never becomes idle");
        }
        looping--;
        VP_LOG(c, "}");
        for (auto& p : pools) if (!p->orphan) complete(p.get(), "main loop");
        check_all();
    }
    /* One of the contexts is enough for what's attached to it */
    void settle_one() {
        if (looping || draining) return;
        const int k = c.range(0, ctx1 ? 1 : 0);
        std::vector<Pool*> done;
        for (auto& p : pools) if (p->armed && !p->unknown && !p->orphan && p->attach == k) done.push_back(p.get());
        VP_LOG(c, "settle %d {", k);
        cb_adds = 0;
        looping++;
        for (int i = 0; i < 2000; i++) {
            for (auto& p : pools) p->drained = true;
            if (!g_main_context_iteration(k ? ctx1 : NULL, FALSE)) break;
            VP_CHECK(c, i < 1999, "main loop never becomes idle");
        }
        looping--;
        VP_LOG(c, "}");
        for (auto& p : pools) maybe(p.get());
        if (!cb_adds || pushed == k) {
            for (Pool* p : done) complete(p, k ? "private main loop" : "main loop");
            if (!done.empty()) c.label("one-context");
        }
        check_all();
    }
    /* Destroy the private context with everything what's attached to it */
    void drop_context() {
        if (looping || draining || pushed || !ctx1) return;
        VP_LOG(c, "destroy context {");
        c.label("destroyed-context");
        for (auto& p : pools) { maybe(p.get()); p->drained = p->orphan = true; }
        looping++;
        GMainContext* ctx = ctx1;
        ctx1 = NULL;
        dropping = true;
        g_main_context_unref(ctx);
        dropping = false;
        looping--;
        for (auto& p : pools) { maybe(p.get()); p->drained = true; }
        VP_LOG(c, "}");
        check_all();
    }
    void drain_orphans() {
        for (size_t k = 0; k < pools.size(); k++) {
            Pool* p = pools[k].get();
            if (p->orphan && (p->slot == -2 || (p->slot >= 0 && current[p->slot] == p && slot[p->slot] == p->p) ||
                p->refs > 0)) {
                begin(p);
                gutil_idle_pool_drain(p->p);
                end(p, "drain");
            }
        }
        for (auto& p : pools) p->orphan = false;
    }

    void op() {
        switch (c.range(0, 19)) {
        default: add(); break;
        case 7: case 8: drain(); break;
        case 9: ref(); break;
        case 10: if (Pool* p = owned()) unref(p); break;
        case 11: if (Pool* p = owned()) destroy(p); break;
        case 12: create(); break;
        case 13: case 14: iterate(); break;
        case 15: if (c.chance(60)) drop_context(); else push(); break;
        case 16: if (c.coin()) settle(); else settle_one(); break;
        case 17: case 18: {
            std::vector<Obj*> ok;
            for (auto& o : objs) if (o->test_refs > 0) ok.push_back(o.get());
            if (!ok.empty()) { Obj* o = c.pickv(ok); if (c.coin()) obj_ref(o); else obj_unref(o); }
            break;
        }
        case 19: get(c.range(0, 1));
            VP_CHECK(c, gutil_idle_pool_get_default() == def->p, "default pool has changed");
            break;
        }
    }
    void callback_ops() {
        /* GLib leaks sources which are destroyed when their context is being finalized */
        if (dropping) return;
        if (depth > 4) return;
        depth++;
        for (int n = c.range(0, 7) - 3; n > 0 && c.steps < 500; n--) {
            reentered = true;
            c.steps++;
            op();
        }
        depth--;
    }
    void finish() {
        for (auto& p : pools) while (p->slot >= -1 && p->refs > 0) {
            if (c.coin()) destroy(p.get()); else unref(p.get());
        }
        if (pushed) push();
        drain_orphans();
        settle();
        for (size_t i = 0; i < objs.size(); i++) {
            while (objs[i]->test_refs > 0) obj_unref(objs[i].get());
        }
        for (size_t k = 0; k < pools.size(); k++) {
            /* Obj destructors may have done something */
            Pool* p = pools[k].get();
            while (p->slot >= -1 && p->refs > 0) destroy(p);
        }
        c.steps = 100000; /* no more operations */
        if (pushed) push();
        drain_orphans();
        settle();
        for (size_t i = 0; i < objs.size(); i++) {
            while (objs[i]->test_refs > 0) obj_unref(objs[i].get());
        }
        settle();
        for (auto& o : objs) VP_CHECK(c, o->destroyed, "object %d is leaked", o->id);
        for (auto& e : entries) VP_CHECK(c, e->state == RELEASED, "item %d is leaked", e->id);
        VP_CHECK(c, !slot[0] && !slot[1], "shared pool is leaked");
        if (ctx1) g_main_context_unref(ctx1);
    }
};

} // namespace pool
