// VP-ASSUMES: the caller of any function holds a reference to the queue for the time of the call (freeing from a callback is fine, from a destructor called by cancel isn't unless another reference exists); destructors don't add to a queue which is being finalized, and nested main loops are run by callbacks and not by destructors of cancelled items
/* C08: idle queue */
#include <glib.h>
#include <gutil_idlequeue.h>
#include <deque>
#include <algorithm>
#include <memory>
#include "vp.h"
using namespace vp;

namespace {

struct Queue;

enum State { PENDING, CANCELLED, RUNNING, RAN, DONE };

struct Item {
    int id;
    GUtilIdleQueueTag tag;
    bool has_run, has_destroy, may_add;
    State state;
    Queue* q;
    bool null_data;
    int frame;      /* main loop iteration which runs it */
    int not_frame;  /* and the one which must not */
};

struct World;
World* W;

struct Queue {
    GUtilIdleQueue* q;
    int refs;       /* held by the test */
    int pins;       /* calls in progress which need a reference */
    bool freeing;   /* last free or unref in progress */
    bool dead;
    int adding;
    std::deque<Item*> pending;
};

struct World {
    Ctx& c;
    std::vector<std::unique_ptr<Item>> items;
    std::vector<std::unique_ptr<Queue>> all;
    std::vector<Queue*> live;
    std::vector<Item*> stack;
    int depth, loops, looping, adds, cancelling, frame, frames;
    Item* null_item;    /* the one with NULL data */
    bool reentered, cancelled_some, ran_some;

    World(Ctx& ctx) : c(ctx), depth(0), loops(0), looping(0), adds(0), cancelling(0), frame(0), frames(0), null_item(NULL),
        reentered(false), cancelled_some(false), ran_some(false) { W = this; }
    ~World() { W = NULL; }

    void new_queue() {
        Queue* q = new Queue();
        q->q = gutil_idle_queue_new();
        q->refs = 1;
        all.emplace_back(q);
        live.push_back(q);
        VP_LOG(c, "q%d = new", (int)all.size() - 1);
    }
    int idx(Queue* q) {
        for (size_t i = 0; i < all.size(); i++) if (all[i].get() == q) return (int)i;
        return -1;
    }

    /* Ambiguous: item being cancelled but its destructor isn't called yet */
    bool ambiguous(Queue* q, GUtilIdleQueueTag tag) {
        for (auto& i : items) {
            if (i->q == q && i->state == CANCELLED && i->tag == tag) return true;
        }
        return false;
    }

    void add(Queue* q, bool may_destroy_be_null = true) {
        if (q->freeing && !(stack.size() && stack.back()->may_add)) return;
        if (++adds > 300) return;
        Item* i = new Item();
        i->id = (int)items.size();
        i->tag = 0;
        i->q = q;
        i->state = PENDING;
        i->has_run = i->has_destroy = true;
        items.emplace_back(i);
        const int form = c.range(0, 7);
        if (form == 2 || form == 3) i->has_destroy = false;
        if (form == 6) i->has_run = false;
        if (form == 1 || form == 3 || form >= 4) i->tag = (GUtilIdleQueueTag)tag();
        /* User data may be NULL */
        i->null_data = !null_item && form < 7 && c.chance(24);
        if (i->null_data) { null_item = i; c.label("null-data"); }
        /* Whatever is added by a callback waits for the next iteration */
        i->not_frame = i->frame = 0;
        for (Item* s : stack) if (s->q == q && s->frame) i->not_frame = s->frame;
        VP_LOG(c, "add item %d tag %#llx to q%d%s%s%s", i->id, (unsigned long long)i->tag, idx(q),
            i->has_run ? "" : " norun", i->has_destroy ? "" : " nodestroy", i->null_data ? " NULL" : "");
        gpointer data = i->null_data ? NULL : i;
        const GUtilIdleFunc run = i->null_data ? run_null : World::run;
        const GFreeFunc destroy = i->null_data ? destroy_null : World::destroy;
        q->pending.push_back(i);
        q->adding++;
        switch (form) {
        case 2: gutil_idle_queue_add(q->q, run, data); break;
        case 0: gutil_idle_queue_add_full(q->q, run, data, destroy); break;
        case 3: gutil_idle_queue_add_tag(q->q, i->tag, run, data); break;
        case 6: gutil_idle_queue_add_tag_full(q->q, i->tag, NULL, data, destroy); break;
        default: gutil_idle_queue_add_tag_full(q->q, i->tag, run, data, destroy); break;
        }
        q->adding--;
        VP_CHECK(c, i->state == PENDING, "item %d was run while it was being queued", i->id);
        (void)may_destroy_be_null;
    }
    uintptr_t tag() {
        const uintptr_t t = c.range(0, 4);
        if (!c.chance(60)) return t;
        /* The ones which only differ in high bits */
        return c.pick({ (uintptr_t)-1, ((uintptr_t)1 << 32) + t, ((uintptr_t)1 << 63) + t, (uintptr_t)256 + t, (uintptr_t)65536 + t, ((uintptr_t)1 << 31) + t });
    }

    void add_null() {
        std::unique_ptr<Item> i(new Item());
        i->id = -1;
        i->state = CANCELLED;
        i->has_destroy = true;
        i->q = NULL;
        gutil_idle_queue_add_tag_full(NULL, 1, run, i.get(), destroy);
        VP_CHECK(c, i->state == DONE, "item added to NULL queue must be destroyed");
        gutil_idle_queue_add(NULL, run, NULL);
        gutil_idle_queue_add_full(NULL, run, NULL, NULL);
        gutil_idle_queue_add_tag(NULL, 1, run, NULL);
        VP_CHECK(c, !gutil_idle_queue_contains_tag(NULL, 1), "contains(NULL)");
        VP_CHECK(c, !gutil_idle_queue_cancel_tag(NULL, 1), "cancel(NULL)");
        gutil_idle_queue_cancel_all(NULL);
        gutil_idle_queue_free(NULL);
        gutil_idle_queue_unref(NULL);
        VP_CHECK(c, !gutil_idle_queue_ref(NULL), "ref(NULL)");
    }

    void contains(Queue* q) {
        const GUtilIdleQueueTag t = tag();
        bool expect = false;
        for (Item* i : q->pending) if (i->tag == t) expect = true;
        const bool got = gutil_idle_queue_contains_tag(q->q, t);
        VP_LOG(c, "q%d contains %#llx: %d", idx(q), (unsigned long long)t, got);
        if (got != expect) {
            if (ambiguous(q, t) && got) return;
            c.fail("contains tag %d: got %d, expected %d", (int)t, got, expect);
        }
    }

    void finished(Item* i, const char* what) {
        if (i->has_destroy) {
            VP_CHECK(c, i->state == DONE, "%s: item %d has not been destroyed", what, i->id);
        } else {
            VP_CHECK(c, i->state == CANCELLED, "%s: item %d is in wrong state", what, i->id);
            i->state = DONE;
            if (i == null_item) null_item = NULL;
        }
    }

    void cancel_tag(Queue* q) {
        const GUtilIdleQueueTag t = tag();
        if (ambiguous(q, t)) return;
        Item* found = NULL;
        for (Item* i : q->pending) if (i->tag == t) { found = i; break; }
        VP_LOG(c, "q%d cancel tag %#llx (item %d)", idx(q), (unsigned long long)t, found ? found->id : -1);
        if (found) {
            q->pending.erase(std::find(q->pending.begin(), q->pending.end(), found));
            found->state = CANCELLED;
            cancelled_some = true;
        }
        q->pins++;
        cancelling++;
        const bool got = gutil_idle_queue_cancel_tag(q->q, t);
        cancelling--;
        q->pins--;
        VP_EQ(c, got, found != NULL, "result of cancel_tag");
        if (found) finished(found, "cancel_tag");
    }

    std::vector<Item*> mark_all(Queue* q, bool may_add) {
        std::vector<Item*> list(q->pending.begin(), q->pending.end());
        for (Item* i : list) { i->state = CANCELLED; i->may_add = may_add; cancelled_some = true; }
        q->pending.clear();
        return list;
    }

    void cancel_all(Queue* q) {
        VP_LOG(c, "q%d cancel all", idx(q));
        std::vector<Item*> list = mark_all(q, true);
        q->pins++;
        cancelling++;
        gutil_idle_queue_cancel_all(q->q);
        cancelling--;
        q->pins--;
        for (Item* i : list) finished(i, "cancel_all");
    }

    void ref(Queue* q) {
        if (q->freeing) return;
        VP_CHECK(c, gutil_idle_queue_ref(q->q) == q->q, "ref");
        q->refs++;
    }

    bool can_drop(Queue* q) {
        return !q->freeing && q->refs > (q->pins ? 1 : 0);
    }

    void drop(Queue* q, bool free) {
        if (!can_drop(q)) return;
        const bool last = q->refs == 1;
        std::vector<Item*> list;
        VP_LOG(c, "q%d %s%s", idx(q), free ? "free" : "unref", last ? " (last)" : "");
        if (free || last) list = mark_all(q, free);
        q->refs--;
        if (last) {
            q->freeing = true;
            live.erase(std::find(live.begin(), live.end(), q));
            if (stack.size()) c.label("freed-from-callback");
        }
        q->pins++;
        cancelling++;
        if (free) gutil_idle_queue_free(q->q); else gutil_idle_queue_unref(q->q);
        cancelling--;
        q->pins--;
        if (free) for (Item* i : list) finished(i, "free");
        if (last) {
            /* Including those which were added by destructors */
            mark_all(q, false);
            q->dead = true;
        }
    }

    void iterate() {
        if (cancelling || looping >= 3 || ++loops > 60) return;
        VP_LOG(c, "iteration {");
        if (looping) c.label("nested-loop");
        const int outer = frame;
        looping++;
        frame = ++frames;
        g_main_context_iteration(NULL, FALSE);
        frame = outer;
        looping--;
        VP_LOG(c, "}");
        top_check();
    }

    /* Whatever was left in dead queues must be gone when nothing is running */
    void top_check() {
        if (looping || stack.size()) return;
        for (auto& i : items) {
            if (i->state == DONE || i->state == PENDING) continue;
            VP_CHECK(c, i->state == CANCELLED && i->q->dead, "item %d is stuck in state %d", i->id, i->state);
            finished(i.get(), "freed queue");
        }
    }

    void op() {
        if (live.empty()) {
            if (stack.empty() && all.size() < 6) new_queue();
            return;
        }
        Queue* q = c.pickv(live);
        switch (c.range(0, 15)) {
        default: add(q); break;
        case 5: contains(q); break;
        case 6: case 7: cancel_tag(q); break;
        case 8: cancel_all(q); break;
        case 9: ref(q); break;
        case 10: drop(q, false); break;
        case 11: drop(q, true); break;
        case 12: case 13: iterate(); break;
        case 14: if (stack.empty() && live.size() < 3 && all.size() < 6) new_queue(); break;
        case 15: if (c.chance(30)) add_null(); else iterate(); break;
        }
    }

    void callback_ops() {
        if (depth > 4) return;
        depth++;
        for (int n = c.range(0, 7) - 2; n > 0 && c.steps < 600; n--) {
            reentered = true;
            c.steps++;
            op();
        }
        depth--;
    }

    static void run(gpointer data) {
        Item* i = (Item*)data;
        Ctx& c = W->c;
        Queue* q = i->q;
        VP_CHECK(c, i->state == PENDING, "item %d is run in state %d", i->id, i->state);
        VP_CHECK(c, W->looping > 0, "item %d is run outside of the main loop", i->id);
        VP_CHECK(c, !q->adding, "item %d is run from the queueing call", i->id);
        W->drop_silent(q);
        VP_CHECK(c, q->pending.size() && q->pending.front() == i, "item %d is run out of order (must be %d)",
            i->id, q->pending.empty() ? -1 : q->pending.front()->id);
        q->pending.pop_front();
        VP_LOG(c, "run item %d {", i->id);
        W->in_turn(i);
        W->ran_some = true;
        i->state = RUNNING;
        W->stack.push_back(i);
        W->callback_ops();
        W->stack.pop_back();
        i->state = i->has_destroy ? RAN : DONE;
        VP_LOG(c, "}");
    }
    void drop_silent(Queue*) {}
    /* The main loop gets a chance to do something else before whatever was added by the callbacks */
    void in_turn(Item* i) {
        i->frame = frame;
        VP_CHECK(c, i->not_frame != frame, "item %d was queued by a callback and is run by the same iteration", i->id);
        if (i->not_frame) c.label("next-iteration");
    }
    static void run_null(gpointer p) {
        VP_CHECK(W->c, !p && W->null_item, "unexpected callback argument");
        Item* i = W->null_item;
        run(i);
        if (i->state == DONE) W->null_item = NULL;
    }
    static void destroy_null(gpointer p) {
        VP_CHECK(W->c, !p && W->null_item, "unexpected destructor argument");
        Item* i = W->null_item;
        destroy(i);
        W->null_item = NULL;
    }

    static void destroy(gpointer data) {
        Item* i = (Item*)data;
        Ctx& c = W->c;
        if (i->state == PENDING && !i->has_run) {
            /* No callback, destroyed instead of running it */
            Queue* q = i->q;
            VP_CHECK(c, W->looping > 0, "item %d is destroyed outside of the main loop", i->id);
            VP_CHECK(c, !q->adding, "item %d is destroyed by the queueing call", i->id);
            VP_CHECK(c, q->pending.front() == i, "item %d is destroyed out of order", i->id);
            q->pending.pop_front();
            W->in_turn(i);
            i->state = RAN;
        }
        VP_CHECK(c, i->state == CANCELLED || i->state == RAN, "item %d is destroyed in state %d", i->id, i->state);
        VP_LOG(c, "destroy item %d {", i->id);
        const bool cancelled = i->state == CANCELLED;
        i->state = DONE;
        W->stack.push_back(i);
        if (cancelled) W->cancelling++;
        W->callback_ops();
        if (cancelled) W->cancelling--;
        W->stack.pop_back();
        VP_LOG(c, "}");
    }

    void finish() {
        /* Everything has to run eventually */
        for (int k = 0; k < 1000; k++) {
            looping++;
            frame = ++frames;
            const bool more = g_main_context_iteration(NULL, FALSE);
            frame = 0;
            looping--;
            top_check();
            if (!more) break;
            VP_CHECK(c, k < 999, "main loop never becomes idle");
        }
        for (auto& i : items) {
            VP_CHECK(c, i->state == DONE, "item %d never ran (state %d)", i->id, i->state);
        }
        while (!live.empty()) drop(live.front(), false);
        for (int k = 0; k < 1000 && g_main_context_iteration(NULL, FALSE); k++);
        top_check();
        for (auto& i : items) {
            VP_CHECK(c, i->state == DONE, "item %d is left in state %d", i->id, i->state);
        }
    }
};

void history(Ctx& c)
{
    World w(c);
    w.new_queue();
    while (c.more() && c.steps < 600) {
        c.steps++;
        w.op();
    }
    if (w.reentered && w.ran_some && w.cancelled_some) c.nontrivial();
    if (w.reentered) c.label("re-entered");
    if (w.cancelled_some) c.label("cancelled");
    w.finish();
}

/* A lot of items. One callback or destructor does something to the queue */
struct Many {
    Ctx& c;
    GUtilIdleQueue* q;
    std::vector<uint8_t> run, gone, cancelled;
    size_t next, at, added;
    int what;       /* What's done */
    bool in_destroy, looping, freed, done;
    uint8_t have_destroy;

    struct Arg { Many* m; uint32_t i; };
    std::vector<Arg> args;

    Many(Ctx& ctx) : c(ctx), q(gutil_idle_queue_new()), next(0), at(0), added(0), what(0), in_destroy(false), looping(false),
        freed(false), done(false), have_destroy(0) {}
    bool pending(size_t i) { return !run[i] && !cancelled[i]; }
    void add(size_t i) {
        added++;
        gutil_idle_queue_add_tag_full(q, (GUtilIdleQueueTag)(i + 1), on_run, &args[i], destroyed(i) ? on_destroy : NULL);
    }
    bool destroyed(size_t i) { return have_destroy != 0 && (i % have_destroy) == 0; }
    void cancel(size_t i) {
        const bool expect = i < added && pending(i);
        if (expect) cancelled[i] = 1;
        VP_EQ(c, !!gutil_idle_queue_contains_tag(q, (GUtilIdleQueueTag)(i + 1)), false || (expect), "contains the tag");
        VP_EQ(c, !!gutil_idle_queue_cancel_tag(q, (GUtilIdleQueueTag)(i + 1)), expect, "cancel");
        if (expect) VP_EQ(c, (int)gone[i], (int)destroyed(i), "destroyed when cancelled");
    }
    void act(size_t i) {
        done = true;
        switch (what) {
        case 1: for (size_t k = 0; k < args.size() && k < 8; k++) cancel((i + 1 + k * k * 7) % args.size()); break;
        case 2: all(); gutil_idle_queue_cancel_all(q); checkall(); break;
        case 3: { all(); freed = true; GUtilIdleQueue* p = q; q = NULL; gutil_idle_queue_free(p); checkall(); break; }
        case 4: { freed = true; GUtilIdleQueue* p = q; q = NULL; all(); gutil_idle_queue_unref(p); break; }
        case 5: while (added < args.size()) add(added); break;
        }
    }
    void all() { for (size_t k = 0; k < added; k++) if (pending(k)) cancelled[k] = 1; }
    void checkall() {
        for (size_t k = 0; k < added; k++) VP_CHECK(c, !cancelled[k] || gone[k] == destroyed(k), "cancelled item %d of %d isn't destroyed", (int)k, (int)added);
    }
    static void on_run(gpointer p) {
        Arg* a = (Arg*)p;
        Many* m = a->m;
        VP_CHECK(m->c, m->looping, "item %d is run outside of the main loop", (int)a->i);
        VP_CHECK(m->c, m->pending(a->i), "item %d is run when it shouldn't be", (int)a->i);
        while (m->next < m->added && !m->pending(m->next)) m->next++;
        VP_CHECK(m->c, m->next == a->i, "item %d is run instead of %d", (int)a->i, (int)m->next);
        m->run[a->i] = 1;
        if (!m->in_destroy && a->i == m->at) m->act(a->i);
    }
    static void on_destroy(gpointer p) {
        Arg* a = (Arg*)p;
        Many* m = a->m;
        VP_CHECK(m->c, m->run[a->i] || m->cancelled[a->i], "item %d is destroyed", (int)a->i);
        VP_CHECK(m->c, !m->gone[a->i], "item %d is destroyed twice", (int)a->i);
        m->gone[a->i] = 1;
        if (m->in_destroy && a->i == m->at && m->run[a->i]) m->act(a->i);
    }
};

void many(Ctx& c)
{
    Many m(c);
    const size_t n = c.huge() * (c.chance(16) ? 8 : 1), later = c.coin() ? c.len(300) : 0;
    m.run.assign(n + later, 0);
    m.gone = m.cancelled = m.run;
    m.args.resize(n + later);
    for (size_t i = 0; i < n + later; i++) m.args[i] = { &m, (uint32_t)i };
    m.what = later ? 5 : c.range(0, 4);
    m.have_destroy = (uint8_t)c.range(0, 3);
    m.at = n ? (c.coin() ? c.range(0, 20) : c.u32()) % n : 0;
    m.in_destroy = c.coin();
    VP_LOG(c, "%d items, %d when %s item %d, then %d more", (int)n, m.what, m.in_destroy ? "destroying" : "running", (int)m.at, (int)later);
    for (size_t i = 0; i < n; i++) m.add(i);
    for (int k = c.range(0, 4); k > 0 && n; k--) m.cancel(c.coin() ? n - 1 - c.range(0, 9) % n : c.u32() % n);
    if (c.chance(40)) { m.all(); gutil_idle_queue_cancel_all(m.q); m.checkall(); }
    m.looping = true;
    size_t k = 0;
    while (g_main_context_iteration(NULL, FALSE)) VP_CHECK(c, ++k < n + later + 1000, "the main loop never becomes idle");
    m.looping = false;
    if (m.q) {
        gutil_idle_queue_unref(m.q);
        for (size_t i = 0; i < m.added; i++) VP_CHECK(c, !m.pending(i), "item %d of %d never ran", (int)i, (int)n);
    }
    for (size_t i = 0; i < m.added; i++) VP_CHECK(c, m.gone[i] == m.destroyed(i), "item %d of %d isn't destroyed", (int)i, (int)n);
    if (n > 1000) { c.nontrivial(); c.label("over-1000-items"); }
    if (n > 65536) c.label("over-65536-items");
    if (m.done && m.what) c.label("changed from a callback, many items");
}

struct FreeTest { GUtilIdleQueue* q; int runs, freed; bool unref; };

void fixed_run(gpointer p)
{
    FreeTest* t = (FreeTest*)p;
    t->runs++;
    if (t->q) {
        GUtilIdleQueue* q = t->q;
        t->q = NULL;
        if (t->unref) gutil_idle_queue_unref(q); else gutil_idle_queue_free(q);
    }
}
void fixed_destroy(gpointer p) { ((FreeTest*)p)->freed++; }

void fixed_free(Ctx& c)
{
    for (int i = 0; i < 2; i++) {
        FreeTest t = { gutil_idle_queue_new(), 0, 0, i != 0 };
        gutil_idle_queue_add_full(t.q, fixed_run, &t, fixed_destroy);
        gutil_idle_queue_add_full(t.q, fixed_run, &t, fixed_destroy);
        while (g_main_context_iteration(NULL, FALSE));
        VP_EQ(c, t.runs, 1, "number of callbacks after the queue is freed by the first one");
        VP_EQ(c, t.freed, 2, "number of destroyed items");
    }
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C08";
    p.rule = "histories of up to 600 operations (add in all forms, contains, cancel by tag, cancel all, ref, unref, free, "
        "main loop iteration) on up to 3 queues, a part of them made from within callbacks and destructors, nested main "
        "loops included, against a list model; in the end the loop must become idle with every item run or "
        "cancelled and destroyed exactly once; non-trivial = callbacks made operations, and some items ran and some were cancelled";
    p.targets = { { "history", history, 1500, 1500 }, { "many", many, 1, 60 } };
    p.fixed = { { "freed-by-callback", fixed_free } };
    p.leak_check = true;
    return p;
}
