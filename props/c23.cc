// VP-LDFLAGS: -Wl,--wrap=timerfd_create,--wrap=timerfd_settime
// VP-ASSUMES: the timer becomes readable and read fails with ECANCELED when the clock is set, as documented in timerfd_create(2); no nested main loops
/* C23: notifications about changes of the system time */
#include "vp.h"
#include "closing.h"
#include <gutil_timenotify.h>
#include <glib.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <set>
#include <time.h>
#include <unistd.h>
using namespace vp;

namespace {

/*
 * Stand-in for the timer: an event descriptor which becomes readable when
 * the clock is changed, provided that the timer has been set up for that.
 */
struct Timer {
    int fd;                     /* What the library has got */
    bool realtime;
    bool armed;                 /* Reacts to the changes of the clock */
    bool pending;               /* The clock has been changed since the last read */
};
std::vector<Timer> timers;
int fail_create, fail_settime;
bool would_block, expiring;
unsigned created;

Timer* find(int fd) {
    for (auto& t : timers) if (t.fd == fd) return &t;
    return NULL;
}
bool is_open(int fd) { return fcntl(fd, F_GETFD) >= 0; }

/* Closed ones are forgotten */
void sweep() {
    for (size_t i = 0; i < timers.size();) {
        if (is_open(timers[i].fd)) i++;
        else timers.erase(timers.begin() + i);
    }
}

struct World;
World* world;

struct Handler { gulong id; bool on; int arg; };

struct World {
    Ctx& c;
    GUtilTimeNotify* n;
    GUtilTimeNotify* prev;
    int refs;
    std::vector<Handler> h;
    std::set<int>* remaining;
    bool in_loop, works;
    bool change;                /* To be reported */
    unsigned changes, calls, actions, shared, restarted;

    World(Ctx& ctx) : c(ctx), n(NULL), prev(NULL), refs(0), remaining(NULL), in_loop(false), works(false), change(false),
        changes(0), calls(0), actions(0), shared(0), restarted(0) {}

    void reset() {
        /* No more instance */
        n = NULL;
        for (auto& x : h) x.on = false;
        change = false;
        works = false;
    }
    void request() {
        if (refs >= 8) return;
        if (!n) {
            if (c.chance(30)) (c.coin() ? fail_create : fail_settime) = c.pick({EMFILE, EINVAL, ENOMEM});
            const bool fails = fail_create || fail_settime;
            const unsigned was = created;
            n = gutil_time_notify_new();
            VP_LOG(c, "new%s", fail_create ? " (no timer)" : fail_settime ? " (can't set the timer)" : "");
            VP_CHECK(c, n != NULL, "no instance");
            VP_EQ(c, created, was + !fail_create, "number of timers created");
            fail_create = fail_settime = 0;
            works = !fails;
            if (works) {
                bool armed = false;
                sweep();
                for (auto& t : timers) armed |= t.armed;
                VP_CHECK(c, armed, "the timer isn't set up to watch the clock");
            }
            if (restarted++) c.label("new instance after the last reference");
        } else {
            GUtilTimeNotify* p = gutil_time_notify_new();
            VP_LOG(c, "share");
            VP_CHECK(c, p == n, "the notifier isn't shared");
            shared++;
        }
        refs++;
    }
    void unref() {
        if (!refs) return;
        VP_LOG(c, "unref (%d)", refs - 1);
        const bool last = !--refs;
        gutil_time_notify_unref(n);
        if (last && !in_loop) gone();
    }
    void gone() {
        reset();
        sweep();
        VP_CHECK(c, timers.empty(), "the timer is still open after the last reference is gone");
    }
    void add() {
        if (!refs || h.size() >= 30) return;
        const int k = (int)h.size();
        /* The same function may be registered several times for the same object */
        const int arg = (k && c.chance(40)) ? h[c.range(0, k - 1)].arg : k;
        Handler x = { gutil_time_notify_add_handler(n, cb, GINT_TO_POINTER(arg)), true, arg };
        VP_LOG(c, "handler %d%s", k, arg == k ? "" : " (same as another one)");
        VP_CHECK(c, x.id != 0, "can't add the handler");
        for (auto& y : h) VP_CHECK(c, !y.on || y.id != x.id, "duplicate handler id");
        h.push_back(x);
    }
    void remove(int k) {
        if (!refs || k < 0 || k >= (int)h.size() || !h[k].on || mixed(k)) return;
        VP_LOG(c, "remove handler %d", k);
        h[k].on = false;
        if (remaining) remaining->erase(k);
        gutil_time_notify_remove_handler(n, h[k].id);
    }
    int any() {
        std::vector<int> l;
        for (size_t i = 0; i < h.size(); i++) if (h[i].on) l.push_back((int)i);
        return l.empty() ? -1 : c.pickv(l);
    }
    void set_clock() {
        changes++;
        VP_LOG(c, "the clock has been set");
        sweep();
        for (auto& t : timers) {
            if (t.armed && !t.pending) {
                const uint64_t one = 1;
                t.pending = true;
                (void)!write(t.fd, &one, sizeof(one));
            }
        }
        if (n && works) change = true;
    }
    /* It's not known which one of the equal handlers has been called already */
    bool mixed(int k) {
        bool yes = false, no = false;
        if (remaining) {
            for (size_t i = 0; i < h.size(); i++) if (h[i].on && h[i].arg == h[k].arg) (remaining->count(i) ? yes : no) = true;
        }
        return yes && no;
    }
    int which(int arg) {
        for (size_t i = 0; i < h.size(); i++) if (h[i].on && h[i].arg == arg && (!remaining || remaining->count(i))) return (int)i;
        for (size_t i = 0; i < h.size(); i++) if (h[i].on && h[i].arg == arg) return (int)i;
        return arg;
    }
    static void cb(GUtilTimeNotify* p, void* arg) { world->called(p, world->which(GPOINTER_TO_INT(arg))); }
    std::set<int> rem;
    void called(GUtilTimeNotify* p, int k) {
        VP_LOG(c, "  handler %d", k);
        VP_CHECK(c, in_loop, "called not from the main loop");
        VP_CHECK(c, p == n, "wrong pointer");
        VP_CHECK(c, h[k].on, "handler %d is called after it was removed", k);
        if (!remaining) start();
        if (!remaining->count(k)) {
            /* Must be the next one */
            finish();
            start();
            VP_CHECK(c, remaining->count(k), "handler %d is called when it shouldn't be", k);
        }
        remaining->erase(k);
        calls++;
        if (c.chance(70)) act(k);
    }
    void start() {
        VP_CHECK(c, change, "notification without a change");
        change = false;
        remaining = &rem;
        for (size_t i = 0; i < h.size(); i++) if (h[i].on) rem.insert((int)i);
    }
    void finish() {
        if (remaining) {
            /* If everyone is gone, it doesn't matter */
            VP_CHECK(c, rem.empty() || !refs, "%d handler(s) weren't called", (int)rem.size());
            remaining = NULL;
            rem.clear();
        }
    }
    void loop() {
        VP_LOG(c, "loop");
        for (int i = 0;; i++) {
            VP_CHECK(c, i < 200, "the main loop never becomes idle");
            in_loop = true;
            const bool more = g_main_context_iteration(NULL, FALSE);
            in_loop = false;
            finish();
            if (n && !refs) gone();
            if (!more) break;
        }
        VP_CHECK(c, !would_block, "read would block");
        if (change) {
            int left = 0;
            for (auto& x : h) left += x.on;
            VP_CHECK(c, !left, "%d handler(s) weren't notified about the change", left);
            change = false;
        }
        for (auto& t : timers) VP_CHECK(c, !t.pending || !t.armed || !n, "the change wasn't read");
    }
    void act(int k) {
        actions++;
        switch (c.range(0, 7)) {
        case 0: remove(k); break;
        case 1: remove(any()); break;
        case 2: add(); break;
        case 3: unref(); break;
        case 4: request(); break;
        case 5: while (refs) unref(); break;
        case 6: if (refs) { while (refs) unref(); request(); } break;
        case 7: if (changes < 40) set_clock(); break;
        }
    }
};

void nulls(Ctx& c, World& w)
{
    gutil_time_notify_unref(NULL);
    gutil_time_notify_remove_handler(NULL, 1);
    VP_CHECK(c, !gutil_time_notify_ref(NULL) && !gutil_time_notify_add_handler(NULL, World::cb, NULL), "NULL notifier");
    if (w.refs) {
        VP_EQ(c, gutil_time_notify_add_handler(w.n, NULL, NULL), 0, "NULL handler");
        gutil_time_notify_remove_handler(w.n, 0);
    }
}

void history(Ctx& c)
{
    World w(c);
    ClosingCheck closing(c);
    world = &w;
    would_block = expiring = false;
    if (c.chance(200)) {
        w.request();
        for (int k = c.range(0, 3); k > 0; k--) w.add();
    }
    Swarm s(c, 10);
    while (c.more() && c.steps++ < 80) {
        switch (s.op(c)) {
        case 0: w.request(); break;
        case 1: w.unref(); break;
        case 2: if (w.refs && w.refs < 8) { VP_CHECK(c, gutil_time_notify_ref(w.n) == w.n, "ref"); w.refs++; } break;
        case 3: case 4: w.add(); break;
        case 5: w.remove(w.any()); break;
        case 6: w.set_clock(); break;
        case 7: case 8: w.loop(); break;
        case 9: nulls(c, w); break;
        }
        VP_CHECK(c, !expiring, "the timer which would expire");
    }
    w.loop();
    while (w.refs) w.unref();
    w.loop();
    sweep();
    VP_CHECK(c, timers.empty(), "the timer is still open");
    closing.done();
    if (w.calls > 1) c.nontrivial();
    if (w.actions) c.label("changes made by handlers");
    if (w.shared) c.label("shared");
    world = NULL;
}

} // namespace

extern "C" {

int __real_timerfd_create(int clock, int flags);
int __real_timerfd_settime(int fd, int flags, const struct itimerspec*, struct itimerspec*);

int __wrap_timerfd_create(int clock, int flags) {
    if (fail_create) { errno = fail_create; return -1; }
    /* Parameters are validated by the real thing */
    const int fd = __real_timerfd_create(clock, flags);
    if (fd < 0) return fd;
    const int ev = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
    close(fd);
    if (ev < 0) return ev;
    sweep();
    Timer t = { ev, clock == CLOCK_REALTIME || clock == CLOCK_REALTIME_ALARM, false, false };
    timers.push_back(t);
    created++;
    return ev;
}

int __wrap_timerfd_settime(int fd, int flags, const struct itimerspec* its, struct itimerspec* old) {
    if (fail_settime) { errno = fail_settime; return -1; }
    Timer* t = find(fd);
    if (!t) { errno = EBADF; return -1; }
    const int real = __real_timerfd_create(CLOCK_REALTIME, 0);
    if (real < 0) return real;
    const int ret = __real_timerfd_settime(real, flags, its, old);
    const int err = errno;
    close(real);
    errno = err;
    if (ret < 0) return ret;
    /* TFD_TIMER_CANCEL_ON_SET only works with TFD_TIMER_ABSTIME, and the timer must be ticking */
    t->armed = t->realtime && (flags & TFD_TIMER_CANCEL_ON_SET) && (flags & TFD_TIMER_ABSTIME) && (its->it_value.tv_sec || its->it_value.tv_nsec);
    if (t->armed && its->it_value.tv_sec < time(NULL) + 10ll * 365 * 24 * 3600) expiring = true;
    return 0;
}

/* Called by glib */
ssize_t read(int fd, void* buf, size_t n) {
    Timer* t = find(fd);
    if (t) {
        uint64_t x;
        if (!t->pending) { would_block = true; errno = EAGAIN; return -1; }
        if (n < 8) { errno = EINVAL; return -1; }
        (void)!syscall(SYS_read, fd, &x, sizeof(x));
        t->pending = false;
        errno = ECANCELED;
        return -1;
    }
    return syscall(SYS_read, fd, buf, n);
}

}

Property vp::property()
{
    Property p = {};
    p.id = "C23";
    p.rule = "histories of requesting, referencing and releasing the notifier, adding and removing handlers, setting the clock (of a stand-in for "
        "timerfd) and running the main loop, with handlers doing the same and the timer being unavailable at times; non-trivial = 2+ handler calls";
    p.targets = { { "history", history, 1, 300 } };
    p.leak_check = true;
    return p;
}
