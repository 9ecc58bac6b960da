// VP-LDFLAGS: -Wl,--wrap=inotify_init,--wrap=inotify_init1,--wrap=inotify_add_watch
// VP-SHARDS: 32
// VP-ASSUMES: no two live watches for the same inode (known finding); identical consecutive events may be merged by the kernel; no nested main loops
/* C22: filesystem watches */
#include "vp.h"
#include "closing.h"
#include <gutil_inotify.h>
#include <glib.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <map>
#include <set>
#include <stdlib.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;

namespace {

int raw = -1;                   /* The reference inotify descriptor */
std::set<int> lib_fds;          /* Descriptors created by the library */
int fail_init, fail_add;        /* Fault injection, errno */
bool really_failed;             /* No resources, not injected */

struct Ev {
    int w;
    guint mask, cookie;
    bool has_name;
    std::string name;
    bool maybe, absent;
    bool same(const Ev& e) const { return w == e.w && mask == e.mask && has_name == e.has_name && name == e.name; }
};

struct World;
World* world;

struct Handler { int w; gulong id; bool on; bool cb; int arg; };
struct Watch {
    GUtilInotifyWatch* w;       /* NULL for GUtilInotifyWatchCallback until it's called */
    GUtilInotifyWatchCallback* cb;
    int refs;                   /* The ones which we hold */
    bool alive, destroyed;
    int wd;
    dev_t dev;
    ino_t ino;
    std::vector<int> h;
};

const char* const NAMES[] = { "f0", "f1", "f2", "x", NULL /* the long one */ };
std::string long_name;
enum { NNAMES = 5, NDIRS = 2 };

std::string root;

struct World {
    Ctx& c;
    std::vector<Watch> w;
    std::vector<Handler> h;
    std::map<int, int> by_wd;
    std::vector<Ev> q;          /* What the system has reported */
    /*
     * Possible positions of the first one which hasn't been delivered (or
     * dropped) yet. There's more than one if it's not clear which events
     * have been merged by the kernel
     */
    std::set<size_t> heads;
    /* Current emission */
    int cur;
    Ev cur_ev;
    std::set<int> remaining;
    unsigned delivered, actions, depth;
    bool in_loop;

    World(Ctx& ctx) : c(ctx), heads({0}), cur(-1), delivered(0), actions(0), depth(0), in_loop(false) {}

    /*---------------------------------------------------------------------
     * Model
     *---------------------------------------------------------------------*/
    void pull() {
        union { struct inotify_event e; char b[16384]; } u;
        ssize_t n;
        while ((n = read(raw, &u, sizeof(u))) > 0) {
            for (ssize_t p = 0; p < n;) {
                const struct inotify_event* e = (const struct inotify_event*)(u.b + p);
                p += sizeof(*e) + e->len;
                auto it = by_wd.find(e->wd);
                if (it == by_wd.end()) continue;
                Ev v = Ev();
                v.w = it->second;
                v.mask = e->mask;
                v.cookie = e->cookie;
                v.has_name = e->len != 0;
                if (e->len) v.name = e->name;
                q.push_back(v);
            }
        }
    }
    bool expects(int i) {
        if (!w[i].alive) return false;
        for (int k : w[i].h) if (h[k].on) return true;
        return false;
    }
    /* Could have been merged with the previous one */
    bool optional(size_t i) {
        if (q[i].maybe) return true;
        while (i > 0 && q[i - 1].absent) i--;
        return i > 0 && q[i].same(q[i - 1]);
    }
    /*
     * The watch dropped by its own handler remains until the handler returns.
     * The one which was created meanwhile for the same inode takes over its
     * descriptor, together with the events which may be still there (see the
     * same-inode finding)
     */
    void take_over(int from, int to) {
        for (size_t p = *heads.begin(); p < q.size(); p++) {
            if (q[p].w == from) {
                q[p].w = to;
                q[p].maybe = true;
                if (q[p].mask & IN_IGNORED) q[p].absent = true;
            }
        }
    }
    void end_emission() {
        if (cur >= 0) {
            VP_CHECK(c, remaining.empty() || !w[cur].alive, "%d handler(s) of watch %d missed event 0x%x %s", (int)remaining.size(), cur,
                cur_ev.mask, cur_ev.name.c_str());
            cur = -1;
            remaining.clear();
        }
    }
    std::string shortname(const std::string& s) { return s.size() > 20 ? s.substr(0, 20) + ".." : s; }
    void event(int k, GUtilInotifyWatch* watch, guint mask, guint cookie, const char* name) {
        pull();
        VP_CHECK(c, in_loop, "handler %d is called not from the main loop", k);
        VP_CHECK(c, h[k].on, "handler %d is called after it was removed", k);
        const int i = h[k].w;
        Watch& x = w[i];
        if (!x.w) x.w = watch;
        VP_CHECK(c, x.w == watch, "wrong watch pointer");
        VP_LOG(c, "  handler %d of watch %d: event 0x%x %s", k, i, mask, name ? shortname(name).c_str() : "(null)");
        Ev e = Ev();
        e.w = i;
        e.mask = mask;
        e.cookie = cookie;
        e.has_name = name != NULL;
        e.name = name ? name : "";
        if (cur >= 0 && cur == i && remaining.count(k)) {
            VP_CHECK(c, e.same(cur_ev) && e.cookie == cur_ev.cookie, "handler %d got different event", k);
            remaining.erase(k);
        } else {
            end_emission();
            VP_CHECK(c, x.alive, "event for watch %d which is gone", i);
            std::set<size_t> next;
            size_t stuck = q.size();
            for (size_t p : heads) {
                for (; p < q.size(); p++) {
                    if (q[p].same(e) && q[p].cookie == e.cookie) next.insert(p + 1);
                    if (expects(q[p].w) && !optional(p)) { stuck = p; break; }
                }
            }
            if (next.empty()) {
                VP_CHECK(c, stuck < q.size(), "event 0x%x %s for watch %d which didn't happen", mask, e.name.c_str(), i);
                const Ev& n = q[stuck];
                c.fail("event 0x%x %s for watch %d instead of 0x%x %s for watch %d", mask, e.name.c_str(), i, n.mask,
                    n.name.c_str(), n.w);
            }
            heads.swap(next);
            cur = i;
            cur_ev = e;
            for (int j : x.h) if (h[j].on) remaining.insert(j);
            remaining.erase(k);
            delivered++;
        }
        if (c.chance(50)) act(k);
    }
    static void cb(GUtilInotifyWatch* watch, guint mask, guint cookie, const char* name, void* arg) {
        world->event(world->which(GPOINTER_TO_INT(arg)), watch, mask, cookie, name);
    }
    /* It's not known which one of the equal handlers has been called already */
    bool mixed(int k) {
        bool yes = false, no = false;
        if (cur == h[k].w) {
            for (int i : w[cur].h) if (h[i].on && h[i].arg == h[k].arg) (remaining.count(i) ? yes : no) = true;
        }
        return yes && no;
    }
    int which(int arg) {
        const Watch& x = w[h[arg].w];
        for (int i : x.h) if (h[i].on && h[i].arg == arg && (cur != h[arg].w || remaining.count(i))) return i;
        for (int i : x.h) if (h[i].on && h[i].arg == arg) return i;
        return arg;
    }
    void loop() {
        int n = 0;
        in_loop = true;
        while (g_main_context_iteration(NULL, FALSE)) VP_CHECK(c, ++n < 2000, "the main loop never becomes idle");
        in_loop = false;
        end_emission();
        pull();
        size_t stuck = 0;
        bool done = false;
        for (size_t p : heads) {
            while (p < q.size() && (!expects(q[p].w) || optional(p))) p++;
            if (p == q.size()) { done = true; break; }
            stuck = p;
        }
        VP_CHECK(c, done, "event 0x%x %s for watch %d wasn't delivered", q[stuck].mask, q[stuck].name.c_str(), q[stuck].w);
        heads.clear();
        heads.insert(q.size());
    }

    /*---------------------------------------------------------------------
     * Watches
     *---------------------------------------------------------------------*/
    std::string name(int i) { return NAMES[i] ? std::string(NAMES[i]) : long_name; }
    std::string dir(int i) { return root + "/d" + (char)('0' + i); }
    std::string path() { return dir(c.range(0, NDIRS - 1)) + "/" + name(c.range(0, NNAMES - 1)); }
    guint mask() {
        switch (c.range(0, 5)) {
        default: return IN_ALL_EVENTS;
        case 1: return IN_CREATE | IN_DELETE | IN_MOVED_FROM | IN_MOVED_TO;
        case 2: return IN_MODIFY | IN_CLOSE_WRITE | IN_ATTRIB | IN_DELETE_SELF | IN_MOVE_SELF;
        case 3: return 1u << c.range(0, 11);
        case 4: return (c.u16() & IN_ALL_EVENTS) | c.pick<guint>({0, IN_EXCL_UNLINK, IN_DONT_FOLLOW});
        case 5: return IN_ALL_EVENTS | c.pick<guint>({IN_ONESHOT, IN_ONLYDIR, 0});
        }
    }
    void create() {
        if (w.size() >= 12) return;
        const int k = c.range(0, 9);
        const std::string p = k < 4 ? dir(k & 1) : k == 4 ? root : k == 5 ? dir(0) + "/missing" : path();
        const guint m = mask();
        struct stat st;
        Watch x = {};
        if (!stat(p.c_str(), &st)) {
            for (auto& y : w) if (y.alive && y.dev == st.st_dev && y.ino == st.st_ino) return;
            x.dev = st.st_dev;
            x.ino = st.st_ino;
        }
        if (c.chance(6)) {
            fail_init = c.coin() ? EMFILE : 0;
            fail_add = c.pick({ENOSPC, EACCES, ENOMEM});
        }
        really_failed = false;
        bool fail = fail_init || fail_add;
        const bool null = c.chance(4), as_cb = c.chance(80);
        const int hidx = (int)h.size();
        if (as_cb) x.cb = gutil_inotify_watch_callback_new(null ? NULL : p.c_str(), m, cb, GINT_TO_POINTER(hidx));
        else x.w = gutil_inotify_watch_new(null ? NULL : p.c_str(), m);
        const bool created = x.cb || x.w;
        fail_init = fail_add = 0;
        if (really_failed) fail = true;
        x.wd = (null || fail) ? -1 : inotify_add_watch(raw, p.c_str(), m);
        VP_LOG(c, "watch %d%s: %s mask 0x%x%s", (int)w.size(), as_cb ? " (callback)" : "", shortname(p.substr(root.size())).c_str(), m,
            null ? " NULL" : fail ? " failed" : x.wd < 0 ? " impossible" : "");
        VP_CHECK(c, created == (x.wd >= 0), "the watch was%s created", created ? "" : "n't");
        if (!created) {
            if (!any_left()) check_closed();
            return;
        }
        x.refs = 1;
        x.alive = true;
        if (as_cb) {
            Handler y = { (int)w.size(), 0, true, true, hidx };
            h.push_back(y);
            x.h.push_back(hidx);
        }
        by_wd[x.wd] = (int)w.size();
        if (in_loop && cur >= 0 && !w[cur].alive && !w[cur].destroyed && w[cur].dev == x.dev && w[cur].ino == x.ino) {
            pull();
            take_over(cur, (int)w.size());
        }
        w.push_back(x);
    }
    bool any_left() {
        for (auto& x : w) if (x.refs) return true;
        return false;
    }
    void check_closed() {
        if (in_loop) return;    /* It may be still in use */
        for (int fd : lib_fds) VP_CHECK(c, fcntl(fd, F_GETFD) < 0 && errno == EBADF, "the descriptor is still open");
        lib_fds.clear();
    }
    void gone(int i) {
        if (w[i].alive) {
            pull();
            w[i].alive = false;
            inotify_rm_watch(raw, w[i].wd);
            pull();
        }
    }
    int pickw(bool plain) {
        std::vector<int> l;
        for (size_t i = 0; i < w.size(); i++) if (w[i].refs && (!plain || !w[i].cb)) l.push_back((int)i);
        return l.empty() ? -1 : c.pickv(l);
    }
    void add(int i) {
        if (i < 0 || h.size() >= 40) return;
        const int k = (int)h.size();
        /* The same function may be registered several times for the same object */
        const int arg = (w[i].h.size() && c.chance(40)) ? h[c.pickv(w[i].h)].arg : k;
        Handler y = { i, 0, true, false, arg };
        y.id = gutil_inotify_watch_add_handler(w[i].w, cb, GINT_TO_POINTER(arg));
        VP_CHECK(c, y.id != 0, "can't add a handler");
        h.push_back(y);
        w[i].h.push_back(k);
        VP_LOG(c, "handler %d for watch %d%s", k, i, arg == k ? "" : " (same as another one)");
    }
    void remove(int k) {
        if (k < 0 || !h[k].on || h[k].cb) return;
        if (!w[h[k].w].refs || mixed(k)) return;
        VP_LOG(c, "remove handler %d of watch %d", k, h[k].w);
        h[k].on = false;
        remaining.erase(k);
        gutil_inotify_watch_remove_handler(w[h[k].w].w, h[k].id);
    }
    void release(int i, bool destroy) {
        if (i < 0) return;
        Watch& x = w[i];
        VP_LOG(c, "%s watch %d", x.cb ? "free callback" : destroy ? "destroy" : "unref", i);
        if (x.cb) {
            GUtilInotifyWatchCallback* p = x.cb;
            for (int k : x.h) if (h[k].cb) { h[k].on = false; remaining.erase(k); }
            x.refs = 0;
            gone(i);
            x.cb = NULL;
            gutil_inotify_watch_callback_free(p);
        } else {
            if (!--x.refs || destroy) gone(i);
            if (destroy) {
                x.destroyed = true;
                gutil_inotify_watch_destroy(x.w);
            } else gutil_inotify_watch_unref(x.w);
        }
        if (!any_left()) check_closed();
    }
    void act(int k) {
        actions++;
        switch (c.range(0, 9)) {
        case 0: remove(k); break;
        case 1: remove(c.range(0, (int)h.size() - 1)); break;
        case 2: release(w[h[k].w].refs ? h[k].w : -1, true); break;
        case 3: release(w[h[k].w].refs ? h[k].w : -1, false); break;
        case 4: release(pickw(false), c.coin()); break;
        case 5: create(); break;
        case 6: add(pickw(true)); break;
        case 7: if (c.coin()) while (any_left()) release(pickw(false), c.coin()); break;
        default: change();
        }
    }

    /*---------------------------------------------------------------------
     * Filesystem
     *---------------------------------------------------------------------*/
    void change() {
        const std::string p = path();
        const int k = c.range(0, 11);
        int fd;
        switch (k) {
        case 0: case 1: fd = open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600); if (fd >= 0) close(fd); break;
        case 2: fd = open(p.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_CLOEXEC, 0600); if (fd >= 0) { (void)!write(fd, "x", 1); close(fd); } break;
        case 3: (void)!truncate(p.c_str(), c.range(0, 3)); break;
        case 4: (void)!chmod(p.c_str(), c.coin() ? 0600 : 0700); break;
        case 5: (void)!unlink(p.c_str()); break;
        case 6: case 7: {
            const std::string t = path();
            (void)!rename(p.c_str(), t.c_str());
            VP_LOG(c, "rename %s %s", shortname(p.substr(root.size())).c_str(), shortname(t.substr(root.size())).c_str());
            pull();
            return;
        }
        case 8: fd = open(p.c_str(), O_RDONLY | O_CLOEXEC); if (fd >= 0) { char b[4]; (void)!read(fd, b, 4); close(fd); } break;
        case 9: { const std::string d = dir(c.range(0, NDIRS - 1)) + "/sub"; if (rmdir(d.c_str())) (void)!mkdir(d.c_str(), 0700); break; }
        case 10: { const std::string t = path(); (void)!link(p.c_str(), t.c_str()); break; }
        case 11: (void)!chmod(dir(c.range(0, NDIRS - 1)).c_str(), 0700); break;
        }
        VP_LOG(c, "change %d %s", k, shortname(p.substr(root.size())).c_str());
        pull();
    }
    void clean() {
        for (int d = 0; d < NDIRS; d++) {
            for (int i = 0; i < NNAMES; i++) (void)!unlink((dir(d) + "/" + name(i)).c_str());
            (void)!rmdir((dir(d) + "/sub").c_str());
        }
    }
};

void init()
{
    raw = inotify_init1(IN_NONBLOCK | IN_CLOEXEC);
    lib_fds.clear();
    long_name = std::string(NAME_MAX, 'l');
}

void history(Ctx& c)
{
    World w(c);
    ClosingCheck closing(c);
    if (raw < 0) return;    /* No resources */
    world = &w;
    if (root.empty()) {
        root = scratch();
        for (int i = 0; i < NDIRS; i++) if (mkdir(w.dir(i).c_str(), 0700)) abort();
    }
    /* Usually there's something to begin with */
    for (int n = c.pick({0, 1, 1, 2, 3}); n > 0; n--) {
        w.create();
        if (!c.chance(30)) w.add(w.pickw(true));
    }
    Swarm s(c, 16);
    while (c.more() && c.steps++ < 60) {
        switch (s.op(c)) {
        case 0: case 1: w.create(); break;
        case 2: case 3: w.add(w.pickw(true)); break;
        case 4: if (w.h.size()) w.remove(c.range(0, (int)w.h.size() - 1)); break;
        case 5: w.release(w.pickw(false), c.coin()); break;
        case 6: {
            const int i = w.pickw(true);
            if (i >= 0) {
                VP_LOG(c, "ref watch %d", i);
                VP_CHECK(c, gutil_inotify_watch_ref(w.w[i].w) == w.w[i].w, "ref");
                w.w[i].refs++;
            }
            break;
        }
        case 7: case 8: VP_LOG(c, "loop"); w.loop(); break;
        case 9: {
            const int i = w.pickw(true);
            /* Nothing happens */
            gutil_inotify_watch_destroy(NULL);
            gutil_inotify_watch_unref(NULL);
            gutil_inotify_watch_callback_free(NULL);
            gutil_inotify_watch_remove_handler(NULL, 1);
            if (i >= 0) gutil_inotify_watch_remove_handler(w.w[i].w, 0);
            VP_CHECK(c, !gutil_inotify_watch_ref(NULL) && !gutil_inotify_watch_add_handler(NULL, World::cb, NULL) &&
                (i < 0 || !gutil_inotify_watch_add_handler(w.w[i].w, NULL, NULL)) && !gutil_inotify_watch_new(NULL, IN_ALL_EVENTS) &&
                !gutil_inotify_watch_callback_new(NULL, IN_ALL_EVENTS, World::cb, NULL), "NULL parameters");
            break;
        }
        default: w.change(); break;
        }
    }
    w.loop();
    while (w.any_left()) w.release(w.pickw(false), c.coin());
    w.check_closed();
    w.loop();
    closing.done();
    w.clean();
    /* Forget everything about the raw watches */
    for (auto& x : w.w) if (x.alive) inotify_rm_watch(raw, x.wd);
    w.pull();
    if (w.delivered > 1) c.nontrivial();
    if (w.actions) c.label("changes made by handlers");
    if (w.delivered > 10) c.label("10+ events");
    world = NULL;
}

void count_cb(GUtilInotifyWatch*, guint, guint, const char*, void* arg) { (*(unsigned*)arg)++; }

/* Two watches for the same file share the watch descriptor */
void fixed_same_inode(Ctx& c)
{
    const std::string d = std::string(scratch()) + "/same";
    if (mkdir(d.c_str(), 0700)) abort();
    unsigned n1 = 0, n2 = 0;
    GUtilInotifyWatchCallback* w1 = gutil_inotify_watch_callback_new(d.c_str(), IN_CREATE, count_cb, &n1);
    GUtilInotifyWatchCallback* w2 = gutil_inotify_watch_callback_new(d.c_str(), IN_CREATE, count_cb, &n2);
    if (mkdir((d + "/x").c_str(), 0700)) abort();
    while (g_main_context_iteration(NULL, FALSE));
    rmdir((d + "/x").c_str());
    rmdir(d.c_str());
    VP_EQ(c, n1, 1, "number of events seen by the first watch");
    VP_EQ(c, n2, 1, "number of events seen by the second watch");
    gutil_inotify_watch_callback_free(w1);
    gutil_inotify_watch_callback_free(w2);
}

struct Again {
    std::string d;
    GUtilInotifyWatchCallback* w;
    GUtilInotifyWatchCallback* w2;
    unsigned n;
};
void again_cb(GUtilInotifyWatch*, guint, guint, const char*, void* arg)
{
    Again* a = (Again*)arg;
    if (!a->w) return;
    gutil_inotify_watch_callback_free(a->w);
    a->w = NULL;
    a->w2 = gutil_inotify_watch_callback_new(a->d.c_str(), IN_CREATE, count_cb, &a->n);
}

/* The handler replaces its watch with another one for the same directory */
void fixed_replaced(Ctx& c)
{
    Again a = { std::string(scratch()) + "/again", NULL, NULL, 0 };
    if (mkdir(a.d.c_str(), 0700)) abort();
    a.w = gutil_inotify_watch_callback_new(a.d.c_str(), IN_CREATE, again_cb, &a);
    if (mkdir((a.d + "/x").c_str(), 0700)) abort();
    while (g_main_context_iteration(NULL, FALSE));
    if (mkdir((a.d + "/y").c_str(), 0700)) abort();
    while (g_main_context_iteration(NULL, FALSE));
    rmdir((a.d + "/x").c_str());
    rmdir((a.d + "/y").c_str());
    rmdir(a.d.c_str());
    VP_CHECK(c, a.w2 != NULL, "the second watch");
    VP_EQ(c, a.n, 1, "number of events seen by the second watch");
    gutil_inotify_watch_callback_free(a.w2);
}

struct Flood {
    const GUtilInotifyWatch* w[2];
    std::vector<std::pair<int, guint> > ev;
};
void flood_cb(GUtilInotifyWatch* w, guint mask, guint, const char*, void* arg)
{
    Flood* f = (Flood*)arg;
    f->ev.push_back(std::make_pair(w == f->w[0] ? 0 : w == f->w[1] ? 1 : -1, mask));
}

/* More events than the system can keep */
void fixed_overflow(Ctx& c)
{
    unsigned max = 0;
    FILE* conf = fopen("/proc/sys/fs/inotify/max_queued_events", "r");
    if (conf) { if (fscanf(conf, "%u", &max) != 1) max = 0; fclose(conf); }
    if (!max || max > 300000) max = 20000;
    const int ref = inotify_init1(IN_NONBLOCK | IN_CLOEXEC);
    if (ref < 0) return;    /* No resources */
    Flood f;
    GUtilInotifyWatch* w[2];
    std::string d[2];
    int wd[2];
    for (int i = 0; i < 2; i++) {
        d[i] = std::string(scratch()) + "/flood" + (char)('0' + i);
        if (mkdir(d[i].c_str(), 0700)) abort();
        f.w[i] = w[i] = gutil_inotify_watch_new(d[i].c_str(), IN_ATTRIB);
        wd[i] = inotify_add_watch(ref, d[i].c_str(), IN_ATTRIB);
        VP_CHECK(c, w[i] && wd[i] >= 0, "the watch wasn't created");
        gutil_inotify_watch_add_handler(w[i], flood_cb, &f);
    }
    for (int round = 0; round < 3; round++) {
        const unsigned n = round == 1 ? max + 100 : 10;
        std::vector<std::pair<int, guint> > expected;
        bool overflow = false;
        for (unsigned i = 0; i < n; i++) if (chmod(d[i % 2].c_str(), 0700)) abort();
        union { struct inotify_event e; char b[16384]; } u;
        ssize_t got;
        while ((got = read(ref, &u, sizeof(u))) > 0) {
            for (ssize_t p = 0; p < got;) {
                const struct inotify_event* e = (const struct inotify_event*)(u.b + p);
                p += sizeof(*e) + e->len;
                if (e->wd == wd[0]) expected.push_back(std::make_pair(0, e->mask));
                else if (e->wd == wd[1]) expected.push_back(std::make_pair(1, e->mask));
                else overflow = true;
            }
        }
        if (overflow) c.label("queue overflow");
        f.ev.clear();
        unsigned k = 0;
        while (g_main_context_iteration(NULL, FALSE)) VP_CHECK(c, ++k < 2 * max, "the main loop never becomes idle");
        VP_EQ(c, f.ev.size(), expected.size(), "number of events");
        for (size_t i = 0; i < expected.size(); i++)
            VP_CHECK(c, f.ev[i] == expected[i], "event %d is 0x%x for watch %d, expected 0x%x for watch %d", (int)i,
                f.ev[i].second, f.ev[i].first, expected[i].second, expected[i].first);
    }
    for (int i = 0; i < 2; i++) {
        gutil_inotify_watch_unref(w[i]);
        rmdir(d[i].c_str());
    }
    close(ref);
}

struct Crowd {
    std::vector<std::pair<int, const GUtilInotifyWatch*> > got;
    struct Arg { Crowd* crowd; int i; };
};
void crowd_cb(GUtilInotifyWatch* w, guint mask, guint, const char*, void* arg)
{
    const Crowd::Arg* a = (Crowd::Arg*)arg;
    if (!(mask & IN_IGNORED)) a->crowd->got.push_back(std::make_pair(a->i, w));
}

/* A lot of watches, or just a few which stay among a lot of those which come and go */
void many(Ctx& c)
{
    static unsigned made;
    const unsigned n = c.chance(30) ? c.range(1, 1200) : c.range(1, 30);
    const unsigned first = c.range(0, n);
    /* Closing the descriptor, which happens when no watches are left, is slow */
    const unsigned churn = !first ? c.range(0, 5) : c.chance(100) ? c.pick({256, 512, 2048, 32768, 65536}) - c.range(0, std::min(n, 200u)) : c.len(400);
    std::string base = std::string(scratch()) + "/many";
    auto path = [&](unsigned i) { return base + "/" + std::to_string(i); };
    if (!made) mkdir(base.c_str(), 0700);
    while (made <= n) if (mkdir(path(made++).c_str(), 0700)) abort();
    Crowd crowd;
    std::vector<GUtilInotifyWatch*> w(n, NULL);
    std::vector<Crowd::Arg> arg(n);
    auto run = [&] {
        unsigned k = 0;
        while (g_main_context_iteration(NULL, FALSE)) VP_CHECK(c, ++k < 1000000, "the main loop never becomes idle");
    };
    auto cleanup = [&] { for (auto& x : w) { gutil_inotify_watch_unref(x); x = NULL; } };
    really_failed = false;
    VP_LOG(c, "%u watches, %u more come and go after %u", n, churn, first);
    for (unsigned i = 0; i <= n && !really_failed; i++) {
        if (i == first) {
            const std::string p = path(n);
            for (unsigned k = 0; k < churn && !really_failed; k++) {
                GUtilInotifyWatch* x = gutil_inotify_watch_new(p.c_str(), IN_ATTRIB);
                if (!x) break;
                if (k & 1) gutil_inotify_watch_destroy(x);
                else gutil_inotify_watch_unref(x);
                if (!(k % 1000)) run();
            }
        }
        if (i == n) break;
        w[i] = gutil_inotify_watch_new(path(i).c_str(), IN_ATTRIB);
        if (!w[i]) break;
        arg[i].crowd = &crowd;
        arg[i].i = (int)i;
        VP_CHECK(c, gutil_inotify_watch_add_handler(w[i], crowd_cb, &arg[i]) != 0, "the handler isn't added");
    }
    if (really_failed) {
        /* No resources */
        cleanup();
        run();
        return;
    }
    for (auto x : w) VP_CHECK(c, x != NULL, "the watch wasn't created");
    std::vector<int> expected;
    auto compare = [&] {
        run();
        VP_EQ(c, crowd.got.size(), expected.size(), "number of events");
        for (size_t i = 0; i < expected.size(); i++) {
            VP_EQ(c, crowd.got[i].first, expected[i], "watch which got the event");
            VP_CHECK(c, crowd.got[i].second == w[expected[i]], "wrong watch passed to the handler");
        }
        expected.clear();
        crowd.got.clear();
    };
    compare();
    int last = -1;
    const unsigned events = 2 + c.len(60);
    for (unsigned k = 0; k < events; k++) {
        /* The earliest and the latest ones are the interesting ones */
        const unsigned at = c.coin() ? c.range(0, n - 1) : c.coin() ? 0 : n - 1;
        const int i = (int)at;
        if (c.chance(20) && n > 1) {
            const unsigned gone = c.range(0, n - 1);
            if (gone != at && w[gone]) {
                compare();
                VP_LOG(c, "watch %u is gone", gone);
                gutil_inotify_watch_unref(w[gone]);
                w[gone] = NULL;
            }
        }
        /* Equal events in a row would be merged */
        if (i == last || c.chance(20)) compare();
        if (chmod(path(i).c_str(), 0700)) abort();
        if (w[i]) {
            expected.push_back(i);
            last = i;
        }
    }
    compare();
    cleanup();
    run();
    if (churn > 300) c.label("a lot of watches one after another");
    if (n > 300) c.label("a lot of watches at once");
    c.nontrivial();
}

} // namespace

extern "C" {
int __real_inotify_init(void);
int __real_inotify_init1(int);
int __real_inotify_add_watch(int, const char*, uint32_t);
int __wrap_inotify_init(void) {
    if (fail_init) { errno = fail_init; return -1; }
    const int fd = __real_inotify_init();
    if (fd < 0) really_failed = true;
    if (fd >= 0) lib_fds.insert(fd);
    return fd;
}
int __wrap_inotify_init1(int flags) {
    if (fail_init) { errno = fail_init; return -1; }
    const int fd = __real_inotify_init1(flags);
    if (fd < 0) really_failed = true;
    if (fd >= 0) lib_fds.insert(fd);
    return fd;
}
int __wrap_inotify_add_watch(int fd, const char* p, uint32_t mask) {
    if (fail_add && fd != raw) { errno = fail_add; return -1; }
    const int wd = __real_inotify_add_watch(fd, p, mask);
    if (wd < 0 && (errno == ENOSPC || errno == ENOMEM) && fd != raw) really_failed = true;
    return wd;
}
}

Property vp::property()
{
    Property p = {};
    p.id = "C22";
    p.rule = "histories of creating, referencing, destroying and freeing watches for directories and files, adding and removing "
        "handlers, changing the filesystem and running the main loop, with handlers doing the same (and a lot of watches at once or one after another), compared with a raw inotify "
        "descriptor which has the same watches; non-trivial = 2+ events were delivered";
    p.targets = { { "history", history, 300, 300 }, { "many", many, 2, 80 } };
    p.fixed = { { "same-inode", fixed_same_inode }, { "replaced-by-handler", fixed_replaced },
        { "overflow", fixed_overflow } };
    p.init = init;
    p.leak_check = true;
    return p;
}
