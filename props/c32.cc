// VP-CONFIGS: dbg rel tsan
// VP-TSAN: ignore_noninstrumented_modules=1
// VP-LDFLAGS: -Wl,--wrap=syslog,--wrap=vsyslog,--wrap=__syslog_chk,--wrap=__vsyslog_chk,--wrap=openlog,--wrap=closelog -pthread
// VP-ASSUMES: the log isn't being reconfigured while other threads are using it, the C library doesn't mix the output of simultaneous stdio calls
/* C32: logging by several threads at the same time */
#include "vp.h"
#include <gutil_log.h>
#include <gutil_misc.h>
#include <glib.h>
#include <atomic>
#include <deque>
#include <mutex>
#include <sched.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <syslog.h>
#include <time.h>
#include <unistd.h>
using namespace vp;

namespace {

enum { MAX_THREADS = 4 };
const char* const parents[] = { "pa", "pb", "pc", "pd" };
const char* const children[] = { "ca", "cb", "cc", "cd" };

int memfd = -1, origfd[2];
std::mutex lock;                /* For the stand-ins */
std::vector<std::string> msgs;  /* Syslog or GLib */

void store(const std::string& s)
{
    std::lock_guard<std::mutex> l(lock);
    msgs.push_back(s);
}

void glib_handler(const gchar*, GLogLevelFlags, const gchar* text, gpointer) { store(text); }

void init()
{
    tzset();    /* Does something only once */
    memfd = memfd_create("log", MFD_CLOEXEC);
    for (int i = 0; i < 2; i++) origfd[i] = dup(i + 1);
    if (memfd < 0 || origfd[0] < 0 || origfd[1] < 0) abort();
    for (int i = 0; i < MAX_THREADS; i++) for (auto name : { parents[i], children[i] })
        g_log_set_handler(name, (GLogLevelFlags)(G_LOG_LEVEL_MASK | G_LOG_FLAG_RECURSION), glib_handler, NULL);
}

std::string vformat(const char* f, va_list va)
{
    va_list va2;
    va_copy(va2, va);
    const int n = vsnprintf(NULL, 0, f, va2);
    va_end(va2);
    std::string s(n + 1, 0);
    vsnprintf(&s[0], n + 1, f, va);
    s.resize(n);
    return s;
}

enum How { MESSAGE, DUMP, HELP, OPTION, YIELD, PARENT, HOWS };
struct Step { int how; int level; unsigned size; };
struct Worker {
    int id;
    GLogModule parent, child;
    std::vector<Step> script;
    int tid;
    std::string error;
    std::vector<std::string> want;      /* Complete messages, without the prefixes */
};

std::atomic<int> ready;
std::atomic<bool> go;
bool hide_name;

std::string text(int id, int n, unsigned size)
{
    std::string s = std::to_string(id) + "/" + std::to_string(n) + " ";
    for (unsigned i = 0; i < size; i++) s += (char)('a' + (id * 7 + n + i) % 26);
    return s;
}

const char* level_prefix(int level) { return level == GLOG_LEVEL_WARN ? "WARNING: " : level == GLOG_LEVEL_ERR ? "ERROR: " : ""; }

gpointer thread_proc(gpointer arg)
{
    Worker* w = (Worker*)arg;
    w->tid = (int)syscall(SYS_gettid);
    ready++;
    while (!go) sched_yield();
    for (size_t i = 0; i < w->script.size(); i++) {
        const Step& s = w->script[i];
        switch (s.how) {
        default: {
            GLogModule* m = s.how == PARENT ? &w->parent : &w->child;
            const std::string t = text(w->id, (int)i, s.size);
            const bool en = gutil_log_enabled(m, s.level);
            if (en != (s.level <= w->parent.level)) w->error = "wrong level";
            gutil_log(m, s.level, "%d/%d %s", w->id, (int)i, t.c_str() + t.find(' ') + 1);
            if (en) w->want.push_back(level_prefix(s.level) + t);
            break;
        }
        case DUMP: {
            std::string d(s.size % 60, (char)('A' + w->id));
            const std::string pre = text(w->id, (int)i, 0);
            gutil_log_dump(&w->child, GLOG_LEVEL_INFO, pre.c_str(), d.data(), d.size());
            if (GLOG_LEVEL_INFO > w->parent.level) break;
            for (size_t off = 0; off < d.size(); off += 16) {
                char buf[GUTIL_HEXDUMP_BUFSIZE], o[16];
                const std::string piece = d.substr(off, 16);
                gutil_hexdump(buf, piece.data(), piece.size());
                snprintf(o, sizeof(o), "%04X: ", (unsigned)off);
                w->want.push_back(pre + o + buf);
            }
            break;
        }
        case HELP: {
            GLogModule* list[2] = { &w->parent, &w->child };
            char* d = gutil_log_description(list, 2);
            if (!strstr(d, w->parent.name) || !strstr(d, w->child.name)) w->error = "wrong description";
            g_free(d);
            break;
        }
        case OPTION: {
            /* Every thread changes its own module */
            GLogModule* list[2] = { &w->child, &w->parent };
            const std::string o = std::string(w->parent.name) + ":" + std::to_string(s.level);
            if (!gutil_log_parse_option(o.c_str(), list, 2, NULL) || w->parent.level != s.level) w->error = "option isn't accepted";
            GError* err = NULL;
            if (gutil_log_parse_option("what:ever", list, 2, &err) || !err) w->error = "wrong option is accepted";
            g_clear_error(&err);
            break;
        }
        case YIELD: sched_yield(); break;
        }
    }
    return NULL;
}

enum Out { STDOUT, STDERR, SYSLOG, GLIB };

void concurrent(Ctx& c)
{
    std::deque<Worker> w;
    const int n = c.range(2, MAX_THREADS);
    const int out = c.range(STDOUT, GLIB);
    static const char* const types[] = { "stdout", "stderr", "syslog", "glib" };
    const std::string ftime = c.pick({ "%Y-%m-%d %H:%M:%S ", "%s.", "at %A, %d %B %Y %H:%M:%S %Z| ", "" });
    unsigned total = 0;
    hide_name = c.chance(60);
    gutil_log_set_type(types[out], NULL);
    gutil_log_timestamp = c.coin();
    gutil_log_tid = c.coin();
    gutil_log_set_timestamp_format(ftime.c_str());
    for (int i = 0; i < n; i++) {
        w.push_back(Worker { i, { parents[i], NULL, NULL, GLOG_LEVEL_VERBOSE, GLOG_LEVEL_VERBOSE, 0, 0 },
            { children[i], NULL, NULL, GLOG_LEVEL_VERBOSE, GLOG_LEVEL_INHERIT, 0, 0 }, {}, 0, std::string(), {} });
        Worker& x = w.back();
        x.child.parent = &x.parent;
        x.parent.flags = x.child.flags = hide_name ? GLOG_FLAG_HIDE_NAME : 0;
        for (int k = c.range(1, 24); k > 0; k--) {
            Step s;
            s.how = c.pick<int>({ MESSAGE, MESSAGE, DUMP, PARENT, HELP, OPTION, YIELD });
            s.level = c.range(GLOG_LEVEL_ERR, GLOG_LEVEL_VERBOSE);
            s.size = c.chance(60) ? 512 + c.range(-16, 2) : c.chance(20) ? c.range(1000, 9000) : c.range(0, 100);
            x.script.push_back(s);
            total++;
        }
        VP_LOG(c, "thread %d: %d steps", i, (int)x.script.size());
    }
    if (out == GLIB) for (auto& x : w) { x.parent.flags = x.child.flags = 0; }
    VP_LOG(c, "to %s, timestamp %d \"%s\", tid %d%s", types[out], gutil_log_timestamp, ftime.c_str(), gutil_log_tid, hide_name ? ", no names" : "");
    msgs.clear();
    ready = 0;
    go = false;
    std::vector<GThread*> th;
    for (auto& x : w) th.push_back(g_thread_new("w", thread_proc, &x));
    while (ready < n) sched_yield();
    fflush(stdout);
    fflush(stderr);
    if (out <= STDERR) {
        if (ftruncate(memfd, 0)) abort();
        lseek(memfd, 0, SEEK_SET);
        dup2(memfd, out + 1);
    }
    const time_t t0 = time(NULL);
    go = true;
    for (auto t : th) g_thread_join(t);
    const time_t t1 = time(NULL);
    fflush(stdout);
    fflush(stderr);
    if (out <= STDERR) dup2(origfd[out], out + 1);
    const bool timestamp = gutil_log_timestamp, tid = gutil_log_tid;
    gutil_log_timestamp = gutil_log_tid = FALSE;
    gutil_log_set_timestamp_format(NULL);
    gutil_log_set_type("stdout", NULL);

    for (auto& x : w) VP_CHECK(c, x.error.empty(), "thread %d: %s", x.id, x.error.c_str());
    std::vector<std::string> lines;
    if (out <= STDERR) {
        const off_t size = lseek(memfd, 0, SEEK_END);
        std::string all(size, 0);
        if (size && pread(memfd, &all[0], size, 0) != size) abort();
        for (size_t pos = 0; pos < all.size();) {
            const size_t end = all.find('\n', pos);
            VP_CHECK(c, end != std::string::npos, "the last line isn't complete");
            lines.push_back(all.substr(pos, end - pos));
            pos = end + 1;
        }
    } else {
        lines = msgs;
    }
    /* The possible time stamps */
    std::vector<std::string> stamps;
    if (out <= STDERR && timestamp && !ftime.empty()) {
        for (time_t t = t0; t <= t1; t++) {
            char buf[256];
            struct tm tm;
            localtime_r(&t, &tm);
            strftime(buf, sizeof(buf), ftime.c_str(), &tm);
            stamps.push_back(buf);
        }
    } else stamps.push_back(std::string());
    std::vector<size_t> next(n, 0);
    for (const auto& line : lines) {
        bool found = false;
        for (auto& x : w) {
            if (next[x.id] >= x.want.size()) continue;
            const std::string& want = x.want[next[x.id]];
            bool match = false;
            if (out == SYSLOG) {
                /* The prefix is different */
                const std::string body = want.substr(want.find(std::to_string(x.id) + "/"));
                match = line.size() >= body.size() && !line.compare(line.size() - body.size(), body.size(), body) &&
                    (!tid || line.find("[" + std::to_string(x.tid) + "]") < line.size() - body.size());
            } else if (out == GLIB) {
                match = line == want.substr(want.find(std::to_string(x.id) + "/"));
            } else {
                for (const auto& stamp : stamps) for (int k = 0; k < 2 && !match; k++) {
                    const char* name = k ? x.parent.name : x.child.name;
                    std::string full;
                    if (tid) full += "[" + std::to_string(x.tid) + "] ";
                    full += stamp;
                    if (!hide_name) full += std::string("[") + name + "] ";
                    match = line == full + want;
                }
            }
            if (match) { next[x.id]++; found = true; break; }
        }
        char* esc = g_strescape(line.substr(0, 200).c_str(), NULL);
        const std::string e(esc);
        g_free(esc);
        VP_CHECK(c, found, "unexpected message \"%s\"", e.c_str());
    }
    for (auto& x : w) VP_EQ(c, next[x.id], x.want.size(), "number of messages of the thread");
    if (total > 4) c.nontrivial();
    c.label(types[out]);
}

} // namespace

extern "C" {
void __wrap_openlog(const char*, int, int) {}
void __wrap_closelog() {}
void __wrap_vsyslog(int, const char* f, va_list va) { store(vformat(f, va)); }
void __wrap___vsyslog_chk(int, int, const char* f, va_list va) { store(vformat(f, va)); }
void __wrap___syslog_chk(int, int, const char* f, ...) {
    va_list va;
    va_start(va, f);
    store(vformat(f, va));
    va_end(va);
}
void __wrap_syslog(int, const char* f, ...) {
    va_list va;
    va_start(va, f);
    store(vformat(f, va));
    va_end(va);
}
}

Property vp::property()
{
    Property p = {};
    p.id = "C32";
    p.rule = "2..4 threads make up to 24 steps each (messages of up to 9000 characters with lengths around the internal buffer size, "
        "dumps, descriptions, options for their own modules) at the same time, the output being stdout, stderr, syslog or GLib, with "
        "or without time stamps, thread ids and names; non-trivial = more than 4 steps";
    p.targets = { { "concurrent", concurrent, 1, 300 } };
    p.init = init;
    p.leak_check = true;
    p.attempts = 200;
    return p;
}
