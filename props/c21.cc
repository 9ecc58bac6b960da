// VP-LDFLAGS: -Wl,--wrap=syslog,--wrap=vsyslog,--wrap=__syslog_chk,--wrap=__vsyslog_chk,--wrap=openlog,--wrap=closelog,--wrap=syscall,--wrap=gettid -pthread
// VP-ASSUMES: C locale, time stamp formats have no field widths, log messages have no zero bytes
/* C21: log output */
#include "vp.h"
#include "giant.h"
#include <setjmp.h>
#include <gutil_log.h>
#include <gutil_misc.h>
#include <glib.h>
#include <stdlib.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <syslog.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <thread>
using namespace vp;

namespace {

int memfd[2], origfd[2];
struct SysMsg { std::string text; int priority; };
std::vector<SysMsg> sys_msgs;
struct GMsg { std::string domain, text; bool has_domain; int flags; };
std::vector<GMsg> glib_msgs;

void glib_handler(const gchar* domain, GLogLevelFlags flags, const gchar* text, gpointer)
{
    GMsg m;
    m.has_domain = domain != NULL;
    m.domain = domain ? domain : "";
    m.text = text ? text : "";
    m.flags = flags;
    glib_msgs.push_back(m);
}

const char* const names[] = { "mod", "m", "a rather long name of the module to move the boundaries", "%s%n", "-x-" };

GLogProc saved_func;
int saved_level;
const char* saved_name;
char* default_names[2];

void init()
{
    for (int i = 0; i < 2; i++) {
        memfd[i] = memfd_create("log", MFD_CLOEXEC);
        origfd[i] = dup(i + 1);
        if (memfd[i] < 0 || origfd[i] < 0) abort();
    }
    saved_func = gutil_log_func;
    saved_level = gutil_log_default.level;
    saved_name = gutil_log_default.name;
    for (auto n : names) g_log_set_handler(n, (GLogLevelFlags)(G_LOG_LEVEL_MASK | G_LOG_FLAG_FATAL | G_LOG_FLAG_RECURSION), glib_handler, NULL);
    default_names[0] = g_strdup("mod");
    default_names[1] = g_strdup("app");
    /* Remembered by the C library forever */
    setenv("TZ", ":/no/such/zone", TRUE);
    setenv("TZ", ":/no/such/place", TRUE);
    unsetenv("TZ");
    tzset();
}

/* Captures everything written to stdout and stderr */
struct Capture {
    std::string out[2];
    std::vector<char> buf;
    void begin() {
        fflush(stdout);
        fflush(stderr);
        for (int i = 0; i < 2; i++) {
            if (ftruncate(memfd[i], 0)) abort();
            lseek(memfd[i], 0, SEEK_SET);
            dup2(memfd[i], i + 1);
        }
    }
    void end() {
        fflush(stdout);
        fflush(stderr);
        for (int i = 0; i < 2; i++) {
            dup2(origfd[i], i + 1);
            const off_t size = lseek(memfd[i], 0, SEEK_END);
            buf.resize(size + 1);
            out[i].clear();
            if (size && pread(memfd[i], buf.data(), size, 0) == size) out[i].assign(buf.data(), size);
        }
    }
};

std::string strf(const std::string& f, time_t t)
{
    struct tm tm;
    char buf[4096];
    localtime_r(&t, &tm);
    buf[0] = 0;
    if (f.empty() || !strftime(buf, sizeof(buf), f.c_str(), &tm)) return std::string();
    return buf;
}

/* What printf can't format. That still makes one message but it's not known what exactly is there */
const std::string UNPRINTABLE("\x01unprintable\x01");

std::string vformat(const char* f, va_list va)
{
    /* Independently of GLib */
    va_list va2;
    va_copy(va2, va);
    const int n = vsnprintf(NULL, 0, f, va2);
    va_end(va2);
    if (n < 0) return UNPRINTABLE;
    std::string s(n + 1, 0);
    vsnprintf(&s[0], n + 1, f, va);
    s.resize(n);
    return s;
}

enum Out { STDOUT, STDERR, SYSLOG, GLIB };
const char* const type_names[] = { "stdout", "stderr", "syslog", "glib" };

struct World {
    Ctx& c;
    Capture cap;
    int out;
    std::string timefmt;
    const char* defname;
    bool boundary, big;
    unsigned zone;

    World(Ctx& ctx) : c(ctx), out(STDOUT), timefmt("%Y-%m-%d %H:%M:%S "), defname(NULL), boundary(false), big(false), zone(0) {
        gutil_log_func = gutil_log_stdout;
        gutil_log_default.level = GLOG_LEVEL_VERBOSE;
        gutil_log_default.name = NULL;
        gutil_log_timestamp = FALSE;
        gutil_log_tid = FALSE;
    }
    ~World() {
        gutil_log_func = saved_func;
        gutil_log_default.level = saved_level;
        gutil_log_default.name = saved_name;
        gutil_log_timestamp = gutil_log_tid = FALSE;
        gutil_log_set_timestamp_format(NULL);
        if (zone) {
            unsetenv("TZ");
            tzset();
        }
    }
    /* Checks that the messages (complete and formatted) have been logged by a single thread */
    void check(const char* name, bool has_name, int level, const std::vector<std::string>& msgs, time_t t0, time_t t1, int tid, int o) {
        std::string pre;
        if (o <= STDERR) {
            VP_CHECK(c, cap.out[!o].empty(), "something was written to %s", type_names[!o]);
            VP_CHECK(c, sys_msgs.empty() && glib_msgs.empty(), "something went elsewhere");
            if (has_name && name[0]) { pre += "["; pre += name; pre += "] "; }
            pre += level == GLOG_LEVEL_WARN ? "WARNING: " : level == GLOG_LEVEL_ERR ? "ERROR: " : "";
            const std::string& got = cap.out[o];
            size_t pos = 0;
            for (size_t i = 0; i < msgs.size(); i++) {
                std::string id, line;
                if (gutil_log_tid) id = "[" + std::to_string(tid) + "] ";
                bool match = false;
                /* Allow the time to change in the middle */
                for (time_t t = t0; t <= t1 && !match; t++) {
                    line = id + (gutil_log_timestamp ? strf(timefmt, t) : std::string()) + pre + msgs[i] + "\n";
                    if (msgs[i] == UNPRINTABLE) {
                        /* Up to the end of line */
                        line.resize(line.size() - UNPRINTABLE.size() - 1);
                        const size_t eol = got.find('\n', pos + line.size());
                        if (eol != std::string::npos && !got.compare(pos, line.size(), line)) {
                            match = true;
                            line = got.substr(pos, eol + 1 - pos);
                        }
                    } else {
                        match = !got.compare(pos, line.size(), line);
                    }
                }
                if (!match) {
                    size_t k = 0;
                    while (k < line.size() && pos + k < got.size() && line[k] == got[pos + k]) k++;
                    c.fail("line %d (%d bytes, %d written) differs at %d: \"%s\" instead of \"%s\"", (int)i, (int)line.size(),
                        (int)(got.size() - pos), (int)k, g_strescape(got.substr(pos, 200).c_str(), NULL), g_strescape(line.substr(0, 200).c_str(), NULL));
                }
                pos += line.size();
            }
            VP_CHECK(c, pos == got.size(), "%d extra bytes written", (int)(got.size() - pos));
        } else if (o == SYSLOG) {
            VP_CHECK(c, cap.out[0].empty() && cap.out[1].empty() && glib_msgs.empty(), "something went elsewhere");
            VP_EQ(c, sys_msgs.size(), msgs.size(), "number of syslog messages");
            if (has_name && name[0] && g_strcmp0(name, gutil_log_default.name)) { pre += "["; pre += name; pre += "] "; }
            for (size_t i = 0; i < msgs.size(); i++) {
                std::string got = sys_msgs[i].text;
                if (msgs[i] == UNPRINTABLE && got != UNPRINTABLE) got += UNPRINTABLE;
                VP_CHECK(c, got.size() >= msgs[i].size() && !got.compare(got.size() - msgs[i].size(), msgs[i].size(), msgs[i]),
                    "incomplete message in syslog");
                const std::string head = got.substr(0, got.size() - msgs[i].size());
                const size_t at = head.find(pre);
                VP_CHECK(c, at != std::string::npos, "no name in syslog");
                /* What's there besides the name */
                std::string rest = head.substr(0, at) + head.substr(at + pre.size());
                if (gutil_log_tid) {
                    const std::string id = "[" + std::to_string(tid) + "]";
                    const size_t k = rest.find(id);
                    VP_CHECK(c, k != std::string::npos, "no thread id in syslog: \"%s\"", head.c_str());
                    rest.erase(k, id.size());
                }
                VP_EQ(c, rest.find("WARNING") != std::string::npos, level == GLOG_LEVEL_WARN, "warning in syslog");
                VP_EQ(c, rest.find("ERROR") != std::string::npos, level == GLOG_LEVEL_ERR, "error in syslog");
                VP_CHECK(c, rest.find('[') == std::string::npos, "unexpected name in syslog: \"%s\"", head.c_str());
                static const int prio[] = { LOG_ERR, LOG_WARNING, LOG_NOTICE, LOG_INFO, LOG_DEBUG };
                if (level >= GLOG_LEVEL_ERR && level <= GLOG_LEVEL_VERBOSE)
                    VP_EQ(c, LOG_PRI(sys_msgs[i].priority), prio[level - GLOG_LEVEL_ERR], "syslog priority");
                else VP_CHECK(c, LOG_PRI(sys_msgs[i].priority) <= LOG_NOTICE, "unconditional message has low priority");
            }
        } else {
            VP_CHECK(c, cap.out[0].empty() && cap.out[1].empty() && sys_msgs.empty(), "something went elsewhere");
            VP_EQ(c, glib_msgs.size(), msgs.size(), "number of GLib messages");
            for (size_t i = 0; i < msgs.size(); i++) {
                VP_CHECK(c, glib_msgs[i].text == msgs[i] || msgs[i] == UNPRINTABLE, "wrong text of GLib message");
                static const int flags[] = { G_LOG_LEVEL_CRITICAL, G_LOG_LEVEL_WARNING, G_LOG_LEVEL_MESSAGE, G_LOG_LEVEL_INFO, G_LOG_LEVEL_DEBUG };
                const int f = glib_msgs[i].flags & G_LOG_LEVEL_MASK;
                if (level >= GLOG_LEVEL_ERR && level <= GLOG_LEVEL_VERBOSE)
                    VP_EQ(c, f, flags[level - GLOG_LEVEL_ERR], "GLib level");
                else VP_CHECK(c, f <= G_LOG_LEVEL_MESSAGE, "unconditional message has low priority");
                VP_CHECK(c, glib_msgs[i].has_domain == has_name && glib_msgs[i].domain == (has_name ? name : ""), "wrong domain of GLib message");
            }
        }
    }
};

struct Msg {
    const GLogModule* m;
    int level;
    int how;
    const char* fmt;
    std::string s;
    int i;
    long long ll;
    double d;
    int err;             /* errno for %m */
    const char* tz;      /* new time zone, to be noticed by tzset */
    std::wstring w;
    std::string text;
};

void emit2(Msg& m, bool really, const char* f, ...) {
    va_list va, va2;
    va_start(va, f);
    va_copy(va2, va);
    if (really) {
        if (m.tz) setenv("TZ", m.tz, TRUE);
        errno = m.err;
        gutil_logv(m.m, m.level, f, va2);
    } else {
        errno = m.err;
        m.text = vformat(f, va2);
    }
    va_end(va2);
    va_end(va);
}

/* Either calculates the text or emits the message */
void emit(Msg& m, bool really) {
    switch (m.how) {
    case 0: emit2(m, really, "%s", m.s.c_str()); break;
    case 1: emit2(m, really, "%d %s|%5.2f", m.i, m.s.c_str(), m.d); break;
    case 2: emit2(m, really, "%*d%%%.*s;%lld", m.i & 0x3ff, m.i, m.i & 0xff, m.s.c_str(), m.ll); break;
    case 3: emit2(m, really, "%-20s%c%x%p", m.s.c_str(), 'A' + (m.i & 15), (unsigned)m.i, (void*)(guintptr)(m.ll | 1)); break;
    case 4: emit2(m, really, "nothing to format"); break;
    case 5: emit2(m, really, "%s", ""); break;
    case 6: emit2(m, really, "%s %s\n%s", m.s.c_str(), m.s.c_str(), m.s.c_str()); break;
    case 7: emit2(m, really, "%0*lld", m.i & 0x7ff, m.ll); break;
    case 8: emit2(m, really, "%s: %m (%d)", m.s.c_str(), m.i); break;
    case 9: emit2(m, really, "%.*s|%ls|%d", 700, m.s.c_str(), m.w.c_str(), m.i); break;
    }
}

unsigned gen_size(Ctx& c, World& w) {
    switch (c.range(0, 5)) {
    case 0: w.boundary = true; return 512 + c.range(-3, 3);
    case 1: w.boundary = true; return c.pick({32, 64, 100, 128, 256, 512, 1024, 2048}) + c.range(-31, 3);
    case 2: return c.chance(100) ? c.range(1000, 20000) : c.range(400, 600);
    default: return c.len(100);
    }
}

void logging(Ctx& c)
{
    World w(c);
    GLogModule module = { "", NULL, NULL, GLOG_LEVEL_VERBOSE, GLOG_LEVEL_INHERIT, 0, 0 };
    while (c.more() && c.steps++ < 20) {
        switch (c.range(0, 9)) {
        case 0: {
            /* Selecting the output by name */
            std::string type;
            int o = c.range(0, 3);
            if (c.chance(100)) {
                o = -1;
                switch (c.range(0, 2)) {
                case 0: type = c.pick({"", "std", "stdoutx", "stdou", " stdout", "custom", "stdout stderr", "syslogd", "gli", "none"}); break;
                case 1: type = type_names[c.range(0, 3)]; type[c.range(0, (int)type.size() - 1)] ^= 1; break;
                default: type = c.str(c.len(8), "stdouerglibyn"); for (auto t : type_names) if (type == t) type += "x";
                }
            } else {
                type = type_names[o];
                if (c.coin()) for (auto& ch : type) if (c.coin()) ch ^= 0x20;
            }
            const char* def = c.pick<const char*>({NULL, "mod", "app"});
            const GLogProc before = gutil_log_func;
            const gboolean ok = gutil_log_set_type(type.c_str(), def);
            VP_LOG(c, "type \"%s\"%s%s", type.c_str(), def ? " name " : "", def ? def : "");
            VP_EQ(c, !!ok, o >= 0, "set_type result");
            if (o >= 0) {
                w.out = o;
                if (def) w.defname = def;
                VP_CHECK(c, !g_strcmp0(gutil_log_default.name, w.defname), "default name");
            } else {
                VP_CHECK(c, gutil_log_func == before, "unknown type changed the log function");
                w.defname = gutil_log_default.name;  /* Not specified for an unknown type */
            }
            VP_CHECK(c, !strcmp(gutil_log_get_type(), type_names[w.out]), "get_type");
            sys_msgs.clear();
            break;
        }
        case 1: {
            /* Time stamp format. It's copied */
            static const char* const formats[] = { "", "%H:%M ", "%Y-%m-%d %H:%M:%S ", "%s.", "%%", "%A, %d %B %Y %H:%M:%S %Z|", "%c %c %c ", "plain text ", "%d%n" };
            std::string f = c.chance(100) ? std::string(c.len(100), 'x') + "%S " : formats[c.range(0, 8)];
            /* The boundaries of the internal buffer */
            if (c.chance(80)) f = std::string(c.range(20, 45), '.') + c.pick({"%y", "%S%M", " "});
            /* Or something similar to the current one */
            if (c.chance(60)) {
                f = w.timefmt;
                switch (c.range(0, 4)) {
                case 0: if (f.size()) f.resize(f.size() - 1); if (f.size() && f.back() == '%') f.resize(f.size() - 1); break;
                case 1: f += c.pick({" ", "x", "%%"}); break;
                case 2: f = std::string("x") + f; break;
                case 3: for (char& x : f) if (x == ' ') x = '_'; break;
                }
                c.label("similar-format");
            }
            const bool null = c.chance(60);
            char* p = g_strdup(f.c_str());
            VP_LOG(c, "time stamp format %s", null ? "NULL" : p);
            gutil_log_set_timestamp_format(null ? NULL : p);
            memset(p, 'z', strlen(p));
            g_free(p);
            w.timefmt = null ? std::string("%Y-%m-%d %H:%M:%S ") : f;
            break;
        }
        case 2:
            gutil_log_timestamp = c.coin();
            gutil_log_tid = c.coin();
            VP_LOG(c, "timestamp %d, tid %d", gutil_log_timestamp, gutil_log_tid);
            break;
        case 3: {
            /* Dump */
            const unsigned n = c.chance(3) ? 0x10000 + c.range(-20, 40) : c.len(100);
            std::string d = n > 1000 ? std::string(n, 'x') : c.bytes(n);
            const bool null = c.chance(60);
            const std::string p = c.str(c.len(c.chance(40) ? 700 : 10), "ab %>");
            std::vector<std::string> lines;
            for (size_t off = 0; off < d.size(); off += 16) {
                char buf[GUTIL_HEXDUMP_BUFSIZE], o[16];
                gutil_hexdump(buf, d.data() + off, d.size() - off);
                snprintf(o, sizeof(o), "%04X: ", (unsigned)off);
                lines.push_back((null ? std::string() : p) + o + buf);
            }
            module.name = names[c.range(0, 4)];
            const int level = c.range(GLOG_LEVEL_ERR, GLOG_LEVEL_VERBOSE);
            GBytes* b = c.coin() ? g_bytes_new(d.data(), d.size()) : NULL;
            VP_LOG(c, "dump %d bytes", n);
            char* exact = (char*)malloc(d.size() ? d.size() : 1);
            memcpy(exact, d.data(), d.size());
            sys_msgs.clear();
            glib_msgs.clear();
            const time_t t0 = time(NULL);
            w.cap.begin();
            if (b) gutil_log_dump_bytes(&module, level, null ? NULL : p.c_str(), b);
            else gutil_log_dump(&module, level, null ? NULL : p.c_str(), exact, d.size());
            w.cap.end();
            w.check(module.name, true, level, lines, t0, time(NULL), (int)syscall(SYS_gettid), w.out);
            if (b) g_bytes_unref(b);
            free(exact);
            if (lines.size() > 1) { c.label("dump"); w.big = true; }
            break;
        }
        default: {
            Msg m;
            static const GLogProc2 procs[] = { NULL, gutil_log_stdout2, gutil_log_stderr2, gutil_log_syslog2, gutil_log_glib2 };
            const int proc = c.chance(40) ? c.range(1, 4) : 0;
            module.name = c.chance(30) ? c.pick<const char*>({"", NULL}) : names[c.range(0, 4)];
            module.log_proc = procs[proc];
            module.flags = c.chance(40) ? GLOG_FLAG_HIDE_NAME : 0;
            const int o = proc ? proc - 1 : w.out;
            /* GLib messages have to end up in our handler */
            if (o == GLIB) { module.flags = 0; module.name = names[c.range(0, 4)]; }
            const bool has_name = module.name && (proc || !module.flags);
            m.m = &module;
            m.level = c.chance(30) ? (int)GLOG_LEVEL_ALWAYS : c.range(GLOG_LEVEL_ERR, GLOG_LEVEL_VERBOSE);
            m.how = c.range(0, 8);
            if (c.chance(15)) {
                /* It depends on the locale whether the character can be converted */
                static const unsigned last[] = { 'z', 0x7f, 0xe9, 0x20ac, 0xd800, 0x1f600, 0x110000, 0x7fffffff };
                m.how = 9;
                m.w = std::wstring(c.len(20), L'w');
                m.w += (wchar_t)last[c.range(0, G_N_ELEMENTS(last) - 1)];
                m.w += L'|';
            }
            m.err = m.how == 8 ? c.range(1, 130) : 0;
            m.tz = NULL;
            if (m.how == 8 && c.coin()) {
                static const char* const tz[] = { ":/no/such/zone", ":/no/such/place" };
                w.zone++;
                m.tz = tz[w.zone & 1];
                c.label("errno");
            }
            const unsigned n = gen_size(c, w);
            m.s = c.str(n < 60 ? n : 60, c.coin() ? NULL : "ab%s\n ");
            while (m.s.size() < n) m.s += (char)('a' + m.s.size() % 26);
            m.i = c.coin() ? c.range(0, 0x7ff) : c.i32();
            m.ll = c.i64();
            m.d = c.i32() / 3.0;
            emit(m, false);
            if (m.text == UNPRINTABLE) {
                /* The line has to be seen as a line */
                c.label("unprintable");
                for (char& x : m.s) if (x == '\n' || x == '[') x = ' ';
            }
            VP_LOG(c, "message of %d bytes, level %d, name %s, to %s", (int)m.text.size(), m.level, has_name ? module.name : "no", type_names[o]);
            sys_msgs.clear();
            glib_msgs.clear();
            const time_t t0 = time(NULL);
            int tid = (int)syscall(SYS_gettid);
            w.cap.begin();
            if (c.chance(4)) {
                std::thread t([&] { tid = (int)syscall(SYS_gettid); emit(m, true); });
                t.join();
            } else {
                emit(m, true);
            }
            w.cap.end();
            w.check(module.name, has_name, m.level, { m.text }, t0, time(NULL), tid, o);
            module.log_proc = NULL;
            module.flags = 0;
            if (m.text.size() > 500) w.big = true;
            if (gutil_log_timestamp && o <= STDERR) c.label("time stamp");
            if (gutil_log_tid && o <= SYSLOG) c.label("thread id");
            break;
        }
        }
    }
    if (w.big || w.boundary) c.nontrivial();
}

/* Beginning of a dump of something that takes forever to dump */
struct Interrupt {
    jmp_buf jmp;
    std::vector<std::string> lines;
    unsigned max;
} interrupt;

void interrupting(const char* name, int level, const char* f, va_list va)
{
    interrupt.lines.push_back(vformat(f, va));
    if (interrupt.lines.size() >= interrupt.max) longjmp(interrupt.jmp, 1);
}

void giant_dump_of(Ctx& c, const giant::Block& b, const char* prefix)
{
    VP_LOG(c, "%u lines of the dump of %zu bytes", interrupt.max, b.n);
    GBytes* bytes = c.coin() ? g_bytes_new_static(b.p, b.n) : NULL;
    interrupt.lines.clear();
    gutil_log_func = interrupting;
    if (!setjmp(interrupt.jmp)) {
        if (bytes) gutil_log_dump_bytes(NULL, GLOG_LEVEL_INFO, prefix, bytes);
        else gutil_log_dump(NULL, GLOG_LEVEL_INFO, prefix, b.p, b.n);
        c.fail("only %d lines logged", (int)interrupt.lines.size());
    }
    gutil_log_func = saved_func;
    if (bytes) g_bytes_unref(bytes);
    for (size_t i = 0; i < interrupt.lines.size(); i++) {
        char buf[GUTIL_HEXDUMP_BUFSIZE], o[16];
        gutil_hexdump(buf, b.p + 16 * i, 16);
        snprintf(o, sizeof(o), "%04X: ", (unsigned)(16 * i));
        VP_CHECK(c, interrupt.lines[i] == std::string(prefix) + o + buf, "line %d: \"%s\" instead of \"%s%s%s\"", (int)i,
            interrupt.lines[i].c_str(), prefix, o, buf);
    }
    interrupt.lines.clear();
    interrupt.lines.shrink_to_fit();
}

void giant_dump(Ctx& c)
{
    giant::Block b(c, giant::size(c));
    if (!b.ok()) return;
    World w(c);
    const std::string s = c.bytes(64);
    memcpy(b.p, s.data(), s.size());
    interrupt.max = c.range(2, 300);
    giant_dump_of(c, b, c.coin() ? "" : "data ");
    c.label("start of a giant dump");
    c.nontrivial();
}

void fixed_giant_dump(Ctx& c)
{
    giant::Block b(c, (size_t)1 << 32);
    if (!b.ok()) return;
    World w(c);
    interrupt.max = 3;
    giant_dump_of(c, b, "");
}

void fixed_errno(Ctx& c)
{
    World w(c);
    w.zone = 1;
    gutil_log_timestamp = TRUE;
    const time_t t0 = time(NULL);
    setenv("TZ", ":/no/such/zone", TRUE);
    w.cap.begin();
    errno = EACCES;
    gutil_log(NULL, GLOG_LEVEL_INFO, "%m");
    w.cap.end();
    w.check(NULL, false, GLOG_LEVEL_INFO, { "Permission denied" }, t0, time(NULL), 0, STDOUT);
}

void fixed_unprintable(Ctx& c)
{
    World w(c);
    w.cap.begin();
    gutil_log(NULL, GLOG_LEVEL_INFO, "%ls", L"\x7fffffff");
    gutil_log(NULL, GLOG_LEVEL_INFO, "test");
    w.cap.end();
    w.check(NULL, false, GLOG_LEVEL_INFO, { UNPRINTABLE, "test" }, 0, 0, 0, STDOUT);
}

void fixed_timestamp(Ctx& c)
{
    World w(c);
    w.timefmt = "this time stamp is longer than its buffer %Y-%m-%d: ";
    gutil_log_set_timestamp_format(w.timefmt.c_str());
    gutil_log_timestamp = TRUE;
    const time_t t0 = time(NULL);
    w.cap.begin();
    gutil_log(NULL, GLOG_LEVEL_INFO, "test");
    w.cap.end();
    w.check(NULL, false, GLOG_LEVEL_INFO, { "test" }, t0, time(NULL), 0, STDOUT);
}

} // namespace

extern "C" {
void __wrap_openlog(const char*, int, int) {}
void __wrap_closelog() {}
void __wrap_vsyslog(int p, const char* f, va_list va) { sys_msgs.push_back({ vformat(f, va), p }); }
void __wrap___vsyslog_chk(int p, int, const char* f, va_list va) { sys_msgs.push_back({ vformat(f, va), p }); }
void __wrap___syslog_chk(int p, int, const char* f, ...) {
    va_list va;
    va_start(va, f);
    sys_msgs.push_back({ vformat(f, va), p });
    va_end(va);
}
void __wrap_syslog(int p, const char* f, ...) {
    va_list va;
    va_start(va, f);
    sys_msgs.push_back({ vformat(f, va), p });
    va_end(va);
}

/* Thread ids of a system which has been running for a while */
enum { TID_OFFSET = 3000000 };
pid_t __real_gettid();
pid_t __wrap_gettid() { return __real_gettid() + TID_OFFSET; }
long __real_syscall(long, ...);
long __wrap_syscall(long n, ...) {
    va_list va;
    va_start(va, n);
    const long a = va_arg(va, long), b = va_arg(va, long), c = va_arg(va, long), d = va_arg(va, long), e = va_arg(va, long), f = va_arg(va, long);
    va_end(va);
    return __real_syscall(n, a, b, c, d, e, f) + (n == SYS_gettid ? TID_OFFSET : 0);
}
}

Property vp::property()
{
    Property p = {};
    p.id = "C21";
    p.rule = "histories of selecting the output, time stamp format, time stamp and thread id flags, and of messages (10 formats, up to "
        "60000 characters, with lengths around the buffer sizes) and dumps up to 64K, with captured stdout, stderr, syslog and GLib "
        "log, and the beginnings of dumps of 2 to 4 gigabytes; non-trivial = a length near a buffer boundary, a message longer than 500 characters or a dump of several lines";
    p.targets = { { "logging", logging, 600, 500 }, { "giant_dump", giant_dump, 1, 100 } };
    p.fixed = { { "long-timestamp", fixed_timestamp }, { "dump-4g", fixed_giant_dump },
        { "errno", fixed_errno }, { "unprintable", fixed_unprintable } };
    p.init = init;
    p.leak_check = true;
    return p;
}
