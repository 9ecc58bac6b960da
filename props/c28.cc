// VP-ASSUMES: C locale; values with a vertical tab or the C23 binary prefix aren't generated (see C18)
/* C28: log configuration from the environment */
#include "vp.h"
#include <gutil_log.h>
#include <glib.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>
#include <sys/syscall.h>
using namespace vp;

namespace {

enum { MINLEV = -3, MAXLEV = 7 };

/* This is what runs in the process started with the environment of interest */
int child()
{
    printf("\n@@@ %d %d %d %d %ld\n", gutil_log_default.level, !!gutil_log_timestamp, !!gutil_log_tid,
        (int)syscall(SYS_gettid), (long)time(NULL));
    for (int i = MINLEV; i <= MAXLEV; i++) printf("%d", !!gutil_log_enabled(NULL, i));
    printf("\n");
    for (int i = MINLEV; i <= MAXLEV; i++) gutil_log(NULL, i, "message %d", i);
    printf("@@@ %ld\n", (long)time(NULL));
    fflush(stdout);
    _exit(0);
}

typedef std::vector<std::pair<std::string, std::string>> Env;

std::string run(Ctx& c, const Env& vars)
{
    std::vector<std::string> env = { "VP_CHILD=1" };
    for (const char* k : { "ASAN_OPTIONS", "TZ" }) if (getenv(k)) env.push_back(std::string(k) + "=" + getenv(k));
    for (auto& v : vars) env.push_back(v.first + "=" + v.second);
    std::vector<char*> envp;
    for (auto& e : env) envp.push_back((char*)e.c_str());
    envp.push_back(NULL);
    char* argv[] = { (char*)"child", NULL };
    int fd[2];
    pid_t pid;
    if (pipe2(fd, O_CLOEXEC)) abort();
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, fd[1], 1);
    const int err = posix_spawn(&pid, "/proc/self/exe", &fa, NULL, argv, envp.data());
    posix_spawn_file_actions_destroy(&fa);
    close(fd[1]);
    if (err) abort();
    std::string out;
    char buf[4096];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof(buf))) > 0) out.append(buf, n);
    close(fd[0]);
    int status = 0;
    while (waitpid(pid, &status, 0) < 0);
    VP_CHECK(c, WIFEXITED(status) && !WEXITSTATUS(status), "the process didn't start (status 0x%x)", status);
    return out;
}

bool space(char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == '\f'; }

/* Reference parser: a C-style int with white space around it */
bool parse(const std::string& s, long long& v)
{
    size_t i = 0, e = s.size();
    while (i < e && space(s[i])) i++;
    while (e > i && space(s[e - 1])) e--;
    bool neg = false;
    int base = 10;
    if (i < e && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    if (i + 2 < e && s[i] == '0' && (s[i + 1] | 32) == 'x' && g_ascii_isxdigit(s[i + 2])) { base = 16; i += 2; }
    else if (i < e && s[i] == '0') base = 8;
    if (i >= e) return false;
    long long x = 0;
    for (; i < e; i++) {
        const int d = g_ascii_xdigit_value(s[i]);
        if (d < 0 || d >= base) return false;
        x = x * base + d;
        if (x > (1ll << 40)) x = 1ll << 40;
    }
    v = neg ? -x : x;
    return v >= G_MININT && v <= G_MAXINT;
}

std::string gen(Ctx& c)
{
    std::string s;
    switch (c.range(0, 6)) {
    case 0: case 1: s = std::to_string(c.range(-2, 7)); break;
    case 2: s = c.pick({"0", "1", "-1", "+3", "0x4", "05", "0X0", "00", "2147483647", "2147483648", "4294967298", "-2147483648", "18446744073709551619"}); break;
    case 3: s = std::to_string(c.i32()); break;
    case 4: s = c.pick({"", " ", "info", "none", "verbose", "true", "yes", "%H:%M ", "3x", "3 4", "3.0", "1e1", "--1", "- 1", "0x", "08", "\xff\xfe", "%s%n"}); break;
    case 5: s = c.str(c.len(6), "0123 -+x"); break;
    default: s = c.str(c.len(c.chance(30) ? 3000 : 40), NULL);
    }
    if (c.chance(60)) s = c.str(c.range(0, 2), " \t\n\r\f") + s + c.str(c.range(0, 2), " \t\n\r\f");
    for (auto& ch : s) if (ch == '\v' || ch == 'b' || ch == 'B') ch = '_';
    return s;
}

int builtin = -2;

void startup(Ctx& c)
{
    static const char* const names[] = { "GUTIL_LOG_DEFAULT_LEVEL", "GUTIL_LOG_TIMESTAMP", "GUTIL_LOG_TID" };
    if (builtin == -2) {
        const std::string out = run(c, Env());
        int lev = 0, ts = -1, tid = -1;
        VP_CHECK(c, sscanf(out.c_str(), " @@@ %d %d %d", &lev, &ts, &tid) == 3, "can't parse the output");
        VP_CHECK(c, lev == GLOG_LEVEL_INFO || lev == GLOG_LEVEL_DEBUG, "built-in default level is %d", lev);
        VP_CHECK(c, !ts && !tid, "time stamps or thread ids are enabled by default");
        builtin = lev;
    }
    Env env;
    long long val[3] = { builtin, 0, 0 };
    int applied = 0;
    for (int i = 0; i < 3; i++) {
        if (c.chance(60)) continue;
        const std::string s = gen(c);
        env.push_back({ names[i], s });
        long long v;
        if (parse(s, v) && v >= (i ? 0 : -1)) {
            val[i] = i ? v > 0 : v;
            applied++;
        }
    }
    if (c.coin()) for (size_t i = 0; i + 1 < env.size(); i++) std::swap(env[i], env[c.range((int)i, (int)env.size() - 1)]);
    if (c.tracing) for (auto& e : env) c.logf("%s=\"%s\"", e.first.c_str(), g_strescape(e.second.c_str(), NULL));
    const std::string out = run(c, env);
    const size_t at = out.find("\n@@@ ");
    VP_CHECK(c, at != std::string::npos, "no output");
    int lev, ts, tid, me;
    long t0, t1;
    VP_CHECK(c, sscanf(out.c_str() + at, "\n@@@ %d %d %d %d %ld", &lev, &ts, &tid, &me, &t0) == 5, "can't parse the output");
    VP_EQ(c, lev, val[0], "default level");
    VP_EQ(c, ts, val[1], "time stamps");
    VP_EQ(c, tid, val[2], "thread ids");
    const size_t end = out.find("\n@@@ ", at + 1);
    VP_CHECK(c, end != std::string::npos, "no end of output");
    t1 = atol(out.c_str() + end + 5);
    /* The queries and the messages in between */
    std::vector<std::string> lines;
    for (size_t p = out.find('\n', at + 1) + 1; p <= end;) {
        const size_t e = out.find('\n', p);
        lines.push_back(out.substr(p, e - p));
        p = e + 1;
    }
    std::string en;
    size_t k = 1;
    for (int i = MINLEV; i <= MAXLEV; i++) {
        const bool on = i == GLOG_LEVEL_ALWAYS || (i > GLOG_LEVEL_NONE && i <= val[0]);
        en += on ? '1' : '0';
        if (!on) continue;
        VP_CHECK(c, k < lines.size(), "message of level %d is missing", i);
        const std::string& got = lines[k++];
        bool match = false;
        for (time_t t = t0; t <= t1 && !match; t++) {
            char buf[64] = "";
            struct tm tm;
            localtime_r(&t, &tm);
            if (val[1]) strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S ", &tm);
            std::string want = val[2] ? "[" + std::to_string(me) + "] " : std::string();
            want += buf;
            want += i == GLOG_LEVEL_ERR ? "ERROR: " : i == GLOG_LEVEL_WARN ? "WARNING: " : "";
            want += "message " + std::to_string(i);
            match = got == want;
        }
        VP_CHECK(c, match, "wrong line \"%s\" for level %d", got.c_str(), i);
    }
    VP_EQ(c, k, lines.size(), "number of lines");
    VP_CHECK(c, lines[0] == en, "enabled levels %s, expected %s", lines[0].c_str(), en.c_str());
    /* The library may tell what it has been configured with, according to that configuration */
    for (size_t p = 0; p < at; ) {
        const size_t e = out.find('\n', p);
        VP_CHECK(c, val[0] >= GLOG_LEVEL_DEBUG || builtin >= GLOG_LEVEL_DEBUG, "unexpected output at startup");
        p = e + 1;
    }
    if (env.size()) c.nontrivial();
    if (applied) c.label("something configured");
    if (applied < (int)env.size()) c.label("something ignored");
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C28";
    p.rule = "a process is started with any combination of the three variables, each one with a valid, nearly valid or random "
        "value; it reports the resulting configuration and logs a message of each level; non-trivial = some variables are set";
    p.targets = { { "startup", startup, 1, 100 } };
    p.child = child;
    p.no_fuzz = true;
    return p;
}
