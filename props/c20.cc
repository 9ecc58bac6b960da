// VP-ASSUMES: module names are unique (ignoring the case) and have no colons, there are no cycles of parents, gutil_log_default has no parent
/* C20: log filtering */
#include "vp.h"
#include <gutil_log.h>
#include <glib.h>
#include <stdlib.h>
#include <algorithm>
using namespace vp;

extern "C" void gutil_log_assert(const GLogModule*, int, const char*, const char*, int);

namespace {

enum { MAX = 8, DEF = MAX, NONE = MAX + 1 };

/* What the log functions have been called with */
struct Call {
    int fn;                 /* 0 gutil_log_func, 1 gutil_log_func2, 2+ own function of a module */
    const GLogModule* module;
    std::string name;
    bool has_name;
    int level;
    std::string text;
};
std::vector<Call> calls;
const GLogModule* chain_to;  /* Log function #3 logs one more message there */
int chain_level;

void add(int fn, const GLogModule* m, const char* name, int level, const char* format, va_list va) {
    Call k;
    k.fn = fn;
    k.module = m;
    k.has_name = name != NULL;
    if (name) k.name = name;
    k.level = level;
    char* s = g_strdup_vprintf(format, va);
    k.text = s;
    g_free(s);
    calls.push_back(k);
}
void fn0(const char* name, int level, const char* f, va_list va) { add(0, NULL, name, level, f, va); }
void fn1(const GLogModule* m, int level, const char* f, va_list va) { add(1, m, m ? m->name : NULL, level, f, va); }
void fn2(const GLogModule* m, int level, const char* f, va_list va) { add(2, m, m ? m->name : NULL, level, f, va); }
void fn3(const GLogModule* m, int level, const char* f, va_list va) {
    add(3, m, m ? m->name : NULL, level, f, va);
    if (chain_to) {
        const GLogModule* to = chain_to;
        chain_to = NULL;
        gutil_log(to, chain_level, "chained %d", level);
    }
}

GLogProc saved_func;
GLogProc2 saved_func2;
int saved_level, saved_flags;
const char* saved_name;

void init() {
    saved_func = gutil_log_func;
    saved_func2 = gutil_log_func2;
    saved_level = gutil_log_default.level;
    saved_flags = gutil_log_default.flags;
    saved_name = gutil_log_default.name;
}
void restore() {
    gutil_log_func = saved_func;
    gutil_log_func2 = saved_func2;
    gutil_log_default.level = saved_level;
    gutil_log_default.flags = saved_flags;
    gutil_log_default.name = saved_name;
    gutil_log_default.log_proc = NULL;
    chain_to = NULL;
    calls.clear();
}

const char* const level_names[] = { "none", "error", "warning", "info", "debug", "verbose" };

/* GLogModule has a const member, it can't be default constructed */
#define MODULE(n) { n, NULL, NULL, GLOG_LEVEL_VERBOSE, GLOG_LEVEL_INHERIT, 0, 0 }

struct World {
    Ctx& c;
    GLogModule m[MAX] = { MODULE("alpha"), MODULE("alphabet"), MODULE("Beta"), MODULE("b"), MODULE("x-1"), MODULE("12"), MODULE("none"), MODULE("") };
    int parent[MAX];
    bool use_func2;         /* custom gutil_log_func2 */
    int n;
    bool inherited, blocked, emitted;

    World(Ctx& ctx) : c(ctx), use_func2(false), inherited(false), blocked(false), emitted(false) {
        n = c.range(1, MAX);
        for (int i = 0; i < MAX; i++) parent[i] = -1;
        gutil_log_func = fn0;
    }
    GLogModule* mod(int i) { return i == DEF ? &gutil_log_default : i == NONE ? NULL : m + i; }
    int any() { return c.chance(40) ? DEF : c.chance(30) ? NONE : c.range(0, n - 1); }
    int level() {
        return c.chance(20) ? c.pick({6, -3, 100, G_MAXINT, G_MININT, -4}) : c.range(-1, 5);
    }
    int msglevel() {
        return c.chance(12) ? c.pick({6, -3, 100, G_MAXINT, G_MININT}) : c.range(-2, 5);
    }
    /* The model */
    bool enabled(int i, int lev, bool note = false) {
        if (lev == GLOG_LEVEL_NONE || !gutil_log_func2) return false;
        if (i == NONE) i = DEF;
        int max;
        for (;;) {
            const GLogModule* x = mod(i);
            if (x->flags & GLOG_FLAG_DISABLE) return false;
            if (x->level != GLOG_LEVEL_INHERIT) { max = x->level; break; }
            if (i == DEF || parent[i] < 0) { max = gutil_log_default.level; break; }
            i = parent[i];
            if (note) inherited = true;
        }
        if (lev == GLOG_LEVEL_ALWAYS) return true;
        return lev > GLOG_LEVEL_NONE && lev <= max;
    }
    /* The expected call for the message emitted by the module */
    void expect(std::vector<Call>& out, int i, int lev, const std::string& text) {
        if (!enabled(i, lev)) return;
        const int e = i == NONE ? (int)DEF : i;
        GLogModule* x = mod(e);
        Call k;
        k.module = x;
        k.level = lev;
        k.text = text;
        k.has_name = x->name != NULL;
        k.name = x->name ? x->name : "";
        if (x->log_proc) {
            k.fn = x->log_proc == fn2 ? 2 : 3;
        } else if (use_func2) {
            k.fn = 1;
        } else {
            if (!gutil_log_func) return;
            k.fn = 0;
            k.module = NULL;
            if (x->flags & GLOG_FLAG_HIDE_NAME) { k.has_name = false; k.name = ""; }
        }
        out.push_back(k);
    }
    void compare(const std::vector<Call>& want, const char* what) {
        VP_EQ(c, calls.size(), want.size(), what);
        for (size_t i = 0; i < want.size(); i++) {
            const Call& a = calls[i];
            const Call& b = want[i];
            VP_CHECK(c, a.fn == b.fn, "%s: wrong function %d, expected %d", what, a.fn, b.fn);
            VP_CHECK(c, a.module == b.module, "%s: wrong module", what);
            VP_CHECK(c, a.has_name == b.has_name && a.name == b.name, "%s: wrong name \"%s\"", what, a.name.c_str());
            VP_CHECK(c, a.level == b.level, "%s: wrong level %d", what, a.level);
            VP_CHECK(c, a.text == b.text, "%s: wrong text \"%s\", expected \"%s\"", what, a.text.c_str(), b.text.c_str());
        }
    }
    void check_enabled() {
        for (int i = 0; i <= NONE; i++) {
            if (i >= n && i < DEF) continue;
            for (int lev = -3; lev <= 6; lev++) {
                VP_CHECK(c, !!gutil_log_enabled(mod(i), lev) == enabled(i, lev), "module %d level %d must be %s", i, lev,
                    enabled(i, lev) ? "enabled" : "disabled");
            }
        }
    }
};

void vlog(const GLogModule* m, int level, const char* f, ...) {
    va_list va;
    va_start(va, f);
    gutil_logv(m, level, f, va);
    va_end(va);
}

void filtering(Ctx& c)
{
    restore();
    World w(c);
    Swarm s(c, 14);
    while (c.more() && c.steps++ < 60) {
        calls.clear();
        switch (s.op(c)) {
        case 0: case 1: {
            const int i = c.range(0, w.n), lev = w.level();
            VP_LOG(c, "level of %d = %d", i == w.n ? -1 : i, lev);
            (i == w.n ? gutil_log_default : w.m[i]).level = lev;
            break;
        }
        case 2: {
            const int i = c.range(0, w.n);
            const int f = c.pick({0, 0, GLOG_FLAG_DISABLE, GLOG_FLAG_HIDE_NAME, 3, ~GLOG_FLAG_DISABLE});
            VP_LOG(c, "flags of %d = %x", i == w.n ? -1 : i, f);
            (i == w.n ? gutil_log_default : w.m[i]).flags = f;
            break;
        }
        case 3: case 4: {
            const int i = c.range(0, w.n - 1);
            const int p = c.range(-2, i - 1);
            w.parent[i] = p;
            w.m[i].parent = p == -2 ? &gutil_log_default : p == -1 ? NULL : w.m + p;
            w.parent[i] = p == -2 ? DEF : p;
            VP_LOG(c, "parent of %d = %d", i, p);
            break;
        }
        case 5: {
            const int i = c.range(0, w.n);
            const GLogProc2 f = c.pick<GLogProc2>({NULL, fn2, fn3});
            VP_LOG(c, "function of %d = %s", i == w.n ? -1 : i, f == fn2 ? "fn2" : f == fn3 ? "fn3" : "NULL");
            (i == w.n ? gutil_log_default : w.m[i]).log_proc = f;
            break;
        }
        case 6: {
            const int k = c.range(0, 5);
            VP_LOG(c, "global functions %d", k);
            gutil_log_func = k == 1 ? NULL : fn0;
            gutil_log_func2 = k == 2 ? NULL : k >= 4 ? fn1 : saved_func2;
            w.use_func2 = k >= 4;
            break;
        }
        case 7:
            w.check_enabled();
            break;
        case 8: {
            const std::string p = c.str(c.len(5), "ab%s");
            const std::string d = c.bytes(c.len(70));
            const int i = w.any(), lev = w.msglevel();
            const bool null = c.chance(50), bytes = c.coin();
            VP_LOG(c, "dump %d bytes, module %d, level %d", (int)d.size(), i, lev);
            GBytes* b = g_bytes_new(d.data(), d.size());
            if (bytes) gutil_log_dump_bytes(w.mod(i), lev, null ? NULL : p.c_str(), b);
            else gutil_log_dump(w.mod(i), lev, null ? NULL : p.c_str(), d.data(), d.size());
            g_bytes_unref(b);
            std::vector<Call> want;
            for (size_t off = 0; off < d.size(); off += 16) w.expect(want, i, lev, "");
            VP_EQ(c, calls.size(), want.size(), "number of dumped lines");
            for (auto& k : calls) k.text.clear();
            w.compare(want, "dump");
            gutil_log_dump_bytes(w.mod(i), lev, p.c_str(), NULL);
            VP_EQ(c, calls.size(), want.size(), "NULL bytes are dumped");
            break;
        }
        default: {
            const int i = w.any(), lev = w.msglevel();
            const bool en = w.enabled(i, lev, true);
            VP_EQ(c, !!gutil_log_enabled(w.mod(i), lev), en, "enabled");
            VP_EQ(c, calls.size(), 0, "calls made by gutil_log_enabled");
            std::vector<Call> want;
            const int how = c.range(0, 3);
            chain_to = NULL;
            if (how == 3) {
                w.expect(want, i, lev, "Assert x > 1 failed at file.c:12");
                gutil_log_assert(w.mod(i), lev, "x > 1", "file.c", 12);
            } else {
                const int x = c.i32();
                w.expect(want, i, lev, std::string("message ") + std::to_string(x) + " %s");
                if (want.size() && want[0].fn == 3 && c.coin()) {
                    const int to = w.any();
                    chain_level = w.msglevel();
                    if (to != NONE) {
                        chain_to = w.mod(to);
                        w.expect(want, to, chain_level, std::string("chained ") + std::to_string(lev));
                        c.label("message from a log function");
                    }
                }
                if (how == 2) vlog(w.mod(i), lev, "message %d %%s", x);
                else gutil_log(w.mod(i), lev, "message %d %s", x, "%s");
            }
            VP_LOG(c, "message, module %d, level %d: %s", i, lev, en ? "emitted" : "blocked");
            w.compare(want, "message");
            (en ? w.emitted : w.blocked) = true;
            break;
        }
        }
    }
    w.check_enabled();
    if (w.emitted && w.blocked) c.nontrivial();
    if (w.inherited) c.label("inherited level");
    restore();
}

void options(Ctx& c)
{
    restore();
    World w(c);
    GLogModule* list[MAX];
    int order[MAX];
    int count = 0;
    /* Known modules are some of those, in any order */
    for (int i = 0; i < w.n; i++) if (!c.chance(40)) {
        const int pos = c.range(0, count);
        for (int k = count; k > pos; k--) { list[k] = list[k - 1]; order[k] = order[k - 1]; }
        list[pos] = w.m + i;
        order[pos] = i;
        count++;
    }
    for (int i = 0; i < w.n; i++) w.m[i].level = w.level();
    gutil_log_default.level = w.level();
    bool accepted = false, rejected = false;
    for (int k = 0; k < 8 && (c.more() || !k); k++) {
        /* Level */
        int lev = -1;
        std::string l;
        switch (c.range(0, 5)) {
        case 0: lev = c.range(0, 5); l = std::string(1, '0' + lev); break;
        case 1: lev = c.range(0, 5); l = level_names[lev]; break;
        case 2: lev = c.range(0, 5); l = std::string(level_names[lev]).substr(0, c.range(1, (int)strlen(level_names[lev]))); break;
        case 3: l = level_names[c.range(0, 5)]; l = l.substr(0, c.range(0, (int)l.size())) + c.str(c.range(0, 2), "e s0r1:"); break;
        case 4: l = c.pick({"", " ", "6", "-1", "00", "05", "10", "ERROR", "Info", " info", "info ", "err,", "/", ":"}); break;
        default: l = c.str(c.len(8), c.coin() ? "nonerrwaigdebuvs012345:" : NULL);
        }
        /* Module */
        std::string name;
        bool sep = c.chance(170);
        if (sep) {
            name = c.chance(200) ? std::string(w.m[c.range(0, w.n - 1)].name) : c.str(c.len(8), "alphbet");
            if (c.chance(60) && name.size()) {
                if (c.coin()) name[c.range(0, (int)name.size() - 1)] ^= 0x20;
                else if (c.coin()) name.resize(name.size() - 1);
                else name += c.pick({"x", " ", "a"});
            }
        }
        const std::string opt = sep ? name + ":" + l : l;
        /* Reference parser */
        const size_t colon = opt.find(':');
        const std::string ls = colon == std::string::npos ? opt : opt.substr(colon + 1);
        const std::string ms = colon == std::string::npos ? std::string() : opt.substr(0, colon);
        int value = -1;
        if (ls.size() == 1 && ls[0] >= '0' && ls[0] <= '5') value = ls[0] - '0';
        else if (ls.size()) for (int i = 0; i < 6; i++) if (!strncmp(level_names[i], ls.c_str(), ls.size())) { value = i; break; }
        int target = -1;
        if (colon == std::string::npos) target = DEF;
        else for (int i = 0; i < count; i++) if (!g_ascii_strcasecmp(list[i]->name, ms.c_str())) { target = order[i]; break; }
        const bool ok = value >= 0 && target >= 0;
        int before[MAX + 1];
        for (int i = 0; i < MAX; i++) before[i] = w.m[i].level;
        before[DEF] = gutil_log_default.level;
        if (ok) before[target] = value;
        GError* error = NULL;
        const bool want_error = !c.chance(60);
        char* p = g_strdup(opt.c_str());
        const gboolean r = gutil_log_parse_option(p, count || c.coin() ? list : NULL, count, want_error ? &error : NULL);
        char* esc = g_strescape(opt.c_str(), NULL);
        VP_LOG(c, "\"%s\": %s", esc, ok ? "ok" : "error");
        VP_CHECK(c, !strcmp(p, opt.c_str()), "the option string was modified");
        g_free(p);
        VP_CHECK(c, !!r == ok, "option \"%s\" is %s", esc, r ? "accepted" : "rejected");
        VP_CHECK(c, (error != NULL) == (!ok && want_error), "error for option \"%s\"", esc);
        if (error) VP_CHECK(c, error->message && error->message[0], "no error message");
        g_clear_error(&error);
        for (int i = 0; i < MAX; i++) VP_CHECK(c, w.m[i].level == before[i], "\"%s\": level of module %d is %d, expected %d", esc, i, w.m[i].level, before[i]);
        VP_CHECK(c, gutil_log_default.level == before[DEF], "\"%s\": default level is %d, expected %d", esc, gutil_log_default.level, before[DEF]);
        for (int i = 0; i < MAX; i++) VP_CHECK(c, !w.m[i].flags && !w.m[i].log_proc && !w.m[i].parent, "module %d changed", i);
        g_free(esc);
        (ok ? accepted : rejected) = true;
        if (ok && target != DEF) c.label("module option");
    }
    w.check_enabled();
    VP_EQ(c, calls.size(), 0, "log messages");
    if (accepted || (rejected && count)) c.nontrivial();
    restore();
}

/* GLogModule can't be copied */
struct Modules {
    std::vector<std::string> names;
    GLogModule* m;
    Modules(std::vector<std::string> n) : names(n), m((GLogModule*)calloc(n.size() + 1, sizeof(GLogModule))) {
        for (size_t i = 0; i < names.size(); i++) {
            *(const char**)&m[i].name = names[i].c_str();
            *(int*)&m[i].max_level = GLOG_LEVEL_VERBOSE;
            m[i].level = GLOG_LEVEL_INHERIT;
        }
    }
    ~Modules() { free(m); }
};

/* A long chain of parents */
void deep(Ctx& c)
{
    restore();
    gutil_log_func = fn0;
    const int n = 1 + (c.chance(10) ? (int)c.range(250, 3000) : (int)c.len(300));
    std::vector<std::string> names;
    for (int i = 0; i < n; i++) names.push_back("m" + std::to_string(i));
    Modules x(names);
    for (int i = 1; i < n; i++) x.m[i].parent = &x.m[i - 1];
    const bool top_default = c.coin();
    if (top_default) x.m[0].parent = &gutil_log_default;
    gutil_log_default.level = c.range(-1, 5);
    gutil_log_default.flags = c.chance(30) ? GLOG_FLAG_DISABLE : 0;
    /* Some of them aren't like the others */
    for (int k = c.range(0, 4); k > 0; k--) {
        const int i = c.coin() ? n - 1 - (int)(c.u32() % n) : c.range(0, 9) % n;
        switch (c.range(0, 3)) {
        case 0: x.m[i].flags |= GLOG_FLAG_DISABLE; break;
        case 1: x.m[i].flags |= GLOG_FLAG_HIDE_NAME; break;
        case 2: x.m[i].log_proc = fn2; break;
        default: x.m[i].level = c.range(0, 5);
        }
    }
    VP_LOG(c, "%d modules, default level %d", n, (int)gutil_log_default.level);
    bool on = false, off = false;
    for (int k = 0; k < 6; k++) {
        const int i = k ? (int)(c.u32() % n) : n - 1, lev = c.range(-2, 5);
        int max = gutil_log_default.level, j = i;
        bool en = true;
        for (; j >= 0; j--) {
            if (x.m[j].flags & GLOG_FLAG_DISABLE) { en = false; break; }
            if (x.m[j].level != GLOG_LEVEL_INHERIT) { max = x.m[j].level; break; }
        }
        if (j < 0 && top_default && (gutil_log_default.flags & GLOG_FLAG_DISABLE)) en = false;
        if (!(lev == GLOG_LEVEL_ALWAYS || (lev > GLOG_LEVEL_NONE && lev <= max))) en = false;
        VP_CHECK(c, !!gutil_log_enabled(&x.m[i], lev) == en, "level %d of module %d (of %d) must be %s", lev, i, n, en ? "enabled" : "disabled");
        calls.clear();
        gutil_log(&x.m[i], lev, "message %d", i);
        VP_EQ(c, calls.size(), (size_t)en, "number of messages");
        if (en) {
            const bool own = x.m[i].log_proc != NULL, hide = (x.m[i].flags & GLOG_FLAG_HIDE_NAME) && !own;
            VP_CHECK(c, calls[0].fn == (own ? 2 : 0), "wrong log function");
            VP_CHECK(c, calls[0].has_name == !hide && calls[0].name == (hide ? std::string() : names[i]), "wrong name \"%s\"", calls[0].name.c_str());
            VP_CHECK(c, calls[0].level == lev && calls[0].text == "message " + std::to_string(i), "wrong message");
        }
        (en ? on : off) = true;
    }
    if (n > 10 && on && off) c.nontrivial();
    if (n > 256) c.label("over 256 parents");
    restore();
}

/* A lot of modules (and long names) to choose from */
void many(Ctx& c)
{
    restore();
    gutil_log_func = fn0;
    const int n = c.chance(40) ? c.range(1, 9) : c.range(250, 700);
    const size_t longer = c.chance(60) ? c.pick({ 254, 65534, 4000, 126 }) + c.range(0, 4) : c.len(40);
    const std::string base(longer, 'n');
    std::vector<std::string> names;
    /* Some of those are the beginnings of the others */
    for (int i = 0; i < n; i++) names.push_back((i & 3 ? base.substr(0, base.size() > 9000 ? 9 : base.size()) : base) + std::to_string(i * 7));
    Modules x(names);
    std::vector<GLogModule*> list;
    for (int i = 0; i < n; i++) list.push_back(&x.m[i]);
    const int shift = (int)(c.u32() % n);
    std::rotate(list.begin(), list.begin() + shift, list.end());
    gutil_log_default.level = GLOG_LEVEL_INFO;
    VP_LOG(c, "%d modules, %d characters", n, (int)longer);
    for (int k = 0; k < 4; k++) {
        std::string name = names[c.u32() % n];
        switch (c.range(0, 5)) {
        case 0: name.resize(name.size() - 1); break;
        case 1: name += (char)('0' + c.range(0, 9)); break;
        case 2: for (char& ch : name) if (g_ascii_isalpha(ch)) ch ^= 0x20; break;
        }
        const int lev = c.range(0, 5);
        /* The list may be shorter than it is */
        const int count = c.chance(60) ? (int)(c.u32() % (n + 1)) : n;
        int found = -1;
        for (int i = 0; i < count && found < 0; i++) if (!g_ascii_strcasecmp(list[i]->name, name.c_str())) found = i;
        std::vector<int> before;
        for (auto* m : list) before.push_back(m->level);
        if (found >= 0) before[found] = lev;
        GError* error = NULL;
        const gboolean ok = gutil_log_parse_option((name + ":" + level_names[lev]).c_str(), list.data(), count, &error);
        VP_EQ(c, !!ok, found >= 0, "result");
        VP_EQ(c, error != NULL, found < 0, "error");
        g_clear_error(&error);
        for (int i = 0; i < n; i++) VP_CHECK(c, list[i]->level == before[i], "level of module %d of %d is %d instead of %d", i, n, list[i]->level, before[i]);
        VP_EQ(c, gutil_log_default.level, GLOG_LEVEL_INFO, "default level");
        if (found > 255) { c.label("over 256 modules"); }
        if (found >= 0) c.nontrivial();
    }
    restore();
}

void fixed_default_disabled(Ctx& c)
{
    restore();
    gutil_log_func = fn0;
    gutil_log_default.flags = GLOG_FLAG_DISABLE;
    VP_CHECK(c, !gutil_log_enabled(NULL, GLOG_LEVEL_ERR), "enabled");
    gutil_log(NULL, GLOG_LEVEL_ERR, "test");
    VP_EQ(c, calls.size(), 0, "messages from the disabled default module");
    restore();
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C20";
    p.rule = "histories of changing levels, flags, parents and log functions of up to 8 modules and the default one, with messages and "
        "dumps of all levels in between, compared with a model of the filter; options built from module names and levels "
        "(correct, abbreviated, mutated, random) against a reference parser; chains of up to 3000 parents and lists of up to 700 modules with names of up to 64K; non-trivial = a message was emitted and another "
        "one was blocked, an option was accepted, or rejected when there were modules to choose from";
    p.targets = { { "filtering", filtering, 60, 300 }, { "options", options, 40, 250 },
        { "deep", deep, 4, 60 }, { "many", many, 2, 40 } };
    p.fixed = { { "default-disabled", fixed_default_disabled } };
    p.init = init;
    p.leak_check = true;
    return p;
}
