// VP-CONFIGS: plain
// VP-NEEDS: libs
// VP-ASSUMES: gcc and clang, C99 or later, C++11 or later
/* C29: logging and assertion macros */
#include <errno.h>
#include "programs.h"
using namespace vp;

namespace {

enum { NONE, ERR, WARN, INFO, DBG, VERBOSE };
const char* const MACRO[] = { "", "GERR", "GWARN", "GINFO", "GDEBUG", "GVERBOSE" };
const char* const CONST[] = { "GLOG_LEVEL_NONE", "GLOG_LEVEL_ERR", "GLOG_LEVEL_WARN", "GLOG_LEVEL_INFO", "GLOG_LEVEL_DEBUG", "GLOG_LEVEL_VERBOSE" };

const char PRELUDE[] =
    "#include <gutil_log.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n"
    "static unsigned calls, evals;\nstatic char text[4096];\nstatic int level;\nstatic const GLogModule* module;\n"
    "static int ev(int x) { evals++; return x; }\n"
    "static void fn(const GLogModule* m, int l, const char* f, va_list va)\n"
    "{ calls++; module = m; level = l; vsnprintf(text, sizeof(text), f, va); }\n"
    "static void fail(int n, const char* what) { printf(\"step %d: %s (%u calls, %u evaluations, level %d, %s)\\n\", n, what, calls, evals, level, text); exit(1); }\n"
    "static void begin(void) { calls = evals = 0; level = -77; module = NULL; text[0] = 0; }\n"
    "static void expect(int n, unsigned c, unsigned e, int l, const GLogModule* m, const char* t)\n{\n"
    "    if (calls != c) fail(n, \"wrong number of messages\");\n"
    "    if (evals != e) fail(n, \"arguments evaluated wrong number of times\");\n"
    "    if (c && level != l) fail(n, \"wrong level\");\n"
    "    if (c && module != m) fail(n, \"wrong module\");\n"
    "    if (c && t && strcmp(text, t)) fail(n, \"wrong text\");\n}\n";

std::string S(long long n) { return std::to_string(n); }
std::string quote(const std::string& s) {
    std::string q = "\"";
    for (char ch : s) {
        if (ch == '"' || ch == '\\') q += '\\';
        q += ch;
    }
    return q + "\"";
}

/*
 * Expression with the known value. Has operators of all kinds, and calls
 * ev() a known number of times. Never has a comma on the top level.
 */
struct Expr { std::string s; long long v; int evals; };

Expr leaf(Ctx& c, int v)
{
    switch (c.range(0, 3)) {
    case 0: return { S(v), v, 0 };
    case 1: return { "(" + S(v) + ")", v, 0 };
    default: return { "ev(" + S(v) + ")", v, 1 };
    }
}

Expr expr(Ctx& c, bool quiet = false)
{
    Expr a = leaf(c, c.coin() ? c.range(0, 1) : c.range(-9, 9)), b = leaf(c, c.coin() ? c.range(0, 1) : c.range(-9, 9)), x = leaf(c, c.range(-2, 2));
    if (quiet) { a = { S(a.v), a.v, 0 }; b = { S(b.v), b.v, 0 }; x = { S(x.v), x.v, 0 }; }
    switch (c.range(0, 19)) {
    case 0: return { a.s + " && " + b.s, a.v && b.v, a.evals + (a.v ? b.evals : 0) };
    case 1: return { a.s + " || " + b.s, a.v || b.v, a.evals + (a.v ? 0 : b.evals) };
    case 2: return { a.s + " ? " + b.s + " : " + x.s, a.v ? b.v : x.v, a.evals + (a.v ? b.evals : x.evals) };
    case 3: return { a.s + " | " + b.s, a.v | b.v, a.evals + b.evals };
    case 4: return { a.s + " ^ " + b.s, a.v ^ b.v, a.evals + b.evals };
    case 5: return { a.s + " & " + b.s, a.v & b.v, a.evals + b.evals };
    case 6: return { a.s + " == " + b.s, a.v == b.v, a.evals + b.evals };
    case 7: return { a.s + " != " + b.s, a.v != b.v, a.evals + b.evals };
    case 8: return { a.s + " < " + b.s, a.v < b.v, a.evals + b.evals };
    case 9: return { a.s + " >= " + b.s, a.v >= b.v, a.evals + b.evals };
    case 10: return { a.s + " + " + b.s, a.v + b.v, a.evals + b.evals };
    case 11: return { a.s + " - " + b.s, a.v - b.v, a.evals + b.evals };
    case 12: return { a.s + " * " + b.s, a.v * b.v, a.evals + b.evals };
    case 13: return { "!" + a.s, !a.v, a.evals };
    case 14: return { "v = " + a.s, a.v, a.evals };
    case 15: return { "(" + a.s + ", " + b.s + ")", b.v, a.evals + b.evals };
    case 16: return { "(long long)" + a.s + " * 4294967296ll", a.v * 4294967296ll, a.evals };
    case 17: return { a.s + " == " + b.s + " && " + x.s, a.v == b.v && x.v, a.evals + b.evals + (a.v == b.v ? x.evals : 0) };
    case 18: return { a.s + " << 3 | " + "1", a.v * 8 | 1, a.evals };
    default: return a;
    }
}

/* Places a statement where only one statement is allowed */
std::string place(Ctx& c, const std::string& macro, const std::string& other)
{
    switch (c.range(0, 9)) {
    case 0: return "    if (yes) " + macro + "; else " + other + ";\n";
    case 1: return "    if (no) " + other + "; else " + macro + ";\n";
    case 2: return "    for (i = 0; i < 1; i++) " + macro + ";\n";
    case 3: return "    do " + macro + "; while (no);\n";
    case 4: return "    if (no) if (yes) " + macro + "; else " + other + "; else; " + macro + ";\n";
    case 5: return "    if (yes) if (no) " + other + "; else " + macro + ";\n";
    case 6: return "    switch (yes) { case 0: " + other + "; break; case 1: " + macro + "; break; default: " + other + "; }\n";
    case 7: return "    while (yes) { " + macro + "; break; }\n";
    default: return "    " + macro + ";\n";
    }
}

void programs(Ctx& c)
{
    const prog::Lang* l = prog::LANGS + c.range(0, prog::NLANGS - 1);
    const int link = c.range(0, prog::NLINKS - 1);
    const bool debug = c.coin(), has_max = c.coin();
    const int max = has_max ? c.range(-1, 6) : debug ? 5 : 4;
    const int module = c.range(0, 2);       /* 0 - no module, 1 - own, 2 - with a parent */
    std::vector<std::string> flags;
    if (debug) flags.push_back("-DDEBUG");
    if (has_max) flags.push_back("-DGLOG_LEVEL_MAX=" + (c.coin() && max >= 0 && max <= 5 ? std::string(CONST[max]) : S(max)));
    const bool assert_level = c.chance(40);
    int alevel = debug ? ERR : max + 1;
    if (assert_level) {
        alevel = c.range(1, 6);
        flags.push_back("-DGLOG_LEVEL_ASSERT=" + S(alevel));
    }
    const bool asserts = max >= alevel;
    std::string src;
    const bool dflag = module && c.coin();
    if (module) {
        if (dflag) flags.push_back("-DGLOG_MODULE_NAME=vp_log");
        else src += "#define GLOG_MODULE_NAME vp_log\n";
    }
    if (c.chance(60)) src += "#include <gutil_misc.h>\n";
    src += PRELUDE;
    if (module == 2) src += "static GLOG_MODULE_DEFINE_(vp_parent, \"parent\");\n";
    if (module) src += module == 2 ? "GLOG_MODULE_DEFINE2(\"vp\", vp_parent)\n" : "GLOG_MODULE_DEFINE(\"vp\")\n";
    if (module) src += ";\n";
    src += "static GError* error(const char* message) { static GError e; memset(&e, 0, sizeof(e)); e.message = (char*)message; return &e; }\n";
    src += "int main(void) {\n    static const unsigned char data[] = \"0123456789abcdefghi\";\n    static long long v;\n    static int yes = 1, no, i;\n"
        "    static const char* format = \"<%d>\";\n    gutil_log_func2 = fn;\n    (void)v; (void)yes; (void)no; (void)i; (void)data; (void)format;\n";
    if (module) {
        src += "    if (vp_log.level != GLOG_LEVEL_INHERIT || vp_log.flags || vp_log.log_proc || vp_log.max_level != GLOG_LEVEL_MAX || strcmp(vp_log.name, \"vp\")) "
            "fail(0, \"wrong module\");\n";
        src += std::string("    if (vp_log.parent != ") + (module == 2 ? "&vp_parent" : "NULL") + ") fail(0, \"wrong parent\");\n";
    }
    const std::string mod = module ? "&vp_log" : "&gutil_log_default";
    int own = -1, parent = -1, def = 3, effective;
    const int n = c.range(1, 25);
    bool some = false, none = false;
    src += "    gutil_log_default.level = 3;\n";
    for (int k = 1; k <= n; k++) {
        const std::string step = S(k);
        effective = module && own != -1 ? own : module == 2 && parent != -1 ? parent : def;
        const int lev = c.range(1, 5);
        const std::string m = MACRO[lev];
        /* Present in the program, and allowed at run time */
        const bool compiled = max >= lev, out = compiled && lev <= effective;
        auto expect = [&](bool called, int evals, int lv, const std::string& t) {
            src += "    expect(" + step + ", " + (called ? "1" : "0") + ", " + S(evals) + ", " + S(lv) + ", " + mod + ", " + t + ");\n";
            (called ? some : none) = true;
        };
        src += "    begin();\n";
        const int a = c.range(-50, 50), b = c.range(-50, 50);
        /* Something that must not be executed */
        const std::string other = std::string(MACRO[c.range(1, 5)]) + "(\"other %d\", ev(1))";
        switch (c.range(0, 13)) {
        case 0:
            src += place(c, m + "(\"a %d b %s %d\", ev(" + S(a) + "), \"str\", ev(" + S(b) + "))", other);
            expect(out, compiled ? 2 : 0, lev, quote("a " + S(a) + " b str " + S(b)));
            break;
        case 1: {
            const Expr x = expr(c);
            if (c.coin()) {
                src += place(c, m + "(\"%lld%s\", (long long)(" + x.s + "), no ? \"\" : \"!\")", other);
                expect(out, compiled ? x.evals : 0, lev, quote(S(x.v) + "!"));
            } else {
                src += place(c, m + "_(\"%lld%s\", (long long)(" + x.s + "), yes ? \"\" : \"!\")", other);
                expect(out, compiled ? x.evals : 0, lev, quote("main() " + S(x.v)));
            }
            break;
        }
        case 2:
            src += place(c, m + "(\"just text\")", other);
            expect(out, 0, lev, quote("just text"));
            break;
        case 3:
            src += place(c, m + "_(\"x %d\", ev(" + S(a) + "))", other);
            expect(out, compiled ? 1 : 0, lev, quote("main() x " + S(a)));
            break;
        case 4:
            src += place(c, m + "_(\"text\")", other);
            expect(out, 0, lev, quote("main() text"));
            break;
        case 12:
            /* Format isn't necessarily a constant */
            src += place(c, m + "(no ? \"no\" : format, ev(" + S(a) + "))", other);
            expect(out, compiled ? 1 : 0, lev, quote("<" + S(a) + ">"));
            break;
        case 13: {
            /* Nothing to do with assertions if there are none */
            static const char* const V[] = { "GASSERT(ev(1))", "GASSERT(1)" };
            const int t = c.range(0, 1);
            src += place(c, V[t], other);
            expect(false, asserts && !t, 0, "NULL");
            break;
        }
        case 5: {
            /* A plain statement, used as the only one in both branches */
            const int lev2 = c.range(1, 5);
            src += "    if (ev(" + S(a & 1) + ")) " + m + "(\"yes\"); else " + MACRO[lev2] + "(\"no\");\n";
            const int L = (a & 1) ? lev : lev2;
            expect(max >= L && L <= effective, 1, L, (a & 1) ? quote("yes") : quote("no"));
            break;
        }
        case 6: {
            const bool v = max >= DBG && DBG <= effective;
            const int size = c.range(1, 16);
            int evals = 0;
            if (c.coin()) {
                switch (c.range(0, 2)) {
                case 0: src += place(c, "GDEBUG_DUMP(data, " + S(size) + ")", other); break;
                case 1: src += place(c, "GDEBUG_DUMP(data + ev(1), ev(" + S(size) + "))", other); evals = 2; break;
                case 2: src += place(c, "GDEBUG_DUMP(no ? NULL : data, yes ? ev(" + S(size) + ") : 0)", other); evals = 1; break;
                }
            } else {
                src += "    { GBytes* b = g_bytes_new(data, " + S(size) + ");\n" + (c.coin() ? place(c, "GDEBUG_DUMP_BYTES(b)", other) :
                    (evals = 1, place(c, "GDEBUG_DUMP_BYTES(ev(1) ? b : NULL)", other))) + "    g_bytes_unref(b); }\n";
            }
            expect(v, max >= DBG ? evals : 0, DBG, "NULL");
            break;
        }
        case 7: {
            const int lv = c.range(-1, 6);
            src += "    if (!GLOG_ENABLED(" + S(lv) + ") != " + (lv > 0 && lv <= effective ? "0" : "1") + ") fail(" + step + ", \"GLOG_ENABLED\");\n";
            expect(false, 0, 0, "NULL");
            break;
        }
        case 8: {
            const Expr x = expr(c);
            src += place(c, "GASSERT(" + x.s + ")", other);
            if (asserts) expect(!x.v && alevel <= effective, x.evals, alevel, "NULL");
            else expect(false, 0, 0, "NULL");
            break;
        }
        case 9: {
            static const char* const V[] = { "GVERIFY_EQ", "GVERIFY_NE", "GVERIFY_GE", "GVERIFY_GT", "GVERIFY_LE", "GVERIFY_LT" };
            const int k = c.range(0, 5);
            const Expr x = expr(c);
            Expr y = expr(c, true);
            if (c.coin()) y = { S(x.v) + "ll", x.v, 0 };
            const bool ok[] = { x.v == y.v, x.v != y.v, x.v >= y.v, x.v > y.v, x.v <= y.v, x.v < y.v };
            /* These are used as statements */
            src += place(c, std::string(V[k]) + "(" + x.s + ", " + y.s + ")", other);
            expect(asserts && !ok[k] && alevel <= effective, x.evals, alevel, "NULL");
            break;
        }
        case 10: {
            const bool neg = c.coin();
            const Expr x = expr(c);
            src += place(c, std::string(neg ? "GVERIFY_FALSE" : "GVERIFY") + "(" + x.s + ")", other);
            expect(asserts && !x.v == !neg && alevel <= effective, x.evals, alevel, "NULL");
            break;
        }
        case 11: {
            const int t = c.range(0, 2);
            src += std::string("    if (strcmp(GERRMSG(") + (t == 0 ? "(GError*)NULL" : t == 1 ? "error(NULL)" : "error(\"oops\")") + "), " +
                (t == 2 ? "\"oops\"" : "\"Unknown error\"") + ")) fail(" + step + ", \"GERRMSG\");\n";
            expect(false, 0, 0, "NULL");
            break;
        }
        }
        if (c.chance(80)) {
            def = c.range(0, 5);
            src += "    gutil_log_default.level = " + std::string(CONST[def]) + ";\n";
        }
        if (module && c.chance(60)) {
            own = c.range(-1, 5);
            src += "    vp_log.level = " + S(own) + ";\n";
        }
        if (module == 2 && c.chance(60)) {
            parent = c.range(-1, 5);
            src += "    vp_parent.level = " + S(parent) + ";\n";
        }
    }
    src += "    return 0;\n}\n";
    prog::build_and_run(c, *l, flags, link, src);
    if (some && none) c.nontrivial();
    if (module) c.label("with a module");
    if (asserts) c.label("with assertions");
}

/* Message of the failed assertion */
void fixed_assert(Ctx& c)
{
    std::string src = PRELUDE;
    src += "int main(void) {\n    int x = 2;\n    gutil_log_func2 = fn;\n    begin();\n    GASSERT(x + 1 == 2);\n"
        "    if (calls != 1 || !strstr(text, \"x + 1 == 2\") || !strstr(text, \"prog.c\")) fail(1, \"assertion\");\n    return 0;\n}\n";
    prog::build_and_run(c, prog::LANGS[0], {"-DDEBUG"}, prog::STATIC_REL, src);
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C29";
    p.rule = "programs in one of 12 C and C++ dialects (two compilers) with random configuration (DEBUG, maximum, assertion level, module with or "
        "without a parent), making up to 25 uses of logging, dump, verification and assertion macros with changes of the levels in between, "
        "linked with one of the four library builds and run; non-trivial = some of the messages were expected and some not";
    p.targets = { { "programs", programs, 1, 300 } };
    p.fixed = { { "assert-message", fixed_assert } };
    p.no_fuzz = true;
    return p;
}
