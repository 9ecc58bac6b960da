// VP-CONFIGS: plain
// VP-NEEDS: libs
// VP-ASSUMES: gcc and clang, C99 or later, C++11 or later (what GLib needs)
/* C26: public headers and version macros */
#include <errno.h>
#include "programs.h"
#include <glib.h>
#include <dirent.h>
#include <algorithm>
#include <map>
#include <set>
using namespace vp;

namespace {

/*==========================================================================*
 * What's declared
 *==========================================================================*/

struct Header { std::string name; std::vector<std::string> syms; };
std::vector<Header> headers;
struct Ver { unsigned v[3]; std::string name; };
std::vector<Ver> macros;
unsigned current_version[3];
bool ready;

std::string sh(const std::vector<std::string>& a) {
    const std::string out = std::string(scratch()) + "/out";
    if (prog::run(a, out)) return std::string();
    return prog::read_file(out);
}

/*
 * Functions come from the compiler, variables are looked for among
 * the preprocessed lines. Everything's in terms of what the compiler
 * sees, i.e. it doesn't depend on the formatting
 */
void init()
{
    if (ready) return;
    ready = true;
    const std::string inc = prog::env("VP_INCLUDE");
    DIR* d = opendir(inc.c_str());
    if (!d) abort();
    std::vector<std::string> names;
    while (struct dirent* e = readdir(d)) {
        const std::string n = e->d_name;
        if (n.size() > 2 && n.substr(n.size() - 2) == ".h") names.push_back(n);
    }
    closedir(d);
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
        Header h;
        h.name = n;
        const std::string src = std::string(scratch()) + "/h.c", aux = std::string(scratch()) + "/aux";
        prog::write_file(src, "#include <" + n + ">\n");
        std::vector<std::string> a = { "gcc", "-w", "-fsyntax-only", "-DDEBUG", "-aux-info", aux, "-I" + inc };
        for (auto& f : prog::words(prog::env("VP_GLIB_CFLAGS"))) a.push_back(f);
        a.push_back(src);
        unlink(aux.c_str());
        sh(a);
        const std::string info = prog::read_file(aux), mark = "/" + n + ":";
        for (size_t p = 0; p < info.size();) {
            size_t e = info.find('\n', p);
            if (e == std::string::npos) e = info.size();
            const std::string line = info.substr(p, e - p);
            p = e + 1;
            const size_t fn = line.find(inc + mark), op = line.find(" (");
            if (fn == std::string::npos || op == std::string::npos || line.find("extern") == std::string::npos) continue;
            size_t b = op;
            while (b > 0 && (isalnum((unsigned char)line[b - 1]) || line[b - 1] == '_')) b--;
            const std::string s = line.substr(b, op - b);
            if (s == "gutil_log_assert") continue;      /* Only if asserts are enabled */
            if (!s.empty() && std::find(h.syms.begin(), h.syms.end(), s) == h.syms.end()) h.syms.push_back(s);
        }
        /* Variables */
        a = { "gcc", "-w", "-E", "-I" + inc };
        for (auto& f : prog::words(prog::env("VP_GLIB_CFLAGS"))) a.push_back(f);
        a.push_back(src);
        std::string text = sh(a), mine;
        bool on = false;
        for (size_t p = 0; p < text.size();) {
            size_t e = text.find('\n', p);
            if (e == std::string::npos) e = text.size();
            const std::string line = text.substr(p, e - p);
            p = e + 1;
            if (!line.empty() && line[0] == '#') on = line.find("\"" + inc + "/" + n + "\"") != std::string::npos;
            else if (on) mine += line + " ";
        }
        for (size_t p = 0; (p = mine.find("extern ", p)) != std::string::npos; p++) {
            const size_t e = mine.find(';', p);
            std::string s = mine.substr(p, e - p);
            if (s.find('(') != std::string::npos) continue;
            const size_t br = s.find('[');
            if (br != std::string::npos) s = s.substr(0, br);
            while (!s.empty() && !isalnum((unsigned char)s.back())) s.pop_back();
            size_t b = s.size();
            while (b > 0 && (isalnum((unsigned char)s[b - 1]) || s[b - 1] == '_')) b--;
            h.syms.push_back(s.substr(b));
        }
        headers.push_back(h);
        /* Version macros */
        if (n == "gutil_version.h") {
            a = { "gcc", "-w", "-E", "-dM", "-I" + inc };
            for (auto& f : prog::words(prog::env("VP_GLIB_CFLAGS"))) a.push_back(f);
            a.push_back(src);
            text = sh(a);
            for (size_t p = 0; (p = text.find("#define GUTIL_VERSION_", p)) != std::string::npos; p++) {
                Ver v;
                char part[6];
                unsigned x;
                if (sscanf(text.c_str() + p, "#define GUTIL_VERSION_%5[A-Z] %u", part, &x) == 2) {
                    if (!strcmp(part, "MAJOR")) current_version[0] = x;
                    if (!strcmp(part, "MINOR")) current_version[1] = x;
                    if (!strcmp(part, "MICRO")) current_version[2] = x;
                }
                if (sscanf(text.c_str() + p, "#define GUTIL_VERSION_%u_%u_%u ", v.v, v.v + 1, v.v + 2) == 3) {
                    char b[64];
                    sprintf(b, "GUTIL_VERSION_%u_%u_%u", v.v[0], v.v[1], v.v[2]);
                    v.name = b;
                    macros.push_back(v);
                }
            }
        }
    }
    std::sort(macros.begin(), macros.end(), [](const Ver& a, const Ver& b) { return std::lexicographical_compare(a.v, a.v + 3, b.v, b.v + 3); });
}

unsigned word(const unsigned* v) { return (v[0] << 24) | (v[1] << 12) | v[2]; }
std::string num(unsigned long long n) { return std::to_string(n) + "u"; }

/*==========================================================================*
 * Programs
 *==========================================================================*/

std::string cmp_op(Ctx& c, unsigned a, unsigned b, bool* result)
{
    switch (c.range(0, 5)) {
    case 0: *result = a < b; return "<";
    case 1: *result = a <= b; return "<=";
    case 2: *result = a > b; return ">";
    case 3: *result = a >= b; return ">=";
    case 4: *result = a == b; return "==";
    default: *result = a != b; return "!=";
    }
}

/* Version-like expression and its value */
std::string version_expr(Ctx& c, unsigned* value)
{
    switch (c.range(0, 4)) {
    case 0: {
        unsigned v[3] = { (unsigned)c.range(0, 127), (unsigned)c.range(0, 4095), (unsigned)c.range(0, 4095) };
        *value = word(v);
        return "GUTIL_VERSION_(" + std::to_string(v[0]) + "," + std::to_string(v[1]) + "," + std::to_string(v[2]) + ")";
    }
    case 1: {
        *value = word(current_version);
        return "GUTIL_VERSION";
    }
    default: {
        const Ver& v = c.pickv(macros);
        *value = word(v.v);
        return v.name;
    }
    }
}

void programs(Ctx& c)
{
    VP_CHECK(c, headers.size() > 0 && macros.size() > 0, "no headers");
    const prog::Lang& l = prog::LANGS[c.range(0, prog::NLANGS - 1)];
    const int link = c.range(0, prog::NLINKS - 1);
    std::vector<std::string> flags;
    std::string src, body;
    std::vector<int> inc;
    std::set<std::string> used;
    int k, n = c.chance(80) ? 1 : c.range(1, 20);
    bool version = false;
    unsigned line = 0, checks = 0;
    if (c.chance(60)) flags.push_back("-DDEBUG");
    if (c.chance(60)) flags.push_back("-DGLOG_LEVEL_MAX=" + std::to_string(c.range(-2, 5)));
    if (c.chance(40)) flags.push_back("-DGLOG_MODULE_NAME=vp_module");
    if (c.chance(40)) flags.push_back(c.coin() ? "-O2" : "-fPIC");
    if (c.chance(30)) flags.push_back("-fvisibility=hidden");
    for (k = 0; k < n; k++) {
        const int i = c.range(0, (int)headers.size() - 1);
        src += c.chance(200) ? "#include <" + headers[i].name + ">\n" : "#include \"" + headers[i].name + "\"\n";
        if (headers[i].name == "gutil_version.h") version = true;
        inc.push_back(i);
    }
    /* Link to some of what has been declared */
    std::string table;
    n = c.range(1, 60);
    for (k = 0; k < n; k++) {
        const Header& h = headers[c.pickv(inc)];
        if (h.syms.empty()) continue;
        const std::string& s = c.pickv(h.syms);
        if (used.insert(s).second) table += "    (const void*)&" + s + ",\n";
    }
    if (!version && c.coin()) {
        src += "#include <gutil_version.h>\n";
        version = true;
    }
    if (version) {
        for (k = c.range(1, 12); k > 0; k--) {
            unsigned a, b;
            const std::string x = version_expr(c, &a), y = version_expr(c, &b);
            bool r;
            const std::string op = cmp_op(c, a, b, &r), id = std::to_string(line++);
            const std::string fail = "return " + std::to_string(1 + line % 100) + ";";
            switch (c.range(0, 7)) {
            case 0: src += "#if " + x + " " + op + " " + y + "\n#define P" + id + " 1\n#else\n#define P" + id + " 0\n#endif\n";
                body += "    if (P" + id + " != " + (r ? "1" : "0") + ") " + fail + "\n"; break;
            case 1: body += "    if (" + x + " != " + num(a) + ") " + fail + "\n"; break;
            case 2: body += "    if ((" + x + " " + op + " " + y + ") != " + (r ? "1" : "0") + ") " + fail + "\n"; break;
            case 3: src += "enum { E" + id + " = " + x + " };\nstatic const unsigned S" + id + " = " + x + ";\n";
                body += "    if (E" + id + " != " + num(a) + " || S" + id + " != " + num(a) + ") " + fail + "\n"; break;
            case 4: body += "    if (1 + 2 * " + x + " != " + num(2ull * a + 1).replace(num(2ull * a + 1).size() - 1, 1, "ull") +
                " && " + (2ull * a + 1 > 0x7fffffffull ? "0" : "1") + ") " + fail + "\n"; break;
            case 5: body += "    if ((int)GUTIL_VERSION_MAJOR_(" + x + ") != " + std::to_string(a >> 24) + " || (int)GUTIL_VERSION_MINOR_(" + x + ") != " +
                std::to_string((a >> 12) & 0xfff) + " || (int)GUTIL_VERSION_MICRO_(" + x + ") != " + std::to_string(a & 0xfff) + ") " + fail + "\n"; break;
            case 6: body += "    switch (version) { case " + x + ": " + (a == word(current_version) ? "break; default: " : "") + fail + " }\n"; break;
            case 7: body += "    { char v[64]; sprintf(v, \"%u.%u.%u\", gutil_version_major, gutil_version_minor, gutil_version_micro);\n"
                "    if (strcmp(v, GUTIL_VERSION_STRING)) " + fail + " }\n"; break;
            }
            checks++;
        }
        src += "static unsigned version = 0;\n";
        body = "    version = gutil_version();\n    if (version != GUTIL_VERSION) return 101;\n" + body;
        src += "#include <stdio.h>\n#include <string.h>\n";
    }
    src += std::string("const void* volatile table[] = {\n") + table + "    0\n};\n";
    /* Without optimization, nothing is thrown away */
    src += "int main(void) {\n    unsigned n = 0, i;\n    for (i = 0; i + 1 < sizeof(table) / sizeof(table[0]); i++) n += !table[i];\n"
        "    if (n) return 102;\n" + body + "    return 0;\n}\n";
    prog::build_and_run(c, l, flags, link, src);
    if (used.size() + checks > 2) c.nontrivial();
    c.label(l.cpp ? "C++ program" : "C program");
}

/*==========================================================================*
 * Version words and other macros. The values are computed both by the
 * compiler and at run time
 *==========================================================================*/

const char PRELUDE[] =
    "#include <gutil_version.h>\n#include <gutil_macros.h>\n#include <stdio.h>\n#include <stdlib.h>\n"
    "#define CHECK(x) do { if (!(x)) { printf(\"%s\\n\", #x); exit(1); } } while (0)\n";

std::string triple(const unsigned* v) { return std::to_string(v[0]) + "," + std::to_string(v[1]) + "," + std::to_string(v[2]); }

void version_words(Ctx& c)
{
    const prog::Lang& l = prog::LANGS[c.range(0, prog::NLANGS - 1)];
    std::string src = PRELUDE, body, table;
    const int n = c.range(1, 30);
    src += "int main(void) {\n    unsigned i;\n";
    for (int k = 0; k < n; k++) {
        unsigned v[2][3];
        for (int i = 0; i < 2; i++) {
            v[i][0] = c.chance(100) ? c.pick<unsigned>({0, 1, 126, 127}) : c.range(0, 127);
            v[i][1] = c.chance(100) ? c.pick<unsigned>({0, 1, 2048, 4094, 4095}) : c.range(0, 4095);
            v[i][2] = c.chance(100) ? c.pick<unsigned>({0, 1, 2048, 4094, 4095}) : c.range(0, 4095);
        }
        for (int i = 0; i < 3; i++) if (c.chance(80)) v[1][i] = v[0][i];
        const unsigned a = word(v[0]), b = word(v[1]);
        const std::string A = "GUTIL_VERSION_(" + triple(v[0]) + ")", B = "GUTIL_VERSION_(" + triple(v[1]) + ")";
        body += "    CHECK(" + A + " == " + num(a) + ");\n    CHECK((" + A + " < " + B + ") == " + (a < b ? "1" : "0") + ");\n"
            "    CHECK((" + A + " > " + B + ") == " + (a > b ? "1" : "0") + ");\n    CHECK((" + A + " == " + B + ") == " + (a == b ? "1" : "0") + ");\n"
            "    CHECK(GUTIL_VERSION_MAJOR_(" + num(a) + ") == " + num(v[0][0]) + ");\n    CHECK(GUTIL_VERSION_MINOR_(" + num(a) + ") == " + num(v[0][1]) +
            ");\n    CHECK(GUTIL_VERSION_MICRO_(" + num(a) + ") == " + num(v[0][2]) + ");\n";
        table += "        { " + triple(v[0]) + ", " + triple(v[1]) + " },\n";
    }
    src += "    static const unsigned t[][6] = {\n" + table + "    };\n" + body +
        "    for (i = 0; i < sizeof(t) / sizeof(t[0]); i++) {\n"
        "        const unsigned x = t[i][0], y = t[i][1], z = t[i][2], *v = t[i] + 3;\n"
        "        const unsigned m = ~0xfffu;\n"
        "        const int a = GUTIL_VERSION_(x, y, z), b = GUTIL_VERSION_(v[0], v[1], v[2]);\n"
        "        const int less = x < v[0] || (x == v[0] && (y < v[1] || (y == v[1] && z < v[2])));\n"
        "        CHECK(a >= 0 && b >= 0);\n"
        "        CHECK(GUTIL_VERSION_MAJOR_(a) == x && GUTIL_VERSION_MINOR_(a) == y && GUTIL_VERSION_MICRO_(a) == z);\n"
        "        CHECK((a < b) == less);\n"
        "        CHECK((a == b) == (x == v[0] && y == v[1] && z == v[2]));\n"
        "        CHECK(GUTIL_VERSION_(x ^ m ^ m, y ^ m ^ m, z ^ m ^ m) == a);\n"
        "        CHECK(GUTIL_VERSION_(x & 1 ? x : x | 0, y ^ 0, z | 0) == a);\n"
        "        CHECK(GUTIL_VERSION_MAJOR_(1 ? a : b) == x && GUTIL_VERSION_MINOR_(a | 0) == y && GUTIL_VERSION_MICRO_(0 | a) == z);\n"
        "    }\n    return 0;\n}\n";
    prog::build_and_run(c, l, c.coin() ? std::vector<std::string>{"-O2"} : std::vector<std::string>(), prog::STATIC_REL, src);
    if (n > 2) c.nontrivial();
    c.label("version words");
}

void macros_misc(Ctx& c)
{
    static const char* const TYPES[] = { "guint64", "gint64", "guint32", "gint32", "gsize", "guint16", "gint8" };
    static const char* const FIELDS[] = { "char", "short", "int", "double", "void*", "guint64", "char x" };
    const prog::Lang& l = prog::LANGS[c.range(0, prog::NLANGS - 1)];
    std::string src = PRELUDE, body, fields;
    const int n = c.range(1, 20), nf = c.range(1, 6);
    int size = 0;
    for (int k = 0; k < n; k++) {
        const int t = c.range(0, 6);
        const char* T = TYPES[t];
        guint64 v = c.x64();
        const guint64 max[] = { G_MAXUINT64 - 8, G_MAXINT64 - 8, G_MAXUINT32 - 8, G_MAXINT32 - 8, G_MAXSIZE - 8, G_MAXUINT16 - 8, G_MAXINT8 - 8 };
        v %= max[t] + 1;
        const std::string V = "(" + std::string(T) + ")" + std::to_string(v) + "ull";
        for (int a = 2; a <= 8; a *= 2) {
            const std::string E = std::to_string((v + a - 1) / a * a) + "ull", M = "G_ALIGN" + std::to_string(a);
            body += "    CHECK((guint64)" + M + "(" + V + ") == " + E + ");\n    { const " + T + " v = " + V + ", m = (" + T + ")~0ull; CHECK((guint64)" + M + "(v & m) == " +
                E + " && (guint64)" + M + "(v) == " + E + "); }\n";
        }
    }
    for (int k = 0; k < nf; k++) {
        const int t = c.range(0, 5);
        static const int sizes[] = { 1, 2, sizeof(int), sizeof(double), sizeof(void*), 8 };
        const std::string F = "f" + std::to_string(k);
        fields += std::string(FIELDS[t]) + " " + F + "; ";
        body += "    CHECK(G_CAST(&o." + F + ", Outer, " + F + ") == &o);\n    CHECK(G_CAST((char*)(&o) + G_STRUCT_OFFSET(Outer, " + F + "), Outer, " + F + ") == &o);\n"
            "    CHECK((int)G_STRUCT_OFFSET(Packed, " + F + ") == " + std::to_string(size) + ");\n";
        size += sizes[t];
    }
    body += "    CHECK((int)sizeof(Packed) == " + std::to_string(size) + ");\n";
    src += "typedef struct { " + fields + "} Outer;\ntypedef struct { " + fields + "} G_PACKED Packed;\n"
        "int main(void) {\n    static Outer o;\n    Outer* p = g_slice_new(Outer);\n" + body + "    gutil_slice_free(p);\n    return 0;\n}\n";
    prog::build_and_run(c, l, c.coin() ? std::vector<std::string>{"-O2"} : std::vector<std::string>(), prog::STATIC_REL, src);
    if (n > 2) c.nontrivial();
    c.label("alignment and cast");
}

/* All version macros up to the current one exist */
void fixed_macros(Ctx& c)
{
    const unsigned* cur = current_version;
    VP_CHECK(c, !macros.empty(), "no version macros");
    VP_CHECK(c, !memcmp(macros.back().v, cur, sizeof(current_version)), "the last version macro is %s", macros.back().name.c_str());
    for (size_t i = 1; i < macros.size(); i++) {
        const unsigned* a = macros[i - 1].v;
        const unsigned* b = macros[i].v;
        VP_CHECK(c, (a[0] == b[0] && a[1] == b[1] && a[2] + 1 == b[2]) || !b[2], "version macro is missing after %s", macros[i - 1].name.c_str());
    }
    VP_CHECK(c, headers.size() >= 17, "%d header(s)", (int)headers.size());
}

/* Macros of all versions in expressions */
void fixed_versions(Ctx& c)
{
    std::string s = "#include <gutil_version.h>\nint main(void) {\n";
    int k = 1;
    for (auto& m : macros) s += "    if ((" + m.name + ") != " + num(word(m.v)) + ") return " + std::to_string(k++) + ";\n";
    s += "    return 0;\n}\n";
    for (int i = 0; i < 2; i++) prog::build_and_run(c, prog::LANGS[i], {}, i, s);
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C26";
    p.rule = "programs: 1..20 public headers in random order, with repetitions, in one of 12 C and C++ dialects (two compilers) and with random "
        "configuration macros, referring to random declared functions and variables and using version macros in random (constant) expressions, "
        "linked with one of the four library builds and run; words: 1..30 pairs of version triples, evaluated by the compiler and at run time; macros: alignment and cast "
        "macros applied to random types, values and structures; non-trivial = more than 2 things referred to or checked";
    p.targets = { { "programs", programs, 4, 300 }, { "words", version_words, 1, 500 }, { "macros", macros_misc, 1, 400 } };
    p.fixed = { { "all-macros", fixed_macros }, { "versions", fixed_versions } };
    p.init = init;
    p.no_fuzz = true;
    return p;
}
