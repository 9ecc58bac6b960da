// VP-ASSUMES: module names are unique (ignoring the case), have no colons and line breaks, and no white space at the ends
/* C31: the description of log levels and modules */
#include "vp.h"
#include <gutil_log.h>
#include <glib.h>
#include <deque>
#include <set>
using namespace vp;

namespace {

int initial_level, initial_flags;

void init()
{
    initial_level = gutil_log_default.level;
    initial_flags = gutil_log_default.flags;
}

std::string trim(const std::string& s)
{
    const size_t b = s.find_first_not_of(" \t"), e = s.find_last_not_of(" \t");
    return b == std::string::npos ? std::string() : s.substr(b, e - b + 1);
}

std::string lower(std::string s)
{
    for (auto& ch : s) ch = g_ascii_tolower(ch);
    return s;
}

struct Level { int value; std::string name, text; bool is_default; };
struct Parsed { std::vector<Level> levels; bool has_modules; std::vector<std::string> modules; };

/* Doesn't rely on spacing */
Parsed parse(Ctx& c, const char* desc)
{
    Parsed p;
    std::string s(desc);
    p.has_modules = false;
    VP_CHECK(c, s.size() && s[s.size() - 1] == '\n', "the last line isn't terminated");
    int section = 0;
    for (size_t pos = 0; pos < s.size();) {
        const size_t end = s.find('\n', pos);
        const std::string line = s.substr(pos, end - pos);
        const std::string t = trim(line);
        pos = end + 1;
        /* Names of the modules are always indented */
        if (line.size() && line[0] != ' ') {
            if (t == "Log Levels:") { VP_CHECK(c, section == 0, "levels after section %d", section); section = 1; }
            else if (t == "Log Modules:") { VP_CHECK(c, section == 1, "modules after section %d", section); section = 2; p.has_modules = true; }
            else c.fail("unexpected \"%s\"", t.c_str());
        } else if (section == 1) {
            if (t.empty()) continue;
            Level l = { -1, std::string(), std::string(), false };
            char name[64];
            int n = 0;
            VP_CHECK(c, sscanf(t.c_str(), "%d , %60s %n", &l.value, name, &n) >= 2 && n > 0, "unexpected \"%s\"", t.c_str());
            l.name = name;
            l.text = t.substr(n);
            const size_t d = l.text.find("(default)");
            if (d != std::string::npos) { l.is_default = true; l.text = trim(l.text.substr(0, d)); }
            p.levels.push_back(l);
        } else {
            VP_CHECK(c, section == 2 && line.size(), "unexpected \"%s\"", t.c_str());
            p.modules.push_back(t);
        }
    }
    VP_CHECK(c, section > 0, "no levels");
    return p;
}

const char* const WORDS[] = { "glog", "a", "b", "none", "error", "Log Modules", "%s%n", "100%", "(default)", "0, none", "-", "net.connman",
    "\xd0\xbc\xd0\xbe\xd0\xb4", "mod ule" };

void description(Ctx& c)
{
    struct Mod { std::string name; GLogModule m; };
    std::deque<Mod> mods;
    std::set<std::string> used;
    unsigned count = c.chance(6) ? (unsigned)c.range(200, 1100) : c.chance(200) ? (unsigned)c.range(0, 6) : c.len(60);
    for (unsigned i = 0; i < count; i++) {
        std::string name;
        switch (c.more() ? c.range(0, 4) : 5) {
        case 0: name = WORDS[c.range(0, (int)(sizeof(WORDS) / sizeof(WORDS[0])) - 1)]; break;
        case 1: name = trim(c.str(c.range(1, 8), "abcAB _-.")); break;
        case 2: name = c.str(c.range(1, 5), "abcdefgh"); break;
        case 3: name = std::string(c.len(c.chance(20) ? 3000 : 80), 'n'); break;
        default: name = "module" + std::to_string(i); break;
        }
        if (name.empty() || !used.insert(lower(name)).second) name = "m-" + std::to_string(i);
        used.insert(lower(name));
        mods.push_back(Mod { name, { NULL, NULL, NULL, GLOG_LEVEL_VERBOSE, GLOG_LEVEL_INHERIT, 0, 0 } });
        GLogModule& m = mods.back().m;
        m.name = mods.back().name.c_str();
        m.level = c.range(-1, 5);
        m.flags = c.pick({ 0, 0, (int)GLOG_FLAG_HIDE_NAME, (int)GLOG_FLAG_DISABLE, (int)(GLOG_FLAG_HIDE_NAME | GLOG_FLAG_DISABLE) });
        if (i && c.chance(80)) m.parent = &mods[c.range(0, (int)i - 1)].m;
    }
    std::vector<GLogModule*> list;
    for (auto& m : mods) list.push_back(&m.m);
    /* The array doesn't have to be there if it's empty */
    const bool null = list.empty() ? c.coin() : c.chance(12);
    list.push_back(NULL);
    std::vector<int> levels;
    for (auto& m : mods) levels.push_back(m.m.level);
    const int current = c.range(0, 5);
    gutil_log_default.level = current;
    VP_LOG(c, "%u modules%s, current level %d", count, null ? " (NULL)" : "", current);
    for (auto& m : mods) VP_LOG(c, "  \"%s\"", m.name.c_str());

    char* desc = gutil_log_description(null ? NULL : list.data(), null ? c.range(0, 3) : (int)count);
    VP_CHECK(c, desc, "no description");
    VP_EQ(c, gutil_log_default.level, current, "the current default level");
    const Parsed p = parse(c, desc);
    char* again = gutil_log_description(null ? NULL : list.data(), (int)count);
    VP_CHECK(c, !g_strcmp0(desc, again), "two descriptions of the same modules differ");
    memset(again, 'x', strlen(again));
    g_free(again);
    again = gutil_log_description(null ? NULL : list.data(), (int)count);
    VP_CHECK(c, !g_strcmp0(desc, again), "two descriptions of the same modules differ");
    g_free(again);
    g_free(desc);

    /* Levels */
    VP_EQ(c, p.levels.size(), (size_t)GLOG_LEVEL_VERBOSE + 1, "number of levels");
    std::set<std::string> names, texts;
    for (size_t i = 0; i < p.levels.size(); i++) {
        const Level& l = p.levels[i];
        VP_EQ(c, l.value, (int)i, "level number");
        VP_CHECK(c, !l.text.empty() && texts.insert(l.text).second, "no description of level %d", l.value);
        VP_CHECK(c, names.insert(l.name).second, "duplicate level name \"%s\"", l.name.c_str());
        VP_CHECK(c, l.is_default == (l.value == initial_level), "level %d is%s marked as the default one", l.value, l.is_default ? "" : "n't");
        for (int k = 0; k < 2; k++) {
            const std::string o = k ? l.name : std::to_string(l.value);
            gutil_log_default.level = -1;
            VP_CHECK(c, gutil_log_parse_option(o.c_str(), null ? NULL : list.data(), null ? 0 : (int)count, NULL), "option \"%s\" isn't accepted", o.c_str());
            VP_EQ(c, gutil_log_default.level, l.value, "level");
        }
    }

    /* Modules */
    VP_CHECK(c, p.has_modules == !null, "the section of modules is%s there", p.has_modules ? "" : "n't");
    if (!null) {
        VP_EQ(c, p.modules.size(), count, "number of modules");
        const unsigned step = count > 100 ? 37 : 1;
        for (unsigned i = 0; i < count; i++) {
            VP_CHECK(c, p.modules[i] == mods[i].name, "\"%s\" instead of \"%s\"", p.modules[i].c_str(), mods[i].name.c_str());
            VP_CHECK(c, mods[i].m.level == levels[i] && mods[i].m.name == mods[i].name.c_str(), "module %u has been changed", i);
        }
        for (unsigned i = 0; i < count; i += step) {
            const Level& l = p.levels[c.range(0, (int)p.levels.size() - 1)];
            const std::string o = p.modules[i] + ":" + (c.coin() ? l.name : std::to_string(l.value));
            mods[i].m.level = -1;
            VP_CHECK(c, gutil_log_parse_option(o.c_str(), list.data(), (int)count, NULL), "option \"%s\" isn't accepted", o.c_str());
            VP_EQ(c, mods[i].m.level, l.value, "level of the module");
            for (unsigned k = i + 1; k < count; k += step) VP_EQ(c, mods[k].m.level, levels[k], "level of another module");
        }
    }
    gutil_log_default.level = initial_level;
    gutil_log_default.flags = initial_flags;
    if (count > 1 && !null) c.nontrivial();
    if (count > 100 && !null) c.label("100+ modules");
    if (!count && !null) c.label("empty list");
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C31";
    p.rule = "lists of 0..1100 modules with various names, levels, flags and parents (or no list at all), any current level; the description "
        "is parsed and compared with the list, and whatever it says is tried with the option parser; non-trivial = 2+ modules";
    p.targets = { { "description", description, 1, 400 } };
    p.init = init;
    p.leak_check = true;
    return p;
}
