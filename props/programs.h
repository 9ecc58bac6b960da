/* Compiling and running generated programs */
#ifndef VP_PROGRAMS_H
#define VP_PROGRAMS_H
#include "vp.h"
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>
#include <string>
#include <vector>

extern char** environ;

namespace prog {

inline std::string env(const char* name) { const char* v = getenv(name); return v ? v : ""; }

inline std::vector<std::string> words(const std::string& s) {
    std::vector<std::string> l;
    size_t p = 0;
    while ((p = s.find_first_not_of(" \n", p)) != std::string::npos) {
        const size_t e = s.find_first_of(" \n", p);
        l.push_back(s.substr(p, e == std::string::npos ? e : e - p));
        if (e == std::string::npos) break;
        p = e;
    }
    return l;
}

inline void write_file(const std::string& path, const std::string& s) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) abort();
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}

inline std::string read_file(const std::string& path) {
    std::string s;
    FILE* f = fopen(path.c_str(), "r");
    if (!f) return s;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof(b), f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}

/* Returns exit status (-1 if it couldn't be started, 1000+signal if killed), the output goes to the file */
inline int run(const std::vector<std::string>& args, const std::string& out) {
    std::vector<char*> a;
    for (auto& s : args) a.push_back((char*)s.c_str());
    a.push_back(NULL);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawn_file_actions_adddup2(&fa, 1, 2);
    pid_t pid;
    const int err = posix_spawnp(&pid, a[0], &fa, NULL, a.data(), environ);
    posix_spawn_file_actions_destroy(&fa);
    if (err) return -1;
    int status;
    while (waitpid(pid, &status, 0) < 0) if (errno != EINTR) return -1;
    return WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
}

struct Lang { const char* cc; const char* std; bool cpp; };
const Lang LANGS[] = {
    { "gcc", "gnu11", false }, { "g++", "gnu++17", true }, { "clang", "gnu17", false }, { "clang++", "gnu++11", true },
    { "gcc", "c99", false }, { "gcc", "gnu99", false }, { "g++", "c++11", true }, { "g++", "c++20", true },
    { "clang", "c11", false }, { "clang++", "c++14", true }, { "gcc", "gnu2x", false }, { "g++", "gnu++14", true },
};
enum { NLANGS = sizeof(LANGS) / sizeof(LANGS[0]) };

/* How the program is linked */
enum Link { STATIC_REL, STATIC_DBG, SHARED_REL, SHARED_DBG, NLINKS };
const char* const LINK[] = { "VP_LIB_REL", "VP_LIB_DBG", "VP_SO_REL", "VP_SO_DBG" };

/* Compiles, links and runs the program. Fails the case if any of that is not successful. Returns the output */
inline std::string build_and_run(vp::Ctx& c, const Lang& l, const std::vector<std::string>& flags, int link, const std::string& src) {
    const std::string dir = vp::scratch();
    const std::string file = dir + (l.cpp ? "/prog.cc" : "/prog.c"), exe = dir + "/prog", out = dir + "/prog.out";
    const std::string lib = env(LINK[link]);
    std::string cmd;
    write_file(file, src);
    std::vector<std::string> a = { l.cc, std::string("-std=") + l.std, "-O0", "-w" };
    for (auto& f : flags) a.push_back(f);
    a.push_back("-I" + env("VP_INCLUDE"));
    for (auto& f : words(env("VP_GLIB_CFLAGS"))) a.push_back(f);
    a.push_back(file);
    a.push_back(lib);
    if (link >= SHARED_REL) a.push_back("-Wl,-rpath," + lib.substr(0, lib.rfind('/')));
    for (auto& f : words(env("VP_GLIB_LIBS"))) a.push_back(f);
    a.push_back("-o");
    a.push_back(exe);
    for (auto& f : a) cmd += f + " ";
    VP_LOG(c, "%s\n%s", cmd.c_str(), src.c_str());
    int rc = run(a, out);
    if (rc < 0) abort();
    if (rc) {
        unlink(exe.c_str());
        /* The machine may be out of resources */
        const std::string o = read_file(out);
        if (rc >= 1000 || o.find("error:") == std::string::npos && o.find("undefined") == std::string::npos) return std::string();
        c.fail("the program doesn't compile: %s", o.substr(0, 1500).c_str());
    }
    rc = run({ exe }, out);
    const std::string o = read_file(out);
    unlink(exe.c_str());
    if (rc) c.fail("the program fails with status %d: %s", rc, o.substr(0, 1500).c_str());
    return o;
}

} // namespace prog

#endif
