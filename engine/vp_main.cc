/* Runner for the engine declared in vp.h */
#include "vp.h"

#include <glib.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <algorithm>

#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define VP_HAVE_HOOKS 1
#  endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#  undef VP_HAVE_HOOKS
#  define VP_HAVE_HOOKS 1
#endif
#ifdef VP_HAVE_HOOKS
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t),
    void (*free_hook)(const volatile void*));
#endif

#ifdef VP_FUZZER
extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv,
    int (*cb)(const uint8_t* data, size_t size));
#endif

#define MAX_LABELS 128
#define MAX_CASE (1u << 16)
#define HASH_BITS 19
#define HASH_SIZE (1u << HASH_BITS)
#define MAX_SAMPLES 4
#define MAX_HIST 512
#define HIST_CASE 2048

enum { EXIT_FAIL = 77, EXIT_ASAN = 88 };

extern "C" {
extern void (*gutil_log_func)(const char*, int, const char*, va_list) __attribute__((weak));
}
static void quiet_log(const char*, int, const char*, va_list);

namespace vp {

struct Label { char name[48]; uint64_t count; };

struct Shard {
    volatile uint64_t cases;
    volatile uint64_t nontrivial;
    volatile uint64_t beat;
    volatile uint64_t distinct;
    uint64_t bytes_total;
    volatile uint32_t cur_target;
    volatile uint32_t cur_len;
    uint32_t nlabels;
    uint32_t nsamples;
    uint8_t done;
    char message[4096];
    Label labels[MAX_LABELS];
    uint32_t sample_target[MAX_SAMPLES];
    uint32_t sample_len[MAX_SAMPLES];
    uint8_t sample[MAX_SAMPLES][4096];
    uint8_t cur[MAX_CASE];
    /* Recent cases (including the current one), the state may accumulate */
    uint32_t nhist;
    uint32_t hist_target[MAX_HIST];
    uint32_t hist_len[MAX_HIST];
    uint8_t hist[MAX_HIST][HIST_CASE];
    uint64_t seen[HASH_SIZE];
};

unsigned glib_messages;
unsigned lib_asserts;
Ctx* current;
bool in_leak_check;
static Shard* shard;
static Property prop;
static std::string last_glib_message;
static bool counting = true; /* label counting */
static volatile long live_allocs;
static char last_assert[256];

static uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

/*==========================================================================*
 * Ctx
 *==========================================================================*/

int Ctx::i32()
{
    static const int special[] = { 0, 1, -1, 2, -2, INT32_MAX, INT32_MIN,
        INT32_MAX - 1, INT32_MIN + 1, 127, 128, 255, 256, -128, -129, 32767,
        32768, 65535, 65536, 0x40000000, -0x40000000, 0x40000001, 1000000 };
    const unsigned k = raw();
    int v;
    if (k < 110) v = (int)(k % 11) - 3;
    else if (k < 160) v = special[raw() % (sizeof(special)/sizeof(special[0]))];
    else if (k < 190) v = (int)(int8_t)raw();
    else if (k < 210) v = (int)(int16_t)rawn(2);
    else v = (int)rawn(4);
    return (int)(int64_t)mix((uint64_t)(int64_t)v);
}

uint64_t Ctx::x64()
{
    const unsigned k = raw();
    uint64_t v;
    if (k < 60) v = k % 12;
    else if (k < 150) {
        /* Around a power of two */
        const unsigned sh = raw() & 63;
        const int off = (int)(raw() % 7) - 3;
        v = (1ull << sh) + (uint64_t)(int64_t)off;
        if (k & 1) v = 0 - v;
    } else if (k < 200) {
        v = rawn(1 + raw() % 8);
        if (k & 1) v = 0 - v;
    } else v = rawn(8);
    return mix(v);
}

unsigned Ctx::len(unsigned max)
{
    const unsigned k = raw();
    uint64_t v;
    if (k < 180) v = k % 9;
    else if (k < 220) v = raw() % 70;
    else if (k < 245) {
        const unsigned sh = raw() % 18;
        const int off = (int)(raw() % 5) - 2;
        const int64_t x = (1ll << sh) + off;
        v = x < 0 ? 0 : (uint64_t)x;
    } else v = rawn(2);
    if (v > max) v = v % ((uint64_t)max + 1);
    return (unsigned)mix(v);
}

unsigned Ctx::huge()
{
    return pick({ 65536, 256, 32768, 131072, 65536, 128, 40000, 70000 }) + range(-4, 24);
}

std::string Ctx::bytes(unsigned l)
{
    std::string s;
    s.reserve(l);
    const size_t avail = left();
    if (l > avail && l > 64) {
        /* Expand from a small seed */
        uint64_t st = rawn(4);
        const unsigned mode = raw() & 3;
        for (unsigned i = 0; i < l; i++) {
            const uint64_t x = splitmix(st);
            s.push_back((char)(mode == 0 ? x : mode == 1 ? (x & 1) :
                mode == 2 ? 0 : (x & 0xf) ? (st & 0x7f) : x));
        }
        mix(st ^ l);
    } else {
        for (unsigned i = 0; i < l; i++) s.push_back((char)u8());
    }
    return s;
}

std::string Ctx::str(unsigned l, const char* alphabet)
{
    std::string s = bytes(l);
    if (alphabet) {
        const size_t k = strlen(alphabet);
        for (size_t i = 0; i < s.size(); i++) s[i] = alphabet[((uint8_t)s[i]) % k];
    } else {
        for (size_t i = 0; i < s.size(); i++) if (!s[i]) s[i] = 'a';
    }
    return s;
}

void Ctx::label(const char* name)
{
    if (!shard || !counting) return;
    for (uint32_t i = 0; i < shard->nlabels; i++) {
        if (!strcmp(shard->labels[i].name, name)) {
            shard->labels[i].count++;
            return;
        }
    }
    if (shard->nlabels < MAX_LABELS) {
        Label* l = shard->labels + shard->nlabels;
        snprintf(l->name, sizeof(l->name), "%s", name);
        l->count = 1;
        shard->nlabels++;
    }
}

static int trace_fd = -1;
static double patience = 30; /* How long one case may take, in seconds */

void Ctx::logf(const char* fmt, ...)
{
    char buf[2048];
    va_list va;
    va_start(va, fmt);
    vsnprintf(buf, sizeof(buf), fmt, va);
    va_end(va);
    if (trace.size() < 60000) {
        std::string line(buf);
        line += "\n";
        trace += line;
        /* Right away, the process may be about to crash */
        if (trace_fd >= 0 && write(trace_fd, line.data(), line.size()) < 0) {}
    }
}

void Ctx::fail(const char* fmt, ...)
{
    char buf[4096];
    va_list va;
    va_start(va, fmt);
    vsnprintf(buf, sizeof(buf), fmt, va);
    va_end(va);
    if (shard) snprintf(shard->message, sizeof(shard->message), "%s", buf);
    _exit(EXIT_FAIL);
}

/*==========================================================================*
 * Scratch
 *==========================================================================*/

static std::string scratch_base;
static std::string scratch_dir;
static pid_t scratch_pid;

const char* scratch()
{
    if (scratch_dir.empty() || scratch_pid != getpid()) {
        std::string t = (scratch_base.empty() ? std::string("/tmp") : scratch_base) +
            "/s-XXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) {
            perror(b.data());
            _exit(3);
        }
        scratch_dir = b.data();
        scratch_pid = getpid();
    }
    return scratch_dir.c_str();
}

/*==========================================================================*
 * Executing a case
 *==========================================================================*/

static void glib_log(const gchar* domain, GLogLevelFlags lev, const gchar* msg,
    gpointer)
{
    if (lev & (G_LOG_LEVEL_ERROR | G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_WARNING)) {
        glib_messages++;
        last_glib_message = std::string(domain ? domain : "") + ": " + (msg ? msg : "");
    }
}

} // namespace vp
static void quiet_log(const char*, int, const char* fmt, va_list va)
{
    /* gutil_log_assert() is the only one which does that */
    if (fmt && !strncmp(fmt, "Assert ", 7)) {
        va_list copy;
        va_copy(copy, va);
        if (!__atomic_fetch_add(&vp::lib_asserts, 1, __ATOMIC_RELAXED)) {
            vsnprintf(vp::last_assert, sizeof(vp::last_assert), fmt, copy);
        }
        va_end(copy);
    }
}
namespace vp {

#ifdef VP_HAVE_HOOKS
static void hook_malloc(const volatile void* p, size_t)
{
    if (p) __atomic_add_fetch(&live_allocs, 1, __ATOMIC_RELAXED);
}
static void hook_free(const volatile void* p)
{
    if (p) __atomic_sub_fetch(&live_allocs, 1, __ATOMIC_RELAXED);
}
#endif

/* Runs the case once, returns the number of outstanding allocations */
static long exec_once(uint32_t target, const uint8_t* d, size_t n, bool tracing,
    uint64_t* hash, bool* nontrivial)
{
    const long before = live_allocs;
    {
        Ctx c(d, n, tracing);
        current = &c;
        glib_messages = 0;
        lib_asserts = 0;
        c.mix(target);
        prop.targets[target].fn(c);
        if (glib_messages && !prop.allow_glib_log) {
            c.fail("GLib complained: %s", last_glib_message.c_str());
        }
        if (lib_asserts && prop.no_asserts) {
            c.fail("the library complained: %s", last_assert);
        }
        if (hash) *hash = c.hash;
        if (nontrivial) *nontrivial = c.is_nontrivial;
        current = NULL;
    }
    last_glib_message.clear();
    last_glib_message.shrink_to_fit();
    return live_allocs - before;
}

static void exec_case(uint32_t target, const uint8_t* d, size_t n, bool tracing)
{
    uint64_t hash = 0;
    bool nt = false;
    Shard* s = shard;

    if (n > MAX_CASE) n = MAX_CASE;
    s->cur_target = target;
    if (d != s->cur) memcpy(s->cur, d, n);
    s->cur_len = (uint32_t)n;
    if (n <= HIST_CASE) {
        const uint32_t slot = s->nhist % MAX_HIST;
        s->hist_target[slot] = target;
        s->hist_len[slot] = (uint32_t)n;
        memcpy(s->hist[slot], d, n);
        s->nhist++;
    } else {
        s->nhist = 0;
    }
    s->beat++;
    /* Exact-size heap copy is not needed, the property never sees the bytes */
    long grown = exec_once(target, d, n, tracing, &hash, &nt);
    if (grown > 0 && prop.leak_check) {
        /* One-time initializations don't repeat, leaks do */
        const int fd = trace_fd;
        int i;
        trace_fd = -1;
        counting = false;
        in_leak_check = true;
        for (i = 0; i < 3 && grown > 0; i++) {
            grown = exec_once(target, d, n, false, NULL, NULL);
        }
        in_leak_check = false;
        counting = true;
        trace_fd = fd;
        if (grown > 0) {
            Ctx c(d, n, false);
            c.fail("memory leak: every run of this case leaves %ld more "
                "allocation(s) behind", grown);
        }
    }
    s->cases++;
    s->bytes_total += n;
    if (nt) {
        uint32_t i = (uint32_t)(hash >> (64 - HASH_BITS));
        unsigned probes = 0;
        s->nontrivial++;
        if (!hash) hash = 1;
        if (s->distinct < HASH_SIZE / 2) {
            while (s->seen[i] && s->seen[i] != hash && probes++ < HASH_SIZE) {
                i = (i + 1) & (HASH_SIZE - 1);
            }
            if (!s->seen[i]) {
                s->seen[i] = hash;
                s->distinct++;
            }
        }
        if (n <= 4096) {
            /* Keep a few, spread over the run */
            const uint64_t k = s->nontrivial;
            if ((k & (k - 1)) == 0) {
                const uint32_t slot = (uint32_t)__builtin_ctzll(k) % MAX_SAMPLES;
                s->sample_target[slot] = target;
                s->sample_len[slot] = (uint32_t)n;
                memcpy(s->sample[slot], d, n);
                if (s->nsamples < slot + 1) s->nsamples = slot + 1;
            }
        }
    }
}

static void child_init()
{
    static bool done;
    if (!done) {
        done = true;
        g_log_set_default_handler(glib_log, NULL);
#ifdef VP_HAVE_HOOKS
        __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
#endif
        /* Debug build of the library talks a lot */
        if (&gutil_log_func) gutil_log_func = quiet_log;
        if (prop.init) prop.init();
    }
}

/*==========================================================================*
 * Case generation
 *==========================================================================*/

static uint32_t pick_target(uint64_t r)
{
    unsigned total = 0;
    for (auto& t : prop.targets) total += t.weight;
    unsigned v = (unsigned)(r % total);
    for (size_t i = 0; i < prop.targets.size(); i++) {
        if (v < prop.targets[i].weight) return (uint32_t)i;
        v -= prop.targets[i].weight;
    }
    return 0;
}

static size_t gen_case(uint64_t seed, uint64_t index, uint32_t* target, uint8_t* out)
{
    uint64_t st = seed * 0x2545f4914f6cdd1dull + index * 0x9e3779b97f4a7c15ull + 12345;
    splitmix(st);
    splitmix(st);
    *target = pick_target(splitmix(st) >> 8);
    const unsigned max = prop.targets[*target].max_len;
    size_t n;
    uint64_t r = splitmix(st);
    switch (r & 7) {
    case 0: n = (r >> 8) % 12; break;
    case 1: case 2: n = (r >> 8) % 48; break;
    case 3: case 4: case 5: n = (r >> 8) % 200; break;
    case 6: n = (r >> 8) % 600; break;
    default: n = (r >> 8) % (max + 1); break;
    }
    if (n > max) n = max;
    r = splitmix(st);
    const unsigned flavor = r % 10;
    uint8_t alphabet[16];
    const unsigned na = 1 + (r >> 8) % 16;
    for (unsigned i = 0; i < na; i++) alphabet[i] = (uint8_t)splitmix(st);
    for (size_t i = 0; i < n; i++) {
        const uint64_t x = splitmix(st);
        uint8_t b;
        switch (flavor) {
        default: b = (uint8_t)(x >> 13); break;                     /* uniform */
        case 5: b = (x & 3) ? (uint8_t)(x >> 13) : 0; break;        /* some zeros */
        case 6: b = (x & 3) ? 0 : (uint8_t)(x >> 13); break;        /* many zeros */
        case 7: b = alphabet[(x >> 13) % na]; break;                /* few values */
        case 8:                                                     /* repetitive */
            if (i >= 8 && (x & 7)) {
                const size_t back = 1 + (x >> 20) % (i < 64 ? i : 64);
                b = out[i - back];
            } else b = (uint8_t)(x >> 13);
            break;
        case 9: b = (x & 1) ? (uint8_t)((x >> 13) & 15) : (uint8_t)(x >> 13); break;
        }
        out[i] = b;
        if (flavor == 8 && i + 1 < n && (x >> 50) % 11 == 0 && i >= 4) {
            /* Copy a whole chunk */
            const size_t cl = 1 + (x >> 30) % 24;
            const size_t back = 1 + (x >> 40) % (i < 64 ? i : 64);
            for (size_t k = 0; k < cl && i + 1 < n; k++) {
                i++;
                out[i] = out[i - back];
            }
        }
    }
    return n;
}

/*==========================================================================*
 * Forked execution
 *==========================================================================*/

static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static Shard* new_shard()
{
    Shard* s = (Shard*)mmap(NULL, sizeof(Shard), PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (s == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    return s;
}

struct Outcome {
    bool failed = false;
    std::string what;
};

static std::string read_file(const std::string& path)
{
    std::string s;
    FILE* f = fopen(path.c_str(), "rb");
    if (f) {
        char buf[65536];
        size_t k;
        while ((k = fread(buf, 1, sizeof(buf), f)) > 0) s.append(buf, k);
        fclose(f);
    }
    return s;
}

static std::string describe(int status, Shard* s, const std::string& err)
{
    std::string w;
    if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_FAIL) {
        w = s->message;
    } else if (WIFEXITED(status)) {
        w = "process exited with status " + std::to_string(WEXITSTATUS(status));
    } else if (WIFSIGNALED(status)) {
        w = std::string("process killed by signal ") + strsignal(WTERMSIG(status));
    }
    size_t p = err.find("==ERROR: ");
    if (p == std::string::npos) p = err.find("WARNING: ThreadSanitizer");
    if (p == std::string::npos) p = err.find("Sanitizer: ");
    if (p == std::string::npos && err.size() > 3000) p = err.size() - 3000;
    else if (p == std::string::npos) p = 0;
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == EXIT_FAIL) && err.size()) {
        w += "\n" + err.substr(p, 3000);
    }
    return w;
}

static int remove_cb(const char* path, const struct stat*, int, struct FTW*)
{
    remove(path);
    return 0;
}

static void rmtree(const std::string& path)
{
    nftw(path.c_str(), remove_cb, 16, FTW_DEPTH | FTW_PHYS);
}

/* Redirects the child's standard streams */
static void redirect(const std::string& err)
{
    const int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    const int in = open("/dev/null", O_RDONLY);
    if (fd >= 0) {
        dup2(fd, 1);
        dup2(fd, 2);
        close(fd);
    }
    if (in >= 0) {
        dup2(in, 0);
        close(in);
    }
}

static int wait_timeout(pid_t pid, double timeout, bool* hang)
{
    const double end = now() + timeout;
    int status = 0;
    useconds_t nap = 50;
    *hang = false;
    for (;;) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) return status;
        if (now() > end) {
            *hang = true;
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            return status;
        }
        usleep(nap);
        if (nap < 5000) nap += nap / 2;
    }
}

/* Runs one case (or fixed example) in a process of its own */
struct Step {
    uint32_t target;
    std::vector<uint8_t> d;
};
typedef std::vector<Step> Sequence;

static Outcome run_forked(uint32_t target, const std::vector<uint8_t>& d,
    double timeout, std::string* trace, void (*fixed)(Ctx&), const Sequence* seq = NULL)
{
    static Shard* s;
    Outcome o;
    const std::string errf = scratch_base + "/one.err";
    const std::string trf = scratch_base + "/one.trace";
    bool hang;

    if (!s) s = new_shard();
    s->message[0] = 0;
    fflush(NULL);
    pid_t pid = fork();
    if (!pid) {
        shard = s;
        redirect(errf);
        if (trace) trace_fd = open(trf.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
        child_init();
        if (fixed) {
            Ctx c(d.data(), d.size(), trace != NULL);
            current = &c;
            glib_messages = 0;
            lib_asserts = 0;
            fixed(c);
            if (glib_messages && !prop.allow_glib_log) {
                c.fail("GLib complained: %s", last_glib_message.c_str());
            }
            if (lib_asserts && prop.no_asserts) {
                c.fail("the library complained: %s", last_assert);
            }
            /* Leaks matter here too */
            if (prop.leak_check) {
                long grown = 1;
                for (int i = 0; i < 3 && grown > 0; i++) {
                    const long before = live_allocs;
                    {
                        Ctx c2(d.data(), d.size(), false);
                        current = &c2;
                        fixed(c2);
                    }
                    grown = live_allocs - before;
                }
                if (grown > 0) c.fail("memory leak: %ld allocation(s) per run", grown);
            }
        } else if (seq) {
            for (auto& x : *seq) exec_case(x.target, x.d.data(), x.d.size(), trace != NULL);
        } else {
            exec_case(target, d.data(), d.size(), trace != NULL);
        }
        _exit(0);
    }
    const int status = wait_timeout(pid, timeout, &hang);
    o.failed = hang ? !seq : status != 0;
    if (hang) {
        o.what = "no progress for " + std::to_string((int)timeout) + " seconds (hang)";
    } else if (status) {
        o.what = describe(status, s, read_file(errf));
    }
    if (trace) *trace = read_file(trf);
    return o;
}

static bool fails(uint32_t target, const std::vector<uint8_t>& d, double timeout,
    std::string* what)
{
    for (unsigned i = 0; i < prop.attempts; i++) {
        Outcome o = run_forked(target, d, timeout, NULL, NULL);
        if (o.failed) {
            if (what) *what = o.what;
            return true;
        }
    }
    return false;
}

/* Several cases one after another in the same process */
static bool fails(const Sequence& seq, std::string* what)
{
    for (unsigned i = 0; i < std::min(prop.attempts, 5u); i++) {
        Outcome o = run_forked(0, std::vector<uint8_t>(), 60, NULL, NULL, &seq);
        if (o.failed) {
            if (what) *what = o.what;
            return true;
        }
    }
    return false;
}

static bool really_fails(const Sequence& seq, std::string* what)
{
    for (int i = 0; i < 3; i++) if (!fails(seq, what)) return false;
    return true;
}

/* Shortest suffix which fails, empty if there's none */
static Sequence failing_suffix(const Sequence& seq, std::string* what)
{
    const double end = now() + 60;
    for (size_t n = 2; now() < end; n *= 2) {
        n = std::min(n, seq.size());
        Sequence t(seq.end() - n, seq.end());
        if (n > 1 && really_fails(t, what)) return t;
        if (n == seq.size()) break;
    }
    return Sequence();
}

static Sequence shrink(Sequence seq, double budget)
{
    const double end = now() + budget;
    for (size_t len = seq.size() / 2; len > 0 && now() < end; len /= 2) {
        for (size_t i = seq.size() - len + 1; i-- > 0 && now() < end; ) {
            if (i + len > seq.size()) continue;
            Sequence t(seq);
            t.erase(t.begin() + i, t.begin() + i + len);
            if (!t.empty() && fails(t, NULL)) seq = t;
        }
    }
    for (size_t k = 0; k < seq.size() && now() < end; k++) {
        for (size_t cut = (seq[k].d.size() + 1) / 2; cut > 0 && now() < end; ) {
            Sequence t(seq);
            t[k].d.resize(t[k].d.size() - std::min(cut, t[k].d.size()));
            if (t[k].d.size() < seq[k].d.size() && fails(t, NULL)) seq = t;
            else cut /= 2;
        }
    }
    return seq;
}

static std::vector<uint8_t> shrink(uint32_t target, std::vector<uint8_t> d,
    bool hang, double budget)
{
    const double end = now() + budget;
    const double timeout = hang ? 5 : 20;
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        /* Truncate */
        for (size_t cut = d.size() / 2; cut > 0 && now() < end; ) {
            if (cut <= d.size()) {
                std::vector<uint8_t> t(d.begin(), d.end() - cut);
                if (fails(target, t, timeout, NULL)) {
                    d = t;
                    progress = true;
                    continue;
                }
            }
            cut /= 2;
        }
        /* Delete chunks */
        for (size_t len = std::min<size_t>(d.size() / 2, 256); len > 0 && now() < end; len /= 2) {
            for (size_t i = d.size() >= len ? d.size() - len + 1 : 0; i-- > 0 && now() < end; ) {
                if (i + len > d.size()) continue;
                std::vector<uint8_t> t(d);
                t.erase(t.begin() + i, t.begin() + i + len);
                if (fails(target, t, timeout, NULL)) {
                    d = t;
                    progress = true;
                    if (i > len) i = i - len + 1;
                }
            }
        }
        /* Lower bytes */
        for (size_t i = 0; i < d.size() && now() < end; i++) {
            while (d[i] && now() < end) {
                bool lower = false;
                for (uint8_t v : { (uint8_t)0, (uint8_t)(d[i] / 2), (uint8_t)(d[i] - 1) }) {
                    if (v >= d[i]) continue;
                    std::vector<uint8_t> t(d);
                    t[i] = v;
                    if (fails(target, t, timeout, NULL)) {
                        d = t;
                        lower = progress = true;
                        break;
                    }
                }
                if (!lower) break;
            }
        }
    }
    return d;
}

/*==========================================================================*
 * Campaigns
 *==========================================================================*/

struct Options {
    uint64_t seed;
    uint64_t cases;
    uint64_t first;
    double cap;
    int shards;
    bool fuzz;
    std::string out;
    std::string replay_dir;
    std::string config;
    std::string known;
};

static uint32_t fuzz_target_of(uint8_t b)
{
    return pick_target(b);
}

#ifdef VP_FUZZER
static double fuzz_end;
static uint64_t fuzz_left;

static int fuzz_cb(const uint8_t* data, size_t size)
{
    if (!size || !fuzz_left) return 0;
    if (now() > fuzz_end) return 0;
    fuzz_left--;
    exec_case(fuzz_target_of(data[0]), data + 1, size - 1, false);
    return 0;
}

static void fuzz_worker(const Options& opt, int k, uint64_t skip)
{
    const std::string dir = scratch();
    const std::string corpus = dir + "/corpus";
    unsigned max_len = 0;
    mkdir(corpus.c_str(), 0700);
    for (auto& t : prop.targets) max_len = std::max(max_len, t.max_len);
    if (max_len > 1500) max_len = 1500;
    /* Initial corpus from the random generator (odd shards start empty) */
    if (!(k & 1)) {
        static uint8_t buf[MAX_CASE];
        for (int i = 0; i < 150; i++) {
            uint32_t t = 0;
            size_t n = gen_case(opt.seed + 7777 + k, i, &t, buf);
            if (n > 700) n = 700;
            /* A byte which selects the same target */
            uint8_t sel = 0;
            for (int b = 0; b < 256; b++) {
                if (fuzz_target_of((uint8_t)b) == t) { sel = (uint8_t)b; break; }
            }
            FILE* f = fopen((corpus + "/s" + std::to_string(i)).c_str(), "wb");
            if (f) {
                fputc(sel, f);
                fwrite(buf, 1, n, f);
                fclose(f);
            }
        }
    }
    fuzz_left = opt.cases / opt.shards + 1;
    if (skip >= fuzz_left) return;
    fuzz_left -= skip;
    fuzz_end = now() + opt.cap;
    std::vector<std::string> a = { "fuzz",
        "-seed=" + std::to_string((uint32_t)(1 + opt.seed * 1000 + k + skip * 7919)),
        "-runs=" + std::to_string(fuzz_left),
        "-max_total_time=" + std::to_string((int)opt.cap + 1),
        "-max_len=" + std::to_string(max_len),
        "-timeout=1000", "-rss_limit_mb=0", "-malloc_limit_mb=0",
        "-detect_leaks=0", "-len_control=20", "-use_value_profile=1",
        "-reload=0", "-handle_segv=0", "-handle_abrt=0", "-handle_int=0",
        "-handle_term=0", "-handle_fpe=0", "-handle_bus=0", "-handle_ill=0",
        "-handle_usr1=0", "-handle_usr2=0", "-handle_xfsz=0",
        "-artifact_prefix=" + dir + "/", "-print_final_stats=0",
        "-verbosity=0", corpus };
    std::vector<char*> av;
    for (auto& x : a) av.push_back(&x[0]);
    av.push_back(NULL);
    int ac = (int)a.size();
    char** avp = av.data();
    LLVMFuzzerRunDriver(&ac, &avp, fuzz_cb);
}
#endif

static void random_worker(const Options& opt, int k, uint64_t skip)
{
    const double end = now() + opt.cap;
    for (uint64_t i = k + skip * opt.shards; i < opt.cases; i += opt.shards) {
        uint32_t t = 0;
        const size_t n = gen_case(opt.seed, opt.first + i, &t, shard->cur);
        exec_case(t, shard->cur, n, false);
        if (now() > end) break;
    }
}

static std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s) {
        char b[8];
        switch (ch) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        default:
            if (ch < 0x20 || ch >= 0x7f) {
                snprintf(b, sizeof(b), "\\u%04x", ch);
                o += b;
            } else o += (char)ch;
        }
    }
    return o + "\"";
}

static std::string hexstr(const std::vector<uint8_t>& d)
{
    std::string s;
    char b[4];
    for (uint8_t x : d) {
        snprintf(b, sizeof(b), "%02x", x);
        s += b;
    }
    return s.empty() ? "-" : s;
}

static std::string save_replay(const Options& opt, const std::string& kind,
    const std::string& target, const std::vector<uint8_t>& d,
    const std::string& what, const std::string& trace, const Sequence& seq = Sequence())
{
    uint64_t h = 1469598103934665603ull;
    std::string cases;
    for (auto& x : seq) cases += std::string("case: ") + prop.targets[x.target].name + " " + hexstr(x.d) + "\n";
    for (char ch : kind + target + hexstr(d) + cases) h = (h ^ (uint8_t)ch) * 1099511628211ull;
    char name[64];
    snprintf(name, sizeof(name), "/%s-%s-%016llx.txt", prop.id, opt.config.c_str(),
        (unsigned long long)h);
    const std::string path = opt.replay_dir + name;
    FILE* f = fopen(path.c_str(), "w");
    if (f) {
        fprintf(f, "property: %s\nconfig: %s\nkind: %s\ntarget: %s\n%sbytes: %s\n"
            "\n--- what failed ---\n%s\n\n--- the case, step by step ---\n%s\n",
            prop.id, opt.config.c_str(), kind.c_str(), target.c_str(), cases.c_str(),
            hexstr(d).c_str(), what.c_str(), trace.c_str());
        fclose(f);
    }
    return path;
}

struct Failure {
    uint32_t target;
    std::vector<uint8_t> d;
    bool hang;
    std::string what;
    Sequence seq;               /* With those which preceded it */
};

static Failure failure_of(Shard* s, bool hang, const std::string& what)
{
    Failure f;
    f.target = s->cur_target;
    f.d.assign(s->cur, s->cur + s->cur_len);
    f.hang = hang;
    f.what = what;
    const uint32_t n = std::min<uint32_t>(s->nhist, MAX_HIST);
    for (uint32_t i = s->nhist - n; i != s->nhist; i++) {
        const uint32_t slot = i % MAX_HIST;
        Step x;
        x.target = s->hist_target[slot];
        x.d.assign(s->hist[slot], s->hist[slot] + s->hist_len[slot]);
        f.seq.push_back(x);
    }
    return f;
}

static bool reproduced(const Failure& f, std::string* what)
{
    for (int i = 0; i < 3; i++) if (!fails(f.target, f.d, patience, what)) return false;
    return true;
}

static int campaign(const Options& opt)
{
    std::vector<Shard*> sh;
    std::vector<pid_t> pid(opt.shards);
    std::vector<uint64_t> beat(opt.shards, 0);
    std::vector<double> last(opt.shards);
    std::vector<bool> alive(opt.shards, true);
    std::vector<std::string> errs(opt.shards);
    std::vector<Failure> failures;
    const double start = now();
    int running = opt.shards;
    bool stop = false;
    std::string internal;

    unsigned flaky = 0;
    std::vector<unsigned> restarts(opt.shards, 0);

    auto start_shard = [&](int k) {
        Options left = opt;
        left.cap -= now() - start;
        fflush(NULL);
        pid[k] = fork();
        if (!pid[k]) {
            shard = sh[k];
            redirect(errs[k]);
            child_init();
            const uint64_t skip = shard->beat;
#ifdef VP_FUZZER
            if (opt.fuzz) fuzz_worker(left, k, skip);
            else
#endif
            random_worker(left, k, skip);
            shard->done = 1;
            _exit(0);
        }
        last[k] = now();
    };
    for (int k = 0; k < opt.shards; k++) {
        sh.push_back(new_shard());
        errs[k] = scratch_base + "/err." + std::to_string(k);
        start_shard(k);
    }
    while (running > 0) {
        bool any = false;
        for (int k = 0; k < opt.shards; k++) {
            if (!alive[k]) continue;
            int status = 0;
            bool failed = false;
            Failure f;
            pid_t r = waitpid(pid[k], &status, WNOHANG);
            if (r == pid[k]) {
                any = true;
                alive[k] = false;
                running--;
                if (!sh[k]->done && !(opt.fuzz && WIFEXITED(status) &&
                    WEXITSTATUS(status) == 0) && !stop) {
                    f = failure_of(sh[k], false, describe(status, sh[k], read_file(errs[k])));
                    if (WIFEXITED(status) && WEXITSTATUS(status) == 3) internal = f.what;
                    failed = true;
                }
            } else if (sh[k]->beat != beat[k]) {
                beat[k] = sh[k]->beat;
                last[k] = now();
            } else if (now() - last[k] > (beat[k] ? patience : 2 * patience) && !stop) {
                f = failure_of(sh[k], true, "no progress for " + std::to_string((int)patience) + " seconds");
                /* Without a single case started it's not about the code */
                if (!beat[k]) internal = "worker did not start";
                failed = true;
                kill(pid[k], SIGKILL);
                waitpid(pid[k], &status, 0);
                alive[k] = false;
                running--;
            }
            if (!failed) continue;
            if (!internal.empty()) {
                stop = true;
            } else if (reproduced(f, &f.what)) {
                f.seq.clear();
                failures.push_back(f);
                stop = true;
            } else {
                /* May require something that the previous cases have left behind */
                std::string what;
                Sequence seq;
                if (!f.hang) seq = failing_suffix(f.seq, &what);
                if (!seq.empty()) {
                    f.seq = seq;
                    f.what = what;
                    failures.push_back(f);
                    stop = true;
                } else {
                    flaky++;
                    fprintf(stderr, "%s: unreproducible failure ignored: %s\n", prop.id, f.what.c_str());
                    fprintf(stderr, "%s: target %s bytes %s\n", prop.id,
                        prop.targets[f.target].name, hexstr(f.d).c_str());
                    /* Carry on with the next case */
                    if (restarts[k]++ < 5 && now() - start < opt.cap) {
                        sh[k]->nhist = 0;
                        start_shard(k);
                        alive[k] = true;
                        running++;
                    }
                    for (auto& t : last) t = now();
                }
            }
        }
        if (stop) {
            for (int k = 0; k < opt.shards; k++) {
                if (alive[k]) {
                    int st;
                    kill(pid[k], SIGKILL);
                    waitpid(pid[k], &st, 0);
                    alive[k] = false;
                    running--;
                }
            }
        }
        if (!any) usleep(3000);
    }

    /* Merge the statistics */
    uint64_t cases = 0, nontrivial = 0, bytes = 0;
    std::vector<uint64_t> all;
    std::vector<Label> labels;
    for (Shard* s : sh) {
        cases += s->cases;
        nontrivial += s->nontrivial;
        bytes += s->bytes_total;
        for (uint32_t i = 0; i < HASH_SIZE; i++) if (s->seen[i]) all.push_back(s->seen[i]);
        for (uint32_t i = 0; i < s->nlabels; i++) {
            bool found = false;
            for (auto& l : labels) {
                if (!strcmp(l.name, s->labels[i].name)) {
                    l.count += s->labels[i].count;
                    found = true;
                    break;
                }
            }
            if (!found) labels.push_back(s->labels[i]);
        }
    }
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());

    /* Samples */
    std::string samples;
    int nsamples = 0;
    for (int k = 0; k < opt.shards && nsamples < 3; k++) {
        Shard* s = sh[k];
        if (!s->nsamples) continue;
        const uint32_t slot = s->nsamples - 1;
        std::vector<uint8_t> d(s->sample[slot], s->sample[slot] + s->sample_len[slot]);
        std::string trace;
        run_forked(s->sample_target[slot], d, patience, &trace, NULL);
        if (trace.size() > 1500) trace = trace.substr(0, 1500) + "...";
        if (nsamples++) samples += ",";
        samples += "{\"target\":" + json_str(prop.targets[s->sample_target[slot]].name) +
            ",\"bytes\":" + std::to_string(d.size()) + ",\"steps\":" + json_str(trace) + "}";
    }

    int rc = internal.empty() ? 0 : 2;
    std::string violations;
    for (auto& f : failures) {
        std::string what2, trace;
        if (!f.seq.empty()) {
            Sequence seq = shrink(f.seq, 25);
            if (!fails(seq, &what2)) {
                seq = f.seq;
                what2 = f.what;
            }
            run_forked(0, std::vector<uint8_t>(), 60, &trace, NULL, &seq);
            const std::string path = save_replay(opt, "sequence", prop.targets[f.target].name,
                std::vector<uint8_t>(), what2, trace, seq);
            if (!violations.empty()) violations += ",";
            violations += "{\"replay\":" + json_str(path) + ",\"what\":" + json_str(what2) + "}";
            rc = 1;
            continue;
        }
        std::vector<uint8_t> d = shrink(f.target, f.d, f.hang, 25);
        if (!fails(f.target, d, patience, &what2)) {
            d = f.d;
            what2 = f.what;
        }
        run_forked(f.target, d, patience, &trace, NULL);
        const std::string path = save_replay(opt, "generated", prop.targets[f.target].name,
            d, what2, trace);
        if (!violations.empty()) violations += ",";
        violations += "{\"replay\":" + json_str(path) + ",\"what\":" + json_str(what2) + "}";
        rc = 1;
    }

    FILE* o = fopen(opt.out.c_str(), "w");
    if (!o) {
        perror(opt.out.c_str());
        return 3;
    }
    fprintf(o, "{\"cases\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"bytes\":%llu,"
        "\"flaky\":%u,\"wall\":%.2f,\"internal\":%s,\"labels\":{",
        (unsigned long long)cases, (unsigned long long)nontrivial,
        (unsigned long long)all.size(), (unsigned long long)bytes, flaky, now() - start,
        json_str(internal).c_str());
    for (size_t i = 0; i < labels.size(); i++) {
        fprintf(o, "%s%s:%llu", i ? "," : "", json_str(labels[i].name).c_str(),
            (unsigned long long)labels[i].count);
    }
    fprintf(o, "},\"samples\":[%s],\"violations\":[%s]}\n", samples.c_str(), violations.c_str());
    fclose(o);
    /* Distinct hashes, for merging campaigns */
    FILE* h = fopen((opt.out + ".hashes").c_str(), "wb");
    if (h) {
        fwrite(all.data(), 8, all.size(), h);
        fclose(h);
    }
    return rc;
}

/* Runs the fixed examples, prints a line per failure */
static int run_fixed(const Options& opt)
{
    for (auto& x : prop.fixed) {
        std::vector<uint8_t> none;
        bool bad = true;
        std::string what, trace;
        for (int i = 0; i < 3 && bad; i++) {
            Outcome o = run_forked(0, none, 30, &trace, x.fn);
            bad = o.failed;
            what = o.what;
        }
        if (bad) {
            const std::string path = save_replay(opt, "fixed", x.key, none, what, trace);
            printf("FIXED-FAIL\t%s\t%s\t%s\n", x.key, path.c_str(),
                what.substr(0, what.find('\n')).c_str());
        } else {
            printf("FIXED-OK\t%s\n", x.key);
        }
    }
    fflush(stdout);
    return 0;
}

static std::vector<uint8_t> unhex(const std::string& hex)
{
    std::vector<uint8_t> d;
    for (size_t i = 0; hex != "-" && i + 1 < hex.size(); i += 2) {
        d.push_back((uint8_t)strtoul(hex.substr(i, 2).c_str(), NULL, 16));
    }
    return d;
}

static int replay(const char* path)
{
    std::string s = read_file(path);
    std::string kind, target, hex;
    Sequence seq;
    size_t pos = 0;
    while (pos < s.size()) {
        size_t e = s.find('\n', pos);
        if (e == std::string::npos) e = s.size();
        std::string line = s.substr(pos, e - pos);
        pos = e + 1;
        if (line.compare(0, 6, "kind: ") == 0) kind = line.substr(6);
        if (line.compare(0, 8, "target: ") == 0) target = line.substr(8);
        if (line.compare(0, 6, "case: ") == 0) {
            const size_t sp = line.find(' ', 6);
            for (size_t i = 0; i < prop.targets.size(); i++) {
                if (line.substr(6, sp - 6) == prop.targets[i].name) {
                    Step x;
                    x.target = (uint32_t)i;
                    x.d = unhex(line.substr(sp + 1));
                    seq.push_back(x);
                }
            }
        }
        if (line.compare(0, 7, "bytes: ") == 0) { hex = line.substr(7); break; }
    }
    const std::vector<uint8_t> d = unhex(hex);
    std::string trace;
    Outcome o;
    if (kind == "fixed") {
        for (auto& x : prop.fixed) {
            if (target == x.key) o = run_forked(0, d, 60, &trace, x.fn);
        }
    } else if (kind == "sequence") {
        for (unsigned k = 0; k < prop.attempts && !o.failed; k++) {
            o = run_forked(0, d, 60, &trace, NULL, &seq);
        }
    } else {
        for (size_t i = 0; i < prop.targets.size(); i++) {
            if (target == prop.targets[i].name) {
                for (unsigned k = 0; k < prop.attempts; k++) {
                    o = run_forked((uint32_t)i, d, 60, &trace, NULL);
                    if (o.failed) break;
                }
            }
        }
    }
    printf("%s\n%s%s\n", trace.c_str(), o.failed ? "FAILED: " : "passed", o.what.c_str());
    return o.failed ? 1 : 0;
}

} // namespace vp

int main(int argc, char** argv)
{
    using namespace vp;
    Options opt;
    const char* replay_file = NULL;
    bool fixed = false, info = false, giant = false;
    int rc;

    opt.seed = 1;
    opt.cases = 10000;
    opt.first = 0;
    opt.cap = 60;
    opt.shards = 8;
    opt.fuzz = false;
    opt.out = "/dev/null";
    opt.replay_dir = ".";
    opt.config = "x";
    prop = property();
    if (!prop.attempts) prop.attempts = 1;
    if (prop.child && getenv("VP_CHILD")) return prop.child();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") opt.seed = strtoull(val().c_str(), NULL, 10);
        else if (a == "--cases") opt.cases = strtoull(val().c_str(), NULL, 10);
        else if (a == "--first") opt.first = strtoull(val().c_str(), NULL, 10);
        else if (a == "--cap") opt.cap = atof(val().c_str());
        else if (a == "--shards") opt.shards = atoi(val().c_str());
        else if (a == "--fuzz") opt.fuzz = true;
        else if (a == "--out") opt.out = val();
        else if (a == "--replays") opt.replay_dir = val();
        else if (a == "--config") opt.config = val();
        else if (a == "--fixed") fixed = true;
        else if (a == "--giant") giant = true;
        else if (a == "--info") info = true;
        else if (a == "--replay") { i++; replay_file = argv[i]; }
        else {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 3;
        }
    }
    if (info) {
        printf("{\"id\":%s,\"rule\":%s,\"nfixed\":%d,\"ngiant\":%d,\"no_fuzz\":%s,\"targets\":[",
            json_str(prop.id).c_str(), json_str(prop.rule).c_str(),
            (int)prop.fixed.size(), (int)prop.giant.size(), prop.no_fuzz ? "true" : "false");
        for (size_t i = 0; i < prop.targets.size(); i++) {
            printf("%s%s", i ? "," : "", json_str(prop.targets[i].name).c_str());
        }
        printf("]}\n");
        return 0;
    }
    {
        const char* t = getenv("VP_SCRATCH");
        std::string base = std::string(t ? t : "/tmp") + "/vp-XXXXXX";
        std::vector<char> b(base.begin(), base.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) {
            perror(b.data());
            return 3;
        }
        scratch_base = b.data();
    }
    if (giant) patience = 120;
    if (giant) prop.targets = prop.giant;
    else if (replay_file) prop.targets.insert(prop.targets.end(), prop.giant.begin(), prop.giant.end());
    if (replay_file) rc = replay(replay_file);
    else if (fixed) rc = run_fixed(opt);
    else rc = campaign(opt);
    rmtree(scratch_base);
    return rc;
}
