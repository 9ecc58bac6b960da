// VP-CONFIGS: dbg rel tsan
// VP-TSAN: ignore_noninstrumented_modules=1
// VP-ASSUMES: no objects or memory shared by the threads (those are the subject of C25), the locale isn't being changed
/* C33: functions which have nothing in common may be used by several threads at the same time */
#include "vp.h"
#include <gutil_datapack.h>
#include <gutil_history.h>
#include <gutil_idlepool.h>
#include <gutil_idlequeue.h>
#include <gutil_intarray.h>
#include <gutil_ints.h>
#include <gutil_log.h>
#include <gutil_misc.h>
#include <gutil_objv.h>
#include <gutil_ring.h>
#include <gutil_strv.h>
#include <gutil_weakref.h>
#include <glib-object.h>
#include <atomic>
#include <deque>
#include <sched.h>
#include <time.h>
using namespace vp;

namespace {

enum { MAX_THREADS = 4 };

/* Every operation gets its own sequence of numbers */
struct Rnd {
    uint32_t x;
    explicit Rnd(uint32_t seed) : x(seed * 2654435761u + 12345u) { next(); }
    uint32_t next() { x = x * 1664525u + 1013904223u; return x >> 8; }
    uint64_t u64() { uint64_t v = next(); v = (v << 24) ^ next(); v = (v << 24) ^ next(); return v >> (next() % 64); }
    int range(int lo, int hi) { return lo + (int)(next() % (uint32_t)(hi - lo + 1)); }
    std::string bytes(unsigned n) { std::string s(n, 0); for (auto& ch : s) ch = (char)next(); return s; }
    std::string str(unsigned n, const char* abc) { std::string s(n, 0); const unsigned k = strlen(abc); for (auto& ch : s) ch = abc[next() % k]; return s; }
};

/* What came out of it */
struct Out {
    std::string s;
    void add(long long v) { s += std::to_string(v); s += ','; }
    void add(const std::string& v) { s += v; s += ','; }
    void data(const void* p, size_t n) { s.append((const char*)p, n); s += ','; }
};

void op_mbn(Rnd& r, Out& o)
{
    for (int k = r.range(1, 8); k > 0; k--) {
        guint8 buf[16];
        const uint64_t v = r.u64();
        const bool sign = r.next() & 1;
        const guint n = sign ? gutil_signed_mbn_encode(buf, (gint64)v) : gutil_unsigned_mbn_encode(buf, v);
        GUtilRange in = { buf, buf + n };
        guint64 u = 0;
        gint64 i = 0;
        o.data(buf, n);
        if (sign ? gutil_signed_mbn_decode(&in, &i) : gutil_unsigned_mbn_decode(&in, &u)) o.add(sign ? i : (gint64)u);
        o.add(sign ? gutil_signed_mbn_size((gint64)v) : gutil_unsigned_mbn_size(v));
    }
}

void op_tlv(Rnd& r, Out& o)
{
    std::string buf;
    guint tags[9];
    GUtilData vals[9];
    int n = r.range(1, 8);
    for (int i = 0; i < n; i++) {
        const std::string v = r.bytes(r.range(0, 40));
        GUtilData d = { (const guint8*)v.data(), v.size() };
        tags[i] = i + 1 + r.range(0, 1) * 1000 * (i + 1);
        std::string piece(gutil_tlv_size(tags[i], v.size()), 0);
        gutil_tlv_encode(&piece[0], tags[i], &d);
        buf += piece;
    }
    tags[n] = 0;
    const GUtilData in = { (const guint8*)buf.data(), buf.size() };
    memset(vals, 0, sizeof(vals));
    o.data(buf.data(), buf.size());
    o.add(gutil_tlvs_decode(&in, tags, vals, GUTIL_TLVS_DECODE_NO_FLAGS));
    for (int i = 0; i < n; i++) o.data(vals[i].bytes, vals[i].size);
}

void op_strv(Rnd& r, Out& o)
{
    GStrV* sv = NULL;
    for (int k = r.range(0, 30); k > 0; k--) sv = gutil_strv_add(sv, r.str(r.range(0, 3), "ab \t").c_str());
    switch (r.range(0, 5)) {
    case 0: sv = gutil_strv_sort(sv, r.next() & 1); break;
    case 1: sv = gutil_strv_remove_dups(sv); break;
    case 2: sv = gutil_strv_strip(sv); break;
    case 3: sv = gutil_strv_remove(sv, "a", r.next() & 1); break;
    case 4: { const bool asc = r.next() & 1; sv = gutil_strv_sort(sv, asc); const int i = gutil_strv_bsearch(sv, "ab", asc); o.add(i >= 0); break; }
    default: sv = gutil_strv_addv(sv, "x", "y", NULL); break;
    }
    o.add(gutil_strv_find(sv, "b"));
    for (guint i = 0; i < gutil_strv_length(sv); i++) o.add(std::string(gutil_strv_at(sv, i)));
    g_strfreev(sv);
}

void op_hex(Rnd& r, Out& o)
{
    const std::string d = r.bytes(r.range(0, 100));
    GUtilData data = { (const guint8*)d.data(), d.size() };
    char* hex = r.next() & 1 ? gutil_bin2hex(d.data(), d.size(), r.next() & 1) : gutil_data2hex(&data, r.next() & 1);
    if (hex) {
        o.add(std::string(hex));
        std::string bin(d.size() + 1, 0);
        if (gutil_hex2bin(hex, -1, &bin[0])) o.add(bin);
        GBytes* b = gutil_hex2bytes(hex, -1);
        if (b) {
            o.add(gutil_bytes_equal(b, d.data(), d.size()));
            g_bytes_unref(b);
        }
    }
    g_free(hex);
    for (guint off = 0; off < d.size();) {
        char buf[GUTIL_HEXDUMP_BUFSIZE];
        const guint n = gutil_hexdump(buf, d.data() + off, d.size() - off);
        o.add(std::string(buf));
        if (!n) break;
        off += n;
    }
}

void op_parse(Rnd& r, Out& o)
{
    for (int k = r.range(1, 8); k > 0; k--) {
        std::string s = r.str(r.range(0, 2), " \t") + (r.range(0, 3) ? "" : "-") + r.str(r.range(0, r.range(1, 22)), "0123456789") + r.str(r.range(0, 8) / 8, "x ");
        if (r.range(0, 20) == 0) s += std::string(600, ' ');
        int i = 0;
        unsigned u = 0;
        gint64 i64 = 0;
        guint64 u64 = 0;
        const int base = r.range(0, 2) * 5;
        o.add(gutil_parse_int(s.c_str(), base, &i)); o.add(i);
        o.add(gutil_parse_uint(s.c_str(), base, &u)); o.add(u);
        o.add(gutil_parse_int64(s.c_str(), base, &i64)); o.add(i64);
        o.add(gutil_parse_uint64(s.c_str(), base, &u64)); o.add((gint64)u64);
    }
}

void op_bytes(Rnd& r, Out& o)
{
    GBytes* b[3];
    GUtilData d[3];
    for (int i = 0; i < 3; i++) {
        const std::string s = r.bytes(r.range(0, 40));
        b[i] = g_bytes_new(s.data(), s.size());
        gutil_data_from_bytes(d + i, b[i]);
    }
    GBytes* x[2] = { gutil_bytes_concat(b[0], b[1], b[2], NULL), gutil_bytes_xor(b[0], b[1]) };
    for (GBytes* p : x) {
        if (p) o.data(g_bytes_get_data(p, NULL), g_bytes_get_size(p));
    }
    o.add(gutil_bytes_has_prefix(x[0], d[0].bytes, d[0].size));
    o.add(gutil_bytes_has_suffix(x[0], d[2].bytes, d[2].size));
    o.add(gutil_data_equal(d, d + 1));
    GUtilRange range;
    o.add((long long)gutil_range_init_with_bytes(&range, x[0]));
    o.add(gutil_range_skip_prefix(&range, d));
    o.data(range.ptr, range.end - range.ptr);
    GUtilData* copy = gutil_data_copy(d + 1);
    if (copy) o.data(copy->bytes, copy->size);
    g_free(copy);
    GVariant* v = gutil_data_copy_as_variant(d + 2);
    if (v) {
        g_variant_ref_sink(v);
        o.data(g_variant_get_data(v), g_variant_get_size(v));
        g_variant_unref(v);
    }
    for (GBytes* p : x) if (p) g_bytes_unref(p);
    for (GBytes* p : b) g_bytes_unref(p);
}

int vals(Rnd& r) { return r.range(-20, 20); }

void op_ints(Rnd& r, Out& o)
{
    int v[50];
    const int n = r.range(0, 50);
    for (int i = 0; i < n; i++) v[i] = vals(r);
    GUtilInts* a = gutil_ints_new(v, n);
    GUtilInts* b = gutil_ints_new_from_ints(a, r.range(0, 20), r.range(0, 20));
    /* Empty vectors may be actually shared */
    GUtilInts* e = gutil_ints_new(NULL, 0);
    guint count = 0;
    const int* d = gutil_ints_get_data(b, &count);
    for (guint i = 0; i < count; i++) o.add(d[i]);
    o.add(gutil_ints_find(a, 0));
    o.add(gutil_ints_hash(a));
    o.add(gutil_ints_compare(a, b) < 0);
    o.add(gutil_ints_equal(b, e));
    gutil_ints_unref(a);
    int* data = gutil_ints_unref_to_data(b, &count);
    for (guint i = 0; i < count; i++) o.add(data[i]);
    g_free(data);
    gutil_ints_ref(e);
    gutil_ints_unref(e);
    o.add(gutil_ints_get_count(e));
    gutil_ints_unref(e);
}

void op_array(Rnd& r, Out& o)
{
    GUtilIntArray* a = r.next() & 1 ? gutil_int_array_new() : gutil_int_array_sized_new(r.range(0, 100));
    for (int k = r.range(0, 60); k > 0; k--) {
        switch (r.range(0, 6)) {
        case 0: gutil_int_array_prepend(a, vals(r)); break;
        case 1: gutil_int_array_insert(a, r.range(0, (int)MIN(a->count, 10)), vals(r)); break;
        case 2: gutil_int_array_remove_all(a, vals(r)); break;
        default: gutil_int_array_append(a, vals(r)); break;
        }
    }
    if (r.next() & 1) gutil_int_array_sort_ascending(a); else gutil_int_array_sort_descending(a);
    for (guint i = 0; i < a->count; i++) o.add(a->data[i]);
    if (r.next() & 1) gutil_int_array_free(a, TRUE);
    else gutil_ints_unref(gutil_int_array_free_to_ints(a));
}

void op_ring(Rnd& r, Out& o)
{
    GUtilRing* q = gutil_ring_new_full(r.range(0, 10), r.range(0, 1) ? -1 : r.range(1, 20), g_free);
    for (int k = r.range(0, 60); k > 0; k--) {
        switch (r.range(0, 5)) {
        case 0: { char* p = (char*)gutil_ring_get(q); if (p) o.add(std::string(p)); g_free(p); break; }
        case 1: { char* p = (char*)gutil_ring_get_last(q); if (p) o.add(std::string(p)); g_free(p); break; }
        case 2: { char* p = g_strdup_printf("%d", k); if (!gutil_ring_put_front(q, p)) g_free(p); break; }
        default: { char* p = g_strdup_printf("%d", k); if (!gutil_ring_put(q, p)) g_free(p); break; }
        }
    }
    gutil_ring_compact(q);
    gint n = 0;
    gpointer* d = gutil_ring_flatten(q, &n);
    for (int i = 0; i < n; i++) o.add(std::string((char*)d[i]));
    gutil_ring_unref(q);
}

thread_local gint64 now;
gint64 time_fn() { return now; }
void op_history(Rnd& r, Out& o)
{
    now = 0;
    GUtilIntHistory* h = gutil_int_history_new_full(r.range(1, 20), r.range(10, 1000), time_fn);
    for (int k = r.range(0, 40); k > 0; k--) {
        now += r.range(0, 20);
        o.add(gutil_int_history_add(h, vals(r)));
        if (!r.range(0, 3)) o.add(gutil_int_history_median(h, 77));
    }
    o.add(gutil_int_history_size(h));
    o.add(gutil_int_history_interval(h));
    gutil_int_history_unref(h);
}

void op_objv(Rnd& r, Out& o)
{
    GObject* obj[3];
    GObject** v = NULL;
    for (auto& x : obj) x = (GObject*)g_object_new(G_TYPE_OBJECT, NULL);
    for (int k = r.range(0, 20); k > 0; k--) {
        GObject* x = obj[r.range(0, 2)];
        if (r.range(0, 3)) v = gutil_objv_insert(v, x, r.range(0, 10)); else v = gutil_objv_remove(v, x, r.next() & 1);
    }
    GObject** copy = gutil_objv_copy(v);
    o.add(gutil_objv_equal(v, copy));
    o.add(gutil_objv_find(v, obj[1]));
    gutil_objv_free(copy);
    for (auto& x : obj) o.add((int)x->ref_count);
    gutil_objv_free(v);
    GUtilWeakRef* w = gutil_weakref_new(obj[0]);
    GObject* got = (GObject*)gutil_weakref_get(w);
    o.add(got == obj[0]);
    gutil_object_unref(got);
    for (auto& x : obj) gutil_object_unref(x);
    o.add(!gutil_weakref_get(w));
    gutil_weakref_unref(w);
}

void count_free(gpointer p) { (*(int*)p)++; }
void run_never(gpointer p) { (*(int*)p) += 1000000; }
void op_idle(Rnd& r, Out& o)
{
    int freed = 0;
    GUtilIdlePool* p = gutil_idle_pool_new();
    for (int k = r.range(0, 10); k > 0; k--) {
        gutil_idle_pool_add(p, &freed, count_free);
        if (!r.range(0, 5)) gutil_idle_pool_drain(p);
    }
    gutil_idle_pool_drain(p);
    o.add(freed);
    gutil_idle_pool_unref(p);
    o.add(freed);
    GUtilIdleQueue* q = gutil_idle_queue_new();
    for (int k = r.range(0, 10); k > 0; k--) gutil_idle_queue_add_tag_full(q, r.range(1, 3), run_never, &freed, count_free);
    o.add(gutil_idle_queue_contains_tag(q, 2));
    o.add(gutil_idle_queue_cancel_tag(q, 2));
    o.add(freed);
    gutil_idle_queue_free(q);
    o.add(freed);
}

void op_log(Rnd& r, Out& o)
{
    std::string names[2] = { "first" + std::to_string(r.range(0, 99)), "second" };
    GLogModule a = { names[0].c_str(), NULL, NULL, GLOG_LEVEL_VERBOSE, GLOG_LEVEL_INHERIT, 0, 0 };
    GLogModule b = { names[1].c_str(), &a, NULL, GLOG_LEVEL_VERBOSE, GLOG_LEVEL_INHERIT, 0, 0 };
    GLogModule* list[2] = { &a, &b };
    const std::string opt = names[r.range(0, 1)] + ":" + r.str(1, "012345weidn");
    GError* err = NULL;
    o.add(gutil_log_parse_option(opt.c_str(), list, 2, &err));
    if (err) o.add(std::string(err->message));
    g_clear_error(&err);
    o.add(a.level);
    o.add(b.level);
    o.add(gutil_log_enabled(&b, GLOG_LEVEL_DEBUG));
    char* d = gutil_log_description(list, 2);
    o.add(std::string(d));
    g_free(d);
    o.add(std::string(gutil_log_get_type()));
}

struct { const char* name; void (*fn)(Rnd&, Out&); } const ops[] = {
    { "mbn", op_mbn }, { "tlv", op_tlv }, { "strv", op_strv }, { "hex", op_hex }, { "parse", op_parse }, { "bytes", op_bytes },
    { "ints", op_ints }, { "array", op_array }, { "ring", op_ring }, { "history", op_history }, { "objv", op_objv },
    { "idle", op_idle }, { "log", op_log }
};
enum { NOPS = sizeof(ops) / sizeof(ops[0]) };

struct Step { int op; uint32_t seed; Out out; };
struct Worker { std::vector<Step> script; };

std::atomic<int> ready;
std::atomic<bool> go;

gpointer thread_proc(gpointer arg)
{
    Worker* w = (Worker*)arg;
    ready++;
    while (!go) sched_yield();
    for (auto& s : w->script) {
        Rnd r(s.seed);
        ops[s.op].fn(r, s.out);
    }
    return NULL;
}

/* GLib has to be initialized, it's not instrumented */
void init()
{
    tzset();
    GObject* o = (GObject*)g_object_new(G_TYPE_OBJECT, NULL);
    GError* e = g_error_new(G_OPTION_ERROR, G_OPTION_ERROR_BAD_VALUE, "test");
    GVariant* v = g_variant_ref_sink(g_variant_new_from_data(G_VARIANT_TYPE("ay"), "abc", 3, TRUE, NULL, NULL));
    GWeakRef wr;
    g_weak_ref_init(&wr, o);
    g_weak_ref_clear(&wr);
    g_object_unref(o);
    g_error_free(e);
    g_variant_unref(v);
}

void parallel(Ctx& c)
{
    std::deque<Worker> w;
    const int n = c.range(2, MAX_THREADS);
    /* Usually only a few kinds of operations, or even just one */
    const int kinds = c.pick({ 1, 2, 3, (int)NOPS });
    int kind[NOPS];
    for (int i = 0; i < NOPS; i++) kind[i] = kinds == NOPS ? i : c.range(0, NOPS - 1);
    unsigned total = 0;
    for (int i = 0; i < n; i++) {
        w.push_back(Worker());
        for (int k = c.range(1, 12); k > 0; k--) {
            Step s;
            s.op = kind[c.range(0, kinds - 1)];
            s.seed = c.u16();
            w.back().script.push_back(s);
            total++;
        }
    }
    ready = 0;
    go = false;
    std::vector<GThread*> th;
    for (auto& x : w) th.push_back(g_thread_new("w", thread_proc, &x));
    while (ready < n) sched_yield();
    go = true;
    for (auto t : th) g_thread_join(t);
    for (int i = 0; i < n; i++) {
        for (auto& s : w[i].script) {
            VP_LOG(c, "thread %d: %s %u", i, ops[s.op].name, s.seed);
            c.label(ops[s.op].name);
        }
    }
    /* Now the same things again, without other threads */
    for (int i = 0; i < n; i++) {
        for (auto& s : w[i].script) {
            Rnd r(s.seed);
            Out o;
            ops[s.op].fn(r, o);
            VP_CHECK(c, o.s == s.out.s, "different result of %s %u made by thread %d", ops[s.op].name, s.seed, i);
        }
    }
    VP_CHECK(c, !g_main_context_pending(NULL), "something's left in the main context");
    if (total > 3) c.nontrivial();
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C33";
    p.rule = "2..4 threads make up to 12 steps each, all at the same time; every step is one of 13 groups of calls (packing, string vectors, "
        "hexadecimal data, numbers, bytes, int vectors and arrays, rings, histories, object vectors, idle pools and queues, log options) on "
        "its own pseudorandom data, the results are compared with those of the same calls made by a single thread; non-trivial = more than 3 steps";
    p.targets = { { "parallel", parallel, 1, 200 } };
    p.init = init;
    p.leak_check = true;
    p.attempts = 200;
    return p;
}
