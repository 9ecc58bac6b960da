// VP-ASSUMES: sizes passed to the padding encoder are between the natural size of the value and 10 bytes, the limit of the format for 64-bit numbers
/* C01: MBN encoding is canonical, minimal and reversible */
#include "vp.h"
#include "mbn_ref.h"
#include "gutil_datapack.h"
#include <stdlib.h>

using namespace vp;

static std::string hex(const std::string& s)
{
    std::string o;
    char b[4];
    for (unsigned char ch : s) { snprintf(b, sizeof(b), "%02x ", ch); o += b; }
    return o;
}

/* Exact-size heap buffer lets ASan notice every stray byte */
struct Buf {
    guint8* p;
    size_t n;
    Buf(size_t k) : p((guint8*)malloc(k ? k : 1)), n(k) { memset(p, 0xa5, k); }
    ~Buf() { free(p); }
    std::string str() const { return std::string((char*)p, n); }
};

static void check_decode(Ctx& c, const std::string& enc, bool sgn, int64_t sv, uint64_t uv)
{
    /* Something may follow the number */
    const unsigned tail = (unsigned)c.range(0, 3);
    Buf b(enc.size() + tail);
    memcpy(b.p, enc.data(), enc.size());
    for (unsigned i = 0; i < tail; i++) b.p[enc.size() + i] = c.u8();
    GUtilRange r;
    GUtilData d;
    r.ptr = b.p;
    r.end = b.p + b.n;
    if (sgn) {
        gint64 out = 0x5555;
        VP_CHECK(c, gutil_signed_mbn_decode(&r, &out), "value %lld enc %s", (long long)sv, hex(enc).c_str());
        VP_EQ(c, out, sv, "decoded signed");
        VP_EQ(c, r.ptr - b.p, enc.size(), "consumed bytes");
        Buf e(enc.size());
        memcpy(e.p, enc.data(), enc.size());
        d.bytes = e.p;
        d.size = e.n;
        out = 0x5555;
        VP_CHECK(c, gutil_signed_mbn_decode2(&d, &out), "value %lld", (long long)sv);
        VP_EQ(c, out, sv, "decoded signed (2)");
    } else {
        guint64 out = 0x5555;
        VP_CHECK(c, gutil_unsigned_mbn_decode(&r, &out), "value %llu enc %s", (unsigned long long)uv, hex(enc).c_str());
        VP_EQ(c, out, uv, "decoded unsigned");
        VP_EQ(c, r.ptr - b.p, enc.size(), "consumed bytes");
        Buf e(enc.size());
        memcpy(e.p, enc.data(), enc.size());
        d.bytes = e.p;
        d.size = e.n;
        out = 0x5555;
        VP_CHECK(c, gutil_unsigned_mbn_decode2(&d, &out), "value %llu", (unsigned long long)uv);
        VP_EQ(c, out, uv, "decoded unsigned (2)");
    }
}

static void one(Ctx& c, bool sgn, uint64_t v)
{
    const std::string ref = sgn ? ref_smbn((int64_t)v) : ref_umbn(v);
    VP_LOG(c, "%s %lld (0x%llx): %s", sgn ? "signed" : "unsigned", (long long)v,
        (unsigned long long)v, hex(ref).c_str());
    const guint size = sgn ? gutil_signed_mbn_size((gint64)v) : gutil_unsigned_mbn_size(v);
    VP_CHECK(c, size == ref.size(), "value 0x%llx: size %u, expected %u",
        (unsigned long long)v, size, (unsigned)ref.size());
    {
        Buf b(ref.size());
        const guint n = sgn ? gutil_signed_mbn_encode(b.p, (gint64)v) :
            gutil_unsigned_mbn_encode(b.p, v);
        VP_EQ(c, n, ref.size(), "encoded size");
        VP_CHECK(c, b.str() == ref, "value 0x%llx: encoded as %s instead of %s",
            (unsigned long long)v, hex(b.str()).c_str(), hex(ref).c_str());
    }
    check_decode(c, ref, sgn, (int64_t)v, v);
    /* Padding */
    const unsigned pad = (unsigned)c.range((int)ref.size(), 10);
    {
        Buf b(pad);
        const guint n = sgn ? gutil_signed_mbn_encode2(b.p, (gint64)v, pad) :
            gutil_unsigned_mbn_encode2(b.p, v, pad);
        VP_EQ(c, n, pad, "padded size");
        std::string p = ref;
        if (p.size() < pad) {
            const unsigned char fill = (sgn && (int64_t)v < 0) ? 0xff : 0x80;
            /* Leading groups are sign or zero bits */
            p = std::string(pad - ref.size(), (char)fill) + ref;
        }
        VP_LOG(c, "  padded to %u: %s", pad, hex(p).c_str());
        VP_CHECK(c, b.str() == p, "value 0x%llx padded to %u: %s instead of %s",
            (unsigned long long)v, pad, hex(b.str()).c_str(), hex(p).c_str());
        check_decode(c, p, sgn, (int64_t)v, v);
        if (pad > ref.size()) c.label("padded");
    }
    /* Zero size writes nothing */
    guint8 z = 0x77;
    if (sgn) VP_EQ(c, gutil_signed_mbn_encode2(&z, (gint64)v, 0), 0, "zero size");
    else VP_EQ(c, gutil_unsigned_mbn_encode2(&z, v, 0), 0, "zero size");
    VP_EQ(c, z, 0x77, "byte with zero size");
    if (ref.size() > 1) c.nontrivial();
    char l[32];
    snprintf(l, sizeof(l), "%s-%u-bytes", sgn ? "signed" : "unsigned", (unsigned)ref.size());
    c.label(l);
}

static uint64_t value(Ctx& c)
{
    if (c.coin()) return c.x64();
    /* Value which has a given number of significant bits */
    const unsigned bits = (unsigned)c.range(0, 64);
    uint64_t v = c.u64();
    if (bits < 64) v &= (1ull << bits) - 1;
    if (bits && c.coin()) v |= 1ull << (bits - 1);
    if (c.coin()) v = ~v;
    return v;
}

static void values(Ctx& c)
{
    do {
        const bool sgn = c.coin();
        one(c, sgn, value(c));
    } while (c.more() && ++c.steps < 40);
}

/* Numbers written one after another come back in the same order */
static void stream(Ctx& c)
{
    std::vector<std::pair<bool, uint64_t>> v;
    size_t total = 0;
    do {
        const bool sgn = c.coin();
        const uint64_t x = value(c);
        v.push_back({sgn, x});
        total += sgn ? gutil_signed_mbn_size((gint64)x) : gutil_unsigned_mbn_size(x);
    } while (c.more() && v.size() < 50);
    Buf b(total);
    size_t off = 0;
    for (auto& x : v) {
        off += x.first ? gutil_signed_mbn_encode(b.p + off, (gint64)x.second) :
            gutil_unsigned_mbn_encode(b.p + off, x.second);
    }
    VP_EQ(c, off, total, "sum of sizes");
    GUtilRange r;
    r.ptr = b.p;
    r.end = b.p + total;
    for (auto& x : v) {
        VP_LOG(c, "stream %s 0x%llx", x.first ? "signed" : "unsigned", (unsigned long long)x.second);
        if (x.first) {
            gint64 out = 0;
            VP_CHECK(c, gutil_signed_mbn_decode(&r, &out), "stream");
            VP_EQ(c, out, (int64_t)x.second, "stream value");
        } else {
            guint64 out = 0;
            VP_CHECK(c, gutil_unsigned_mbn_decode(&r, &out), "stream");
            VP_EQ(c, out, x.second, "stream value");
        }
    }
    VP_CHECK(c, r.ptr == r.end, "leftover");
    VP_CHECK(c, !gutil_unsigned_mbn_decode(&r, NULL) && !gutil_signed_mbn_decode(&r, NULL), "empty");
    if (v.size() > 2) c.nontrivial();
}

Property vp::property()
{
    Property p = {};
    p.id = "C01";
    p.rule = "64-bit values biased to every bit length and to neighbourhoods of powers of two, each "
        "encoded (natural size and padded) and decoded, plus streams of mixed numbers; non-trivial = "
        "a value which takes more than one byte, or a stream of 3+ numbers";
    p.targets = { { "values", values, 3, 600 }, { "stream", stream, 1, 600 } };
    p.leak_check = true;
    return p;
}
