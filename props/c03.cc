// VP-ASSUMES: the array of tags is zero terminated and the output array, if any, has room for all of them
/* C03: TLV encoding and decoding */
#include "vp.h"
#include "mbn_ref.h"
#include "giant.h"
#include "gutil_datapack.h"
#include <stdlib.h>
#include <map>

using namespace vp;

static std::string hex(const std::string& s)
{
    std::string o;
    char b[4];
    for (unsigned char ch : s.substr(0, 200)) { snprintf(b, sizeof(b), "%02x ", ch); o += b; }
    return o;
}

static uint32_t gen_tag(Ctx& c)
{
    switch (c.range(0, 3)) {
    case 0: return (uint32_t)c.range(1, 5);
    case 1: return (uint32_t)c.range(1, 60);
    case 2: return c.pick<uint32_t>({127, 128, 129, 16383, 16384, 0x7ffffffe, 0x7fffffff, 255, 256,
        0x1fffff, 0x200000, 0xfffffff, 0x10000000});
    default: { uint32_t t = c.u32() & 0x7fffffff; return t ? t : 1; }
    }
}

static std::string gen_val(Ctx& c)
{
    unsigned n;
    switch (c.range(0, 5)) {
    case 0: n = 0; break;
    case 1: case 2: n = (unsigned)c.range(1, 9); break;
    case 3: n = (unsigned)c.range(120, 135); break;
    case 4: n = c.chance(20) ? (unsigned)c.range(16380, 16390) : c.chance(1) && c.chance(50) ? (unsigned)c.range(2097148, 2097156) : (unsigned)c.range(0, 40); break;
    default: n = (unsigned)c.range(0, 300); break;
    }
    return c.bytes(n);
}

static std::string pad(Ctx& c, const std::string& mbn)
{
    /* Non-minimal but valid number */
    std::string s = mbn;
    if (c.chance(25) && s.size() < 10) s.insert(0, (size_t)c.range(1, (int)(10 - s.size())), (char)0x80);
    return s;
}

/* Copy of the input in exact-size heap block */
struct Heap {
    guint8* p;
    size_t n;
    Heap(const std::string& s) : p((guint8*)malloc(s.size() ? s.size() : 1)), n(s.size()) {
        memcpy(p, s.data(), n);
    }
    ~Heap() { free(p); }
};

static void check_tlv_decode(Ctx& c, const std::string& s)
{
    /* Pull TLVs one by one, compare each with the reference */
    Heap h(s);
    GUtilRange r;
    size_t off = 0;
    r.ptr = h.p;
    r.end = h.p + h.n;
    for (;;) {
        RefTlv t;
        const bool null_val = c.chance(40);
        GUtilData v = { NULL, 12345 };
        const size_t k = ref_tlv_decode(h.p + off, h.n - off, &t);
        const guint tag = gutil_tlv_decode(&r, null_val ? NULL : &v);
        if (k) {
            VP_CHECK(c, tag == t.tag, "%s at %u: tag %u, expected %u", hex(s).c_str(), (unsigned)off, tag, t.tag);
            if (!null_val) {
                VP_EQ(c, v.size, t.len, "value size");
                if (t.len) VP_CHECK(c, v.bytes == h.p + off + t.off, "wrong place");
            }
            off += k;
            VP_EQ(c, r.ptr - h.p, off, "position");
        } else {
            VP_CHECK(c, !tag, "%s at %u: tag %u pulled out of malformed input", hex(s).c_str(), (unsigned)off, tag);
            VP_EQ(c, r.ptr - h.p, off, "position after failure");
            break;
        }
        VP_CHECK(c, r.end == h.p + h.n, "end moved");
    }
}

static void check_tlvs(Ctx& c, const std::string& s, const std::vector<uint32_t>& tags,
    bool null_vals, unsigned flags)
{
    Heap h(s);
    /* Reference */
    int expected = 0;
    size_t off = 0;
    const size_t nt = tags.size();
    std::vector<RefTlv> vals(nt);
    std::vector<size_t> base(nt);
    std::vector<bool> found(nt);
    bool early = false;
    while (!early) {
        RefTlv t;
        const size_t k = ref_tlv_decode(h.p + off, h.n - off, &t);
        if (!k) break;
        size_t i;
        for (i = 0; i < nt && i < 31 && tags[i] != t.tag; i++);
        if (i < nt && i < 31) {
            if (found[i]) { expected = GUTIL_TLVS_DECODE_DUPLICATE_TAG; early = true; }
            found[i] = true;
            vals[i] = t;
            base[i] = off;
        } else if (!(flags & GUTIL_TLVS_DECODE_FLAG_SKIP_UNKNOWN_TAGS)) {
            expected = GUTIL_TLVS_DECODE_UNKNOWN_TAG;
            early = true;
        }
        off += k;
    }
    if (!early) {
        if (off != h.n) expected = GUTIL_TLVS_DECODE_ERROR;
        else for (size_t i = 0; i < nt; i++) if (found[i]) expected |= 1 << i;
    }
    std::vector<guint> ta(tags.begin(), tags.end());
    guint* tp = (guint*)malloc(sizeof(guint) * (nt + 1));
    memcpy(tp, ta.data(), nt * sizeof(guint));
    tp[nt] = 0;
    GUtilData* vp = null_vals ? NULL : (GUtilData*)malloc(sizeof(GUtilData) * (nt ? nt : 1));
    if (vp) memset((void*)vp, 0xee, sizeof(GUtilData) * nt);
    GUtilData in;
    in.bytes = h.p;
    in.size = h.n;
    const int ret = gutil_tlvs_decode(&in, tp, vp, (GUTIL_TLVS_DECODE_FLAGS)flags);
    VP_LOG(c, "tlvs_decode(%u tags%s, flags %u) => %d", (unsigned)nt, null_vals ? ", no values" : "", flags, ret);
    VP_CHECK(c, ret == expected, "input %s (%u bytes, %u tags, flags %u): got %d, expected %d", hex(s).c_str(),
        (unsigned)s.size(), (unsigned)nt, flags, ret, expected);
    if (ret >= 0 && vp) {
        for (size_t i = 0; i < nt; i++) {
            if (found[i]) {
                VP_EQ(c, vp[i].size, vals[i].len, "size of the value");
                if (vals[i].len) VP_CHECK(c, vp[i].bytes == h.p + base[i] + vals[i].off, "value %u", (unsigned)i);
            } else {
                VP_CHECK(c, !vp[i].bytes && !vp[i].size, "missing value %u is not cleared", (unsigned)i);
            }
        }
    }
    VP_CHECK(c, in.bytes == h.p && in.size == h.n, "input data modified");
    VP_CHECK(c, !memcmp(h.p, s.data(), s.size()), "input bytes modified");
    c.label(ret >= 0 ? "decoded" : ret == -1 ? "error" : ret == -2 ? "duplicate" : "unknown");
    if (nt > 31) c.label("over-31-tags");
    free(tp);
    free(vp);
}

static std::vector<uint32_t> gen_tags(Ctx& c)
{
    std::vector<uint32_t> t;
    if (c.chance(60)) {
        /* Consecutive tags, around the limit */
        const int n = c.range(28, 40);
        const uint32_t first = (uint32_t)c.range(1, 30);
        for (int i = 0; i < n; i++) t.push_back(first + i);
    } else {
        const int n = c.range(0, 6);
        for (int i = 0; i < n; i++) t.push_back(gen_tag(c));
    }
    return t;
}

static void messages(Ctx& c)
{
    const std::vector<uint32_t> tags = gen_tags(c);
    std::string s;
    const bool distinct = c.coin(); /* Likely to decode */
    std::map<uint32_t, bool> used;
    int n = 0;
    bool damaged = false;
    do {
        uint32_t tag = (!tags.empty() && !c.chance(60)) ? c.pickv(tags) : gen_tag(c);
        if (distinct && used[tag]) continue;
        used[tag] = true;
        std::string v = gen_val(c);
        std::string t = pad(c, ref_umbn(tag)), l = pad(c, ref_umbn(v.size()));
        if (c.chance(12)) {
            damaged = true;
            switch (c.range(0, 6)) {
            case 0: t = ref_umbn(0); break;
            case 1: t = ref_umbn((uint64_t)0x80000000u + c.u32()); break;
            case 2: t = ref_umbn(c.x64()); break;
            case 3: l = ref_umbn(c.x64()); break;
            case 4: l = ref_umbn(v.size() + (uint64_t)c.range(1, 3)); break;
            case 5: l = ref_umbn(UINT64_MAX - c.u8()); break;
            default: l += (char)0x80; break;
            }
        }
        s += t + l + v;
        n++;
    } while (c.more() && n < 60 && ++c.steps < 100);
    if (c.chance(30)) { s.resize((size_t)c.urange(0, s.size())); damaged = true; }
    if (c.chance(20)) { s += c.bytes((unsigned)c.range(1, 5)); damaged = true; }
    VP_LOG(c, "message: %s (%u bytes)", hex(s).c_str(), (unsigned)s.size());
    check_tlv_decode(c, s);
    const unsigned flags = c.coin() ? 1 : 0;
    check_tlvs(c, s, tags, c.chance(40), flags);
    check_tlvs(c, s, tags, false, 1);
    check_tlvs(c, s, tags, false, 0);
    if (damaged) c.label("damaged");
    if (n > 1 || damaged) c.nontrivial();
}

static void raw(Ctx& c)
{
    const std::vector<uint32_t> tags = gen_tags(c);
    std::string s;
    const unsigned n = (unsigned)c.range(0, 40);
    for (unsigned i = 0; i < n; i++) {
        uint8_t b = c.u8();
        s.push_back((char)((b & 0xc0) == 0x40 ? (b & 7) : b));
    }
    VP_LOG(c, "raw: %s", hex(s).c_str());
    check_tlv_decode(c, s);
    check_tlvs(c, s, tags, c.coin(), c.coin() ? 1 : 0);
    if (n > 2) c.nontrivial();
}

/* Encode with the library, decode with the library */
static void encode(Ctx& c)
{
    struct Item { uint32_t tag; std::string val; };
    std::vector<Item> items;
    std::map<uint32_t, bool> used;
    size_t total = 0;
    do {
        Item x;
        x.tag = gen_tag(c);
        x.val = gen_val(c);
        if (used[x.tag]) continue;
        used[x.tag] = true;
        /* Something that won't be actually encoded */
        const gsize big = (gsize)(c.x64() & (c.coin() ? 0x7fffffff : G_MAXINT64));
        VP_EQ(c, gutil_tlv_size(x.tag, big), ref_umbn(x.tag).size() + ref_umbn(big).size() + big, "size of a large TLV");
        const gsize size = gutil_tlv_size(x.tag, x.val.size());
        const std::string ref = ref_umbn(x.tag) + ref_umbn(x.val.size()) + x.val;
        VP_CHECK(c, size == ref.size(), "size of TLV %u: %u, expected %u", x.tag, (unsigned)size, (unsigned)ref.size());
        Heap out(std::string(ref.size(), (char)0xa5));
        Heap in(x.val);
        GUtilData d;
        d.bytes = in.p;
        d.size = in.n;
        const bool null_val = x.val.empty() && c.coin();
        const gsize k = gutil_tlv_encode(out.p, x.tag, null_val ? NULL : &d);
        VP_EQ(c, k, ref.size(), "encoded size");
        VP_CHECK(c, !memcmp(out.p, ref.data(), ref.size()), "TLV %u of %u bytes", x.tag, (unsigned)x.val.size());
        total += k;
        VP_LOG(c, "item: tag %u, %u bytes", x.tag, (unsigned)x.val.size());
        items.push_back(x);
    } while (c.more() && items.size() < 31 && ++c.steps < 60);
    Heap buf(std::string(total, 0));
    size_t off = 0;
    std::vector<guint> tags;
    for (auto& x : items) {
        GUtilData d;
        d.bytes = (const guint8*)x.val.data();
        d.size = x.val.size();
        off += gutil_tlv_encode(buf.p + off, x.tag, &d);
        tags.push_back(x.tag);
    }
    VP_EQ(c, off, total, "total");
    tags.push_back(0);
    std::vector<GUtilData> vals(items.size() + 1);
    GUtilData in;
    in.bytes = buf.p;
    in.size = total;
    const int mask = gutil_tlvs_decode(&in, tags.data(), vals.data(), GUTIL_TLVS_DECODE_NO_FLAGS);
    VP_EQ(c, mask, (int)((1u << items.size()) - 1), "mask");
    for (size_t i = 0; i < items.size(); i++) {
        VP_EQ(c, vals[i].size, items[i].val.size(), "size");
        VP_CHECK(c, !memcmp(vals[i].bytes, items[i].val.data(), vals[i].size), "value");
    }
    if (items.size() > 1) c.nontrivial();
    if (items.size() > 10) c.label("encode-many");
}

/* Gigabytes of data in a sequence of items, without looking into them */
static void far(Ctx& c)
{
    const size_t len = giant::size(c) + (c.coin() ? 1 : 0) * c.u32();
    const uint32_t tag = gen_tag(c);
    const std::string head = ref_umbn(tag) + pad(c, ref_umbn(len));
    const std::string val = c.bytes((unsigned)c.range(0, 5));
    uint32_t tag2 = gen_tag(c);
    if (tag2 == tag) tag2 = tag ^ 0x40000000;
    const std::string next = ref_umbn(tag2) + ref_umbn(val.size()) + val;
    const bool cut = c.chance(60), second = c.coin();
    const size_t total = head.size() + len + (second ? next.size() : 0);
    giant::Block b(c, cut ? head.size() + len - (size_t)c.range(1, 3) : total);
    if (!b.ok()) return;
    memcpy(b.p, head.data(), head.size());
    if (!cut && second) memcpy(b.p + head.size() + len, next.data(), next.size());
    VP_LOG(c, "tag %u with %zu bytes%s%s", tag, len, cut ? ", truncated" : "", second ? ", another one follows" : "");
    GUtilRange in;
    GUtilData d;
    memset(&d, 0x5a, sizeof(d));
    in.end = (in.ptr = b.p) + b.n;
    const guint got = gutil_tlv_decode(&in, c.coin() ? &d : NULL);
    VP_EQ(c, got, cut ? 0 : tag, "tag of a large item");
    VP_EQ(c, in.ptr - b.p, cut ? 0 : head.size() + len, "position");
    if (!cut && d.size != (gsize)0x5a5a5a5a5a5a5a5aull) {
        VP_EQ(c, d.size, len, "size of a large item");
        VP_EQ(c, d.bytes - b.p, head.size(), "location of a large item");
    }
    GUtilData all, vals[2];
    all.bytes = b.p;
    all.size = b.n;
    guint tags[3] = { tag, tag2, 0 };
    const int mask = gutil_tlvs_decode(&all, tags, vals, GUTIL_TLVS_DECODE_NO_FLAGS);
    VP_EQ(c, mask, cut ? GUTIL_TLVS_DECODE_ERROR : second ? 3 : 1, "mask");
    if (!cut) {
        VP_CHECK(c, vals[0].size == len && vals[0].bytes == b.p + head.size(), "value of a large item");
        if (second) VP_CHECK(c, vals[1].size == val.size() && vals[1].bytes == b.p + b.n - val.size(), "value after a large item");
        else VP_CHECK(c, !vals[1].size, "value out of nothing");
    }
    c.label("gigabytes");
    c.nontrivial();
}

/* The same but encoded for real */
static void giant_encode(Ctx& c)
{
    const size_t len = giant::size(c);
    const uint32_t tag = gen_tag(c);
    const std::string head = ref_umbn(tag) + ref_umbn(len);
    giant::Block in(c, len), out(c, head.size() + len);
    if (!in.ok() || !out.ok()) return;
    for (int i = 0; i < 5; i++) in.p[giant::pos(c, len)] = c.u8() | 1;
    GUtilData d;
    d.bytes = in.p;
    d.size = len;
    VP_LOG(c, "tag %u with %zu bytes", tag, len);
    VP_EQ(c, gutil_tlv_size(tag, len), out.n, "size");
    VP_EQ(c, gutil_tlv_encode(out.p, tag, &d), out.n, "encoded size");
    VP_CHECK(c, !memcmp(out.p, head.data(), head.size()) && !memcmp(out.p + head.size(), in.p, len), "wrong encoding");
    c.nontrivial();
}

static void fixed_size(Ctx& c)
{
    const gsize len = (gsize)1 << 32;
    VP_EQ(c, gutil_tlv_size(1, len), 6 + len, "size of a large TLV");
}

static void fixed_len(Ctx& c)
{
    check_tlv_decode(c, std::string("\x01", 1) + ref_umbn(UINT64_MAX));
    check_tlv_decode(c, std::string("\x01", 1) + ref_umbn(1ull << 63) + "abc");
    check_tlvs(c, std::string("\x01", 1) + ref_umbn(UINT64_MAX - 10), { 1, 2 }, false, 0);
}

static void fixed_zero(Ctx& c)
{
    check_tlv_decode(c, std::string("\0\0", 2));
    check_tlvs(c, std::string("\x01\x00\x00\x00", 4), { 1, 2 }, false, 0);
    check_tlvs(c, std::string("\x00\x00", 2), { 1, 2 }, false, 1);
}

Property vp::property()
{
    Property p = {};
    p.id = "C03";
    p.rule = "TLV messages built from tags in/out of the requested set (1..40 requested tags), values up to 16K (rarely 2M), "
        "padded numbers, zero/huge tags, lengths up to 2^64-1, truncation and trailing bytes; raw bytes; "
        "library-encoded messages; items of 2 to 8 gigabytes; non-trivial = 2+ entries or damaged input";
    p.targets = { { "messages", messages, 60, 700 }, { "raw", raw, 20, 120 }, { "encode", encode, 20, 500 }, { "far", far, 1, 60 } };
    p.giant = { { "giant_encode", giant_encode, 1, 60 } };
    p.fixed = { { "length-over-2^63", fixed_len }, { "zero-tag", fixed_zero }, { "size-4g", fixed_size } };
    p.leak_check = true;
    return p;
}
