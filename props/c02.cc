/* C02: MBN decoders accept exactly the well formed input */
#include "vp.h"
#include "mbn_ref.h"
#include "gutil_datapack.h"
#include <stdlib.h>

using namespace vp;

static std::string hex(const std::string& s)
{
    std::string o;
    char b[4];
    for (unsigned char ch : s.substr(0, 40)) { snprintf(b, sizeof(b), "%02x ", ch); o += b; }
    return o;
}

static std::string gen(Ctx& c)
{
    std::string s;
    switch (c.range(0, 4)) {
    case 0: /* Anything */
        s = c.bytes((unsigned)c.range(0, 14));
        break;
    case 1: { /* Continuation bytes followed by the last one */
        const unsigned n = (unsigned)c.range(0, 12);
        for (unsigned i = 0; i < n; i++) s.push_back((char)(c.u8() | 0x80));
        s.push_back((char)(c.u8() & 0x7f));
        break;
    }
    case 2: { /* Filled with sign bits, around the limit */
        const unsigned n = (unsigned)c.range(6, 11);
        const bool neg = c.coin();
        s = std::string(n, neg ? (char)0xff : (char)0x80);
        const unsigned k = (unsigned)c.range(0, 3);
        for (unsigned i = 0; i < k && i < n; i++) s[i] = (char)(c.u8() | 0x80);
        for (unsigned i = 0; i < k && i < n; i++) s[n - i - 1] = (char)(c.u8() | 0x80);
        s.push_back((char)(c.u8() & 0x7f));
        break;
    }
    case 3: { /* Valid one, then damaged */
        s = c.coin() ? ref_umbn(c.x64()) : ref_smbn((int64_t)c.x64());
        switch (c.range(0, 4)) {
        case 0: s.resize(c.range(0, (int)s.size())); break;
        case 1: s[c.range(0, (int)s.size() - 1)] ^= (char)(1 << c.range(0, 7)); break;
        case 2: s.insert(0, c.range(0, 8), c.coin() ? (char)0xff : (char)0x80); break;
        case 3: s[s.size() - 1] |= 0x80; break;
        default: break;
        }
        break;
    }
    default: { /* Ten bytes, every possible first byte */
        s = std::string(1, (char)c.u8());
        for (int i = 0; i < 8; i++) s.push_back((char)(c.u8() | 0x80));
        s.push_back((char)(c.u8() & 0x7f));
        break;
    }
    }
    if (c.chance(80)) {
        s += c.bytes((unsigned)(c.chance(230) ? c.range(1, 4) : c.chance(240) ? c.range(5, 600) :
            c.pick({ 65535, 65536, 65537, 70000 })));
    }
    return s;
}

static void check_bytes(Ctx& c, const std::string& s)
{
    guint8* buf = (guint8*)malloc(s.size() ? s.size() : 1);
    memcpy(buf, s.data(), s.size());
    VP_LOG(c, "input: %s", hex(s).c_str());
    for (int pass = 0; pass < 2; pass++) {
        const bool null_out = pass == 1;
        GUtilRange r;
        r.ptr = buf;
        r.end = buf + s.size();
        /* Unsigned */
        uint64_t uref = 0;
        guint64 uout = 0x1122334455667788ull;
        size_t k = ref_umbn_decode(buf, s.size(), &uref);
        gboolean ok = gutil_unsigned_mbn_decode(&r, null_out ? NULL : &uout);
        VP_CHECK(c, (ok != 0) == (k != 0), "unsigned %s: %s, expected %s", hex(s).c_str(),
            ok ? "accepted" : "rejected", k ? "accepted" : "rejected");
        VP_EQ(c, r.ptr - buf, k, "unsigned: position");
        VP_CHECK(c, r.end == buf + s.size(), "end moved");
        if (ok && !null_out) VP_EQ(c, uout, uref, "unsigned value");
        if (!pass) {
            VP_LOG(c, "  unsigned: %d", (int)k);
            c.label(k ? "unsigned-accepted" : "unsigned-rejected");
            if (k > 1 || (!k && s.size() > 1)) c.nontrivial();
        }
        GUtilData d;
        d.bytes = buf;
        d.size = s.size();
        uout = 0x1122334455667788ull;
        ok = gutil_unsigned_mbn_decode2(&d, null_out ? NULL : &uout);
        VP_CHECK(c, (ok != 0) == (k && k == s.size()), "unsigned2 %s", hex(s).c_str());
        if (ok && !null_out) VP_EQ(c, uout, uref, "unsigned value (2)");
        VP_CHECK(c, d.bytes == buf && d.size == s.size(), "data modified");

        /* Signed */
        int64_t sref = 0;
        gint64 sout = 0x1122334455667788ll;
        r.ptr = buf;
        r.end = buf + s.size();
        k = ref_smbn_decode(buf, s.size(), &sref);
        ok = gutil_signed_mbn_decode(&r, null_out ? NULL : &sout);
        VP_CHECK(c, (ok != 0) == (k != 0), "signed %s: %s, expected %s", hex(s).c_str(),
            ok ? "accepted" : "rejected", k ? "accepted" : "rejected");
        VP_EQ(c, r.ptr - buf, k, "signed: position");
        if (ok && !null_out) VP_EQ(c, sout, sref, "signed value");
        if (!pass) {
            VP_LOG(c, "  signed: %d", (int)k);
            c.label(k ? "signed-accepted" : "signed-rejected");
        }
        sout = 0x1122334455667788ll;
        ok = gutil_signed_mbn_decode2(&d, null_out ? NULL : &sout);
        VP_CHECK(c, (ok != 0) == (k && k == s.size()), "signed2 %s", hex(s).c_str());
        if (ok && !null_out) VP_EQ(c, sout, sref, "signed value (2)");
    }
    VP_CHECK(c, !memcmp(buf, s.data(), s.size()), "input modified");
    free(buf);
}

static void bytes(Ctx& c)
{
    do check_bytes(c, gen(c)); while (c.more() && ++c.steps < 24);
}

static void null_data(Ctx& c)
{
    GUtilData d = { NULL, 0 };
    gint64 s = 1;
    guint64 u = 1;
    VP_CHECK(c, !gutil_signed_mbn_decode2(NULL, &s) && !gutil_unsigned_mbn_decode2(NULL, &u), "NULL");
    VP_CHECK(c, !gutil_signed_mbn_decode2(&d, &s) && !gutil_unsigned_mbn_decode2(&d, &u), "empty");
}

static void fixed_sign(Ctx& c)
{
    /* The leading group contradicts the sign bit */
    check_bytes(c, std::string("\x81\x80\x80\x80\x80\x80\x80\x80\x80\x00", 10));
    check_bytes(c, std::string("\xfe\x80\x80\x80\x80\x80\x80\x80\x80\x00", 10));
    check_bytes(c, std::string("\xfe\xff\xff\xff\xff\xff\xff\xff\xff\x7f", 10));
}

Property vp::property()
{
    Property p = {};
    p.id = "C02";
    p.rule = "byte strings of 0-18 bytes (rarely up to 70000): arbitrary, continuation runs of every length around the 10-byte "
        "limit, all first bytes of 10-byte numbers, truncated/damaged valid encodings, with and without a tail; "
        "compared with a reference decoder in 128-bit arithmetic; non-trivial = more than one byte is examined";
    p.targets = { { "bytes", bytes, 1, 400 } };
    p.fixed = { { "signed-10-byte-sign-mismatch", fixed_sign }, { "null-data", null_data } };
    p.leak_check = true;
    return p;
}
