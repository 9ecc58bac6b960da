// VP-GIANT: 3
// VP-ASSUMES: C locale (bytes above 0x7e are not printable)
/* C17: hex encoding, decoding and dump */
#include "vp.h"
#include "giant.h"
#include <gutil_misc.h>
#include <stdlib.h>
using namespace vp;

namespace {

/* Exactly sized heap copies let AddressSanitizer see out of bounds access */
char* exact(const std::string& s) {
    char* p = (char*)malloc(s.size() ? s.size() : 1);
    memcpy(p, s.data(), s.size());
    return p;
}

int xval(unsigned char ch) {
    if (ch >= '0' && ch <= '9') return ch - '0';
    if (ch >= 'a' && ch <= 'f') return ch - 'a' + 10;
    if (ch >= 'A' && ch <= 'F') return ch - 'A' + 10;
    return -1;
}

/* Reference decoder; the result is meaningful only if true */
bool decode(const std::string& s, std::string& out) {
    out.clear();
    if (s.empty() || (s.size() & 1)) return false;
    for (size_t i = 0; i < s.size(); i += 2) {
        const int h = xval(s[i]), l = xval(s[i + 1]);
        if (h < 0 || l < 0) return false;
        out += (char)(h * 16 + l);
    }
    return true;
}

std::string encode(const std::string& s, bool upper) {
    std::string out;
    char tmp[4];
    for (unsigned char ch : s) {
        snprintf(tmp, sizeof(tmp), upper ? "%02X" : "%02x", ch);
        out += tmp;
    }
    return out;
}

std::string gen_data(Ctx& c, unsigned max) {
    unsigned n = c.len(max);
    if (c.chance(80)) {
        /* A run of consecutive values covers them all quickly */
        unsigned char b = c.u8();
        const unsigned char step = c.pick<unsigned char>({1, 0, 16, 17, 255});
        std::string s;
        for (unsigned i = 0; i < n; i++, b += step) s += (char)b;
        return s;
    }
    return c.bytes(n);
}

void roundtrip_data(Ctx& c, const std::string& d)
{
    const bool upper = c.coin();
    char* p = exact(d);
    char* hex;
    if (c.coin()) {
        GUtilData data;
        data.bytes = (const guint8*)p;
        data.size = d.size();
        hex = gutil_data2hex(&data, upper);
        VP_CHECK(c, data.bytes == (const guint8*)p && data.size == d.size(), "input descriptor changed");
    } else {
        hex = gutil_bin2hex(p, d.size(), upper);
    }
    const std::string want = encode(d, upper);
    VP_LOG(c, "%d bytes, %s case", (int)d.size(), upper ? "upper" : "lower");
    VP_CHECK(c, hex && !memcmp(hex, want.c_str(), want.size() + 1), "wrong encoding of %d bytes", (int)d.size());
    VP_CHECK(c, !memcmp(p, d.data(), d.size()), "input data changed");
    free(p);

    /* Back to binary: the buffer, zero terminated or with an explicit length */
    char* h = exact(want);
    void* buf = malloc(d.size() ? d.size() : 1);
    void* r = gutil_hex2bin(h, want.size(), buf);
    if (d.size()) {
        VP_CHECK(c, r == buf && !memcmp(buf, d.data(), d.size()), "hex2bin doesn't restore the data");
    } else {
        VP_CHECK(c, !r, "empty string decoded");
    }
    for (int i = 0; i < 2; i++) {
        GBytes* b = i ? gutil_hex2bytes(hex, c.pick<gssize>({-1, -2, G_MINSSIZE})) : gutil_hex2bytes(h, want.size());
        if (d.size()) {
            gsize n = 0;
            VP_CHECK(c, b != NULL, "hex2bytes failed");
            const void* x = g_bytes_get_data(b, &n);
            VP_CHECK(c, n == d.size() && !memcmp(x, d.data(), n), "hex2bytes doesn't restore the data");
            g_bytes_unref(b);
        } else {
            VP_CHECK(c, !b, "empty string decoded as bytes");
        }
    }
    free(buf);
    free(h);
    g_free(hex);
    if (d.size() > 1) c.nontrivial();
    if (d.size() > 256) c.label("long");
}

void roundtrip(Ctx& c) { roundtrip_data(c, gen_data(c, c.chance(10) ? 4000 : 300)); }

void decoding(Ctx& c)
{
    static const char near[] = "/:@Gg`\"FfAa09 xX\x80\xff";
    std::string s;
    const unsigned n = c.len(64);
    bool mixed = false;
    for (unsigned i = 0; i < n; i++) {
        s += c.chance(128) ? "0123456789abcdef"[c.range(0, 15)] : "0123456789ABCDEF"[c.range(0, 15)];
    }
    for (int bad = c.pick({0, 0, 0, 1, 1, 2}); bad > 0 && s.size(); bad--) {
        const int k = c.range(0, (int)s.size() - 1);
        s[k] = c.coin() ? near[c.range(0, (int)sizeof(near) - 2)] : (char)c.u8();
        mixed = true;
    }
    const std::string tail = c.str(c.len(4), c.coin() ? "0123456789abcdef" : NULL);
    /* The explicit length may cut the string anywhere */
    std::string want;
    const bool ok = decode(s, want);
    std::string t = s + tail;
    char* p = exact(t);
    const size_t cap = s.size() / 2 + 1;
    char* buf = (char*)malloc(cap);
    memset(buf, 0x5a, cap);
    VP_LOG(c, "\"%s\" (%d) + %d", s.c_str(), (int)s.size(), (int)tail.size());
    void* r = gutil_hex2bin(p, s.size(), buf);
    VP_CHECK(c, r == (ok ? buf : NULL), "hex2bin %s a%svalid string", r ? "accepted" : "rejected", ok ? " " : "n in");
    if (ok) VP_CHECK(c, !memcmp(buf, want.data(), want.size()), "wrong bytes");
    VP_EQ(c, buf[cap - 1], 0x5a, "byte after the output");
    VP_CHECK(c, !gutil_hex2bin(p, c.pick<gssize>({-1, -2, G_MINSSIZE}), buf), "negative length");
    VP_CHECK(c, !gutil_hex2bin(NULL, s.size(), buf) && !gutil_hex2bin(p, s.size(), NULL), "NULL");
    GBytes* b = gutil_hex2bytes(p, s.size());
    VP_EQ(c, b != NULL, ok, "hex2bytes success");
    if (b) {
        gsize k = 0;
        const void* x = g_bytes_get_data(b, &k);
        VP_CHECK(c, k == want.size() && !memcmp(x, want.data(), k), "wrong bytes from hex2bytes");
        g_bytes_unref(b);
    }
    /* Up to the end of the string */
    const size_t z = s.find('\0');
    const std::string zs = z == std::string::npos ? s : s.substr(0, z);
    char* q = (char*)malloc(s.size() + 1);
    memcpy(q, s.c_str(), s.size() + 1);
    const bool zok = decode(zs, want);
    b = gutil_hex2bytes(q, -1);
    VP_EQ(c, b != NULL, zok, "hex2bytes success (whole string)");
    if (b) {
        gsize k = 0;
        const void* x = g_bytes_get_data(b, &k);
        VP_CHECK(c, k == want.size() && !memcmp(x, want.data(), k), "wrong bytes from hex2bytes (whole string)");
        g_bytes_unref(b);
    }
    VP_CHECK(c, !gutil_hex2bytes(NULL, s.size()) && !gutil_hex2bytes(NULL, -1) && !gutil_data2hex(NULL, c.coin()), "NULL input");
    if (ok) c.label("valid");
    if (mixed && s.size() > 2 && !(s.size() & 1)) c.label("one bad");
    if (s.size() > 1 && !(s.size() & 1)) c.nontrivial();
    free(q);
    free(buf);
    free(p);
}

void dump_data(Ctx& c, const std::string& d)
{
    char* p = exact(d);
    char* out = (char*)malloc(GUTIL_HEXDUMP_BUFSIZE);
    memset(out, 0x5a, GUTIL_HEXDUMP_BUFSIZE);
    const guint n = gutil_hexdump(out, p, d.size());
    const guint shown = d.size() < GUTIL_HEXDUMP_MAXBYTES ? d.size() : GUTIL_HEXDUMP_MAXBYTES;
    VP_LOG(c, "%d bytes: %s", (int)d.size(), encode(d, false).c_str());
    VP_EQ(c, n, shown, "number of dumped bytes");
    std::string want(16 * 2 + 15 + 1 + 4, ' ');
    for (guint i = 0; i < shown; i++) {
        const std::string x = encode(d.substr(i, 1), false);
        const int col = 3 * i + (i >= 8);
        want[col] = x[0];
        want[col + 1] = x[1];
    }
    for (guint i = 0; i < shown; i++) {
        if (i == 8) want += ' ';
        want += (d[i] >= 0x20 && d[i] < 0x7f) ? d[i] : '.';
    }
    VP_CHECK(c, memchr(out, 0, GUTIL_HEXDUMP_BUFSIZE) != NULL, "dump isn't terminated");
    VP_CHECK(c, want == out, "wrong dump \"%s\", expected \"%s\"", out, want.c_str());
    if (shown > 8) c.label("two columns");
    if (shown) c.nontrivial();
    free(out);
    free(p);
}

void dump(Ctx& c) { dump_data(c, gen_data(c, c.chance(30) ? 600 : c.coin() ? 40 : 17)); }

/* A long string with one wrong character, anywhere */
void decode_long(Ctx& c)
{
    const std::string d = c.bytes(c.huge());
    std::string s = encode(d, c.coin());
    if (c.coin()) s[c.chance(100) ? s.size() - 1 - c.range(0, 3) : c.urange(0, s.size() - 1)] = c.pick({ 'g', '/', ':', '@', 'G', '`', '\x01', '\x80' });
    if (c.chance(20)) s.resize(s.size() - 1);
    std::string want;
    const bool ok = decode(s, want);
    char* p = exact(s);
    char* buf = (char*)malloc(s.size() / 2);
    VP_LOG(c, "%d characters", (int)s.size());
    void* r = gutil_hex2bin(p, s.size(), buf);
    VP_CHECK(c, r == (ok ? buf : NULL), "hex2bin %s a%svalid string", r ? "accepted" : "rejected", ok ? " " : "n in");
    if (ok) VP_CHECK(c, !memcmp(buf, want.data(), want.size()), "wrong bytes");
    GBytes* b = c.coin() ? gutil_hex2bytes(p, s.size()) : gutil_hex2bytes(s.c_str(), -1);
    VP_EQ(c, b != NULL, ok, "hex2bytes success");
    if (b) {
        gsize k = 0;
        const void* x = g_bytes_get_data(b, &k);
        VP_CHECK(c, k == want.size() && !memcmp(x, want.data(), k), "wrong bytes from hex2bytes");
        g_bytes_unref(b);
    } else c.label("long invalid");
    free(buf);
    free(p);
    c.nontrivial();
}

void large(Ctx& c)
{
    switch (c.range(0, 2)) {
    case 0: roundtrip_data(c, c.bytes(c.huge())); break;
    case 1: dump_data(c, c.bytes(c.huge())); break;
    default: decode_long(c);
    }
}

/* Gigabytes. The decoded data are half of the string */
void giants(Ctx& c)
{
    const size_t n = c.pick({ 2048u, 1024u }) * (size_t)(1 << 20) + c.range(0, 20);
    giant::Block b(c, n);
    if (!b.ok()) return;
    for (int i = 0; i < 5; i++) b.p[giant::pos(c, n)] = c.u8() | 1;
    const bool upper = c.coin();
    VP_LOG(c, "%zu bytes", n);
    char* s = gutil_bin2hex(b.p, n, upper);
    VP_CHECK(c, s, "no string");
    const char* hex = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    bool same = true;
    for (size_t i = 0; i < n; i++) same &= s[2 * i] == hex[b.p[i] >> 4] && s[2 * i + 1] == hex[b.p[i] & 15];
    VP_CHECK(c, same, "wrong string");
    VP_EQ(c, s[2 * n], 0, "terminator");
    giant::Block out(c, n);
    if (out.ok()) {
        VP_CHECK(c, gutil_hex2bin(s, 2 * n, out.p) == out.p, "string is rejected");
        VP_CHECK(c, !memcmp(out.p, b.p, n), "wrong bytes");
        /* Rejects it too */
        VP_CHECK(c, !gutil_hex2bin(s, 2 * n - 1, out.p), "odd length is accepted");
        s[giant::pos(c, 2 * n)] = 'x';
        VP_CHECK(c, !gutil_hex2bin(s, 2 * n, out.p), "invalid string is accepted");
    }
    g_free(s);
    c.nontrivial();
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C17";
    p.rule = "encode/decode round trips of data up to 4000 bytes; decoding of nearly valid strings (wrong character, odd or "
        "negative length, embedded zero, NULL) into buffer and bytes; dump lines compared with a reference layout; large: the same with up to 131000 bytes; a few of 1 or 2 gigabytes; "
        "non-trivial = 2+ bytes, non-empty string of even length, something to dump";
    p.targets = { { "roundtrip", roundtrip, 200, 400 }, { "decoding", decoding, 300, 200 }, { "dump", dump, 200, 60 },
        { "large", large, 1, 40 } };
    p.giant = { { "giants", giants, 1, 40 } };
    p.leak_check = true;
    return p;
}
