/* Reference implementation of MBN and TLV formats, written from the
 * description in the public header */
#ifndef MBN_REF_H
#define MBN_REF_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>

/* Unsigned: big endian groups of 7 bits */
static inline std::string ref_umbn(uint64_t v)
{
    std::string s;
    s.push_back((char)(v % 128));
    v /= 128;
    while (v) {
        s.insert(s.begin(), (char)(0x80 + v % 128));
        v /= 128;
    }
    return s;
}

/* Signed: the shortest sequence which preserves the sign bit */
static inline std::string ref_smbn(int64_t x)
{
    /* Find minimal number of 7-bit groups k such that
     * -(2^(7k-1)) <= x < 2^(7k-1) */
    const __int128 v = x;
    unsigned k = 1;
    while (!(v >= -((__int128)1 << (7 * k - 1)) && v < ((__int128)1 << (7 * k - 1)))) k++;
    std::string s(k, 0);
    __int128 t = v;
    for (unsigned i = 0; i < k; i++) {
        int g = (int)(((t % 128) + 128) % 128);
        s[k - 1 - i] = (char)(g | (i ? 0x80 : 0));
        t = (t - g) / 128;
    }
    return s;
}

/* Length of the well formed unsigned number at the beginning of the
 * buffer, zero if there isn't any */
static inline size_t ref_umbn_decode(const uint8_t* p, size_t n, uint64_t* out)
{
    unsigned __int128 v = 0;
    for (size_t i = 0; i < n && i < 10; i++) {
        v = v * 128 + (p[i] & 0x7f);
        if (!(p[i] & 0x80)) {
            if (v >> 64) return 0;
            *out = (uint64_t)v;
            return i + 1;
        }
    }
    return 0;
}

static inline size_t ref_smbn_decode(const uint8_t* p, size_t n, int64_t* out)
{
    __int128 v = 0;
    for (size_t i = 0; i < n && i < 10; i++) {
        const int g = p[i] & 0x7f;
        if (!i) v = (g & 0x40) ? g - 128 : g;
        else v = v * 128 + g;
        if (!(p[i] & 0x80)) {
            if (v < (__int128)INT64_MIN || v > (__int128)INT64_MAX) return 0;
            *out = (int64_t)v;
            return i + 1;
        }
    }
    return 0;
}

struct RefTlv { uint32_t tag; size_t off; size_t len; };

/* Length of TLV at the beginning of the buffer or zero */
static inline size_t ref_tlv_decode(const uint8_t* p, size_t n, RefTlv* t)
{
    uint64_t tag, len;
    const size_t a = ref_umbn_decode(p, n, &tag);
    if (!a || !tag || tag > 0x7fffffffu) return 0;
    const size_t b = ref_umbn_decode(p + a, n - a, &len);
    if (!b || len > n - a - b) return 0;
    t->tag = (uint32_t)tag;
    t->off = a + b;
    t->len = (size_t)len;
    return a + b + (size_t)len;
}
#endif
