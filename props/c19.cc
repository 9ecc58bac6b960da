// VP-GIANT: 32
// VP-ASSUMES: blocks of data with non-zero size have non-NULL pointer, and vice versa a NULL pointer means zero size
/* C19: data block, byte range and GBytes helpers */
#include "vp.h"
#include "giant.h"
#include <glib-object.h>
#include <gutil_misc.h>
#include <stdlib.h>
using namespace vp;

namespace {

/* Small alphabet and related strings, to have a lot of common prefixes and suffixes */
bool big;
std::string gen(Ctx& c) {
    if (big) return c.str(c.huge(), c.coin() ? "ab" : NULL);
    return c.coin() ? c.str(c.len(24), "ab") : c.bytes(c.len(40));
}

std::string related(Ctx& c, const std::string& s) {
    std::string r(s);
    switch (c.range(0, 8)) {
    case 0: break;
    case 1: r = r.substr(0, c.range(0, (int)r.size())); break;
    case 2: r = r.substr(c.range(0, (int)r.size())); break;
    case 3: if (r.size()) r[c.range(0, (int)r.size() - 1)] ^= 1 << c.range(0, 7); break;
    case 4: r = r.substr(0, c.range(0, (int)r.size())); if (r.size()) r[r.size() - 1] ^= 1; break;
    case 5: r = r.substr(c.range(0, (int)r.size())); if (r.size()) r[0] ^= 1; break;
    case 6: r += gen(c); break;
    case 7: r = gen(c) + r; break;
    default: r = gen(c);
    }
    return r;
}

/* Exactly sized block at an odd address or not */
struct Block {
    std::string s;
    char* mem;
    char* p;
    GUtilData d;
    Block(const std::string& x, unsigned shift) : s(x) {
        mem = (char*)malloc(x.size() + shift ? x.size() + shift : 1);
        p = mem + shift;
        memcpy(p, x.data(), x.size());
        d.bytes = (const guint8*)p;
        d.size = x.size();
    }
    ~Block() { free(mem); }
    bool same() const { return d.bytes == (const guint8*)p && d.size == s.size() && !memcmp(p, s.data(), s.size()); }
};

bool starts(const std::string& s, const std::string& t) { return t.size() <= s.size() && !s.compare(0, t.size(), t); }
bool ends(const std::string& s, const std::string& t) { return t.size() <= s.size() && !s.compare(s.size() - t.size(), t.size(), t); }

int freed;
struct Owned { char* p; };
void free_block(gpointer p) { freed++; free(p); }

GBytes* mkbytes(Ctx& c, const std::string& s) {
    const int shift = c.range(0, 3);
    char* mem = (char*)malloc(s.size() + shift ? s.size() + shift : 1);
    memcpy(mem + shift, s.data(), s.size());
    return g_bytes_new_with_free_func(mem + shift, s.size(), free_block, mem);
}

bool holds(GBytes* b, const std::string& s) {
    gsize n = 0;
    const void* p = g_bytes_get_data(b, &n);
    return n == s.size() && !memcmp(n ? p : "", s.data(), n);
}

void compare_any(Ctx& c)
{
    const std::string s = gen(c), t = related(c, s);
    Block a(s, c.range(0, 2)), b(t, c.range(0, 2));
    const bool eq = s == t, pre = starts(s, t), suf = ends(s, t);
    /* An empty block may have no pointer at all */
    const bool nodata = t.empty() && c.coin();
    if (nodata) b.d.bytes = NULL;
    VP_LOG(c, "%d and %d bytes:%s%s%s", (int)s.size(), (int)t.size(), eq ? " equal" : "", pre ? " prefix" : "", suf ? " suffix" : "");
    /* Data blocks */
    VP_EQ(c, !!gutil_data_equal(&a.d, &b.d), eq, "data_equal");
    VP_EQ(c, !!gutil_data_equal(&b.d, &a.d), eq, "data_equal (swapped)");
    VP_CHECK(c, gutil_data_equal(&a.d, &a.d) && gutil_data_equal(NULL, NULL), "data_equal to itself");
    VP_CHECK(c, !gutil_data_equal(&a.d, NULL) && !gutil_data_equal(NULL, &a.d), "data_equal to NULL");
    VP_EQ(c, !!gutil_data_has_prefix(&a.d, &b.d), pre, "data_has_prefix");
    VP_EQ(c, !!gutil_data_has_suffix(&a.d, &b.d), suf, "data_has_suffix");
    VP_CHECK(c, gutil_data_has_prefix(NULL, NULL) && !gutil_data_has_prefix(&a.d, NULL) && !gutil_data_has_prefix(NULL, &b.d), "data_has_prefix NULL");
    VP_CHECK(c, gutil_data_has_suffix(NULL, NULL) && !gutil_data_has_suffix(&a.d, NULL) && !gutil_data_has_suffix(NULL, &b.d), "data_has_suffix NULL");
    /* GBytes */
    freed = 0;
    GBytes* x = mkbytes(c, s);
    const void* const bp = nodata ? NULL : b.p;
    if (!nodata) VP_EQ(c, !!gutil_bytes_equal(x, bp, t.size()), eq, "bytes_equal");
    VP_EQ(c, !!gutil_bytes_equal_data(x, &b.d), eq, "bytes_equal_data");
    VP_EQ(c, !!gutil_bytes_has_prefix(x, bp, t.size()), pre, "bytes_has_prefix");
    VP_EQ(c, !!gutil_bytes_has_suffix(x, bp, t.size()), suf, "bytes_has_suffix");
    VP_CHECK(c, gutil_bytes_equal(NULL, NULL, 0) && !gutil_bytes_equal(x, NULL, 0) && !gutil_bytes_equal(NULL, a.p, s.size()), "bytes_equal NULL");
    VP_CHECK(c, gutil_bytes_equal_data(NULL, NULL) && !gutil_bytes_equal_data(x, NULL) && !gutil_bytes_equal_data(NULL, &a.d), "bytes_equal_data NULL");
    VP_CHECK(c, !gutil_bytes_has_prefix(NULL, b.p, t.size()) && !gutil_bytes_has_suffix(NULL, b.p, t.size()), "prefix or suffix of NULL");
    VP_CHECK(c, gutil_bytes_has_prefix(x, NULL, 0) && gutil_bytes_has_suffix(x, NULL, 0), "empty prefix or suffix");
    /* Range over the GBytes */
    GUtilRange r;
    VP_EQ(c, gutil_range_init_with_bytes(&r, x), s.size(), "range size");
    VP_CHECK(c, (gsize)(r.end - r.ptr) == s.size() && r.ptr == g_bytes_get_data(x, NULL), "range with bytes");
    VP_EQ(c, gutil_range_init_with_bytes(NULL, x), 0, "NULL range size");
    GUtilRange z = r;
    VP_EQ(c, gutil_range_init_with_bytes(&z, NULL), 0, "range size for NULL");
    VP_CHECK(c, !z.ptr && !z.end, "range for NULL");
    VP_CHECK(c, !gutil_range_has_prefix(&z, &b.d) && !gutil_range_skip_prefix(&z, &b.d) && !z.ptr && !z.end, "prefix of an unset range");
    g_bytes_unref(x);
    VP_EQ(c, freed, 1, "number of times the bytes were freed");
    /* Range over a part of the block */
    const int from = c.range(0, (int)s.size());
    const int to = c.chance(10) ? c.range(0, from) : c.coin() ? (int)s.size() : c.range(from, (int)s.size());
    r.ptr = (const guint8*)a.p + from;
    r.end = (const guint8*)a.p + to;
    const std::string part = to > from ? s.substr(from, to - from) : std::string();
    const std::string u = c.coin() ? t : related(c, part);
    Block ub(u, 1);
    const bool pp = starts(part, u);
    const GUtilRange before = r;
    VP_EQ(c, !!gutil_range_has_prefix(&r, &ub.d), pp, "range_has_prefix");
    VP_CHECK(c, !memcmp(&r, &before, sizeof(r)), "range_has_prefix moved the range");
    VP_CHECK(c, !gutil_range_has_prefix(NULL, &ub.d) && !gutil_range_has_prefix(&r, NULL), "range_has_prefix NULL");
    VP_CHECK(c, !gutil_range_skip_prefix(NULL, &ub.d) && !gutil_range_skip_prefix(&r, NULL), "range_skip_prefix NULL");
    VP_EQ(c, !!gutil_range_skip_prefix(&r, &ub.d), pp, "range_skip_prefix");
    VP_CHECK(c, r.end == before.end && r.ptr == before.ptr + (pp ? u.size() : 0), "range after skip_prefix");
    if (nodata) b.d.bytes = (const guint8*)b.p;
    VP_CHECK(c, a.same() && b.same() && ub.same(), "arguments modified");
    if (s.size() && t.size()) c.nontrivial();
    if (pre && !eq) c.label("proper prefix");
    if (suf && !eq) c.label("proper suffix");
    if (pp && u.size()) c.label("skipped");
}

void compare(Ctx& c)
{
    big = false;
    compare_any(c);
}
void compare_large(Ctx& c)
{
    big = true;
    compare_any(c);
    c.label("large");
}

/* Tests that the result survives the arguments and doesn't keep more than it should */
void finish(Ctx& c, GBytes** v, int n, GBytes* res, const std::string& want, const char* what)
{
    const int total = n;
    VP_CHECK(c, res != NULL, "%s returned NULL", what);
    for (int i = 0; i < n; i++) g_bytes_unref(v[i]);
    VP_CHECK(c, holds(res, want), "wrong result of %s", what);
    g_bytes_unref(res);
    VP_EQ(c, freed, total, "number of freed arguments");
}

void concat(Ctx& c)
{
    GBytes* v[6];
    std::string all;
    const int n = c.range(0, 6);
    int nonempty = 0, distinct = 0;
    int of[6];
    std::string sv[6];
    freed = 0;
    for (int i = 0; i < n; i++) {
        if (i && c.chance(40)) {
            /* The same object again */
            of[i] = c.range(0, i - 1);
            sv[i] = sv[of[i]];
            v[i] = g_bytes_ref(v[of[i]]);
        } else {
            distinct++;
            sv[i] = c.chance(100) ? std::string() : c.bytes(c.len(40));
            v[i] = mkbytes(c, sv[i]);
        }
        all += sv[i];
        if (sv[i].size()) nonempty++;
    }
    GBytes* r = NULL;
    switch (n) {
    case 0: r = gutil_bytes_concat(NULL, NULL); break;
    case 1: r = gutil_bytes_concat(v[0], NULL); break;
    case 2: r = gutil_bytes_concat(v[0], v[1], NULL); break;
    case 3: r = gutil_bytes_concat(v[0], v[1], v[2], NULL); break;
    case 4: r = gutil_bytes_concat(v[0], v[1], v[2], v[3], NULL); break;
    case 5: r = gutil_bytes_concat(v[0], v[1], v[2], v[3], v[4], NULL); break;
    case 6: r = gutil_bytes_concat(v[0], v[1], v[2], v[3], v[4], v[5], NULL); break;
    }
    VP_LOG(c, "%d arguments, %d not empty, %d bytes", n, nonempty, (int)all.size());
    if (!n) {
        VP_CHECK(c, !r, "something out of nothing");
        return;
    }
    VP_CHECK(c, holds(r, all), "wrong concatenation");
    for (int i = 0; i < n; i++) VP_CHECK(c, holds(v[i], sv[i]), "argument %d modified", i);
    for (int i = 0; i < n; i++) g_bytes_unref(v[i]);
    VP_CHECK(c, holds(r, all), "wrong concatenation after releasing the arguments");
    g_bytes_unref(r);
    VP_EQ(c, freed, distinct, "number of freed arguments");
    if (nonempty > 1) c.nontrivial();
    if (nonempty == 1 && n > 1) c.label("only one not empty");
}

/* Lots of arguments, long ones among them */
void concat_many(Ctx& c)
{
    GBytes* v[300];
    std::string all;
    const int n = c.coin() ? c.range(1, 300) : c.pick({ 255, 256, 257, 128, 300 });
    const int density = c.pick({ 0, 0, 1, 128, 255 }), long_at = c.coin() ? c.range(0, n - 1) : -1;
    const int one = c.range(0, n - 1);
    freed = 0;
    memset(v, 0, sizeof(v));
    for (int i = 0; i < n; i++) {
        const std::string s = i == long_at ? c.bytes(c.huge()) : i == one || (density && c.range(0, 255) < density) ?
            c.bytes(c.range(0, 3)) : std::string();
        v[i] = mkbytes(c, s);
        all += s;
    }
    VP_LOG(c, "%d arguments, %d bytes", n, (int)all.size());
    GBytes* r = gutil_bytes_concat(
        v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14],
        v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28],
        v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37], v[38], v[39], v[40], v[41], v[42],
        v[43], v[44], v[45], v[46], v[47], v[48], v[49], v[50], v[51], v[52], v[53], v[54], v[55], v[56],
        v[57], v[58], v[59], v[60], v[61], v[62], v[63], v[64], v[65], v[66], v[67], v[68], v[69], v[70],
        v[71], v[72], v[73], v[74], v[75], v[76], v[77], v[78], v[79], v[80], v[81], v[82], v[83], v[84],
        v[85], v[86], v[87], v[88], v[89], v[90], v[91], v[92], v[93], v[94], v[95], v[96], v[97], v[98],
        v[99], v[100], v[101], v[102], v[103], v[104], v[105], v[106], v[107], v[108], v[109], v[110],
        v[111], v[112], v[113], v[114], v[115], v[116], v[117], v[118], v[119], v[120], v[121], v[122],
        v[123], v[124], v[125], v[126], v[127], v[128], v[129], v[130], v[131], v[132], v[133], v[134],
        v[135], v[136], v[137], v[138], v[139], v[140], v[141], v[142], v[143], v[144], v[145], v[146],
        v[147], v[148], v[149], v[150], v[151], v[152], v[153], v[154], v[155], v[156], v[157], v[158],
        v[159], v[160], v[161], v[162], v[163], v[164], v[165], v[166], v[167], v[168], v[169], v[170],
        v[171], v[172], v[173], v[174], v[175], v[176], v[177], v[178], v[179], v[180], v[181], v[182],
        v[183], v[184], v[185], v[186], v[187], v[188], v[189], v[190], v[191], v[192], v[193], v[194],
        v[195], v[196], v[197], v[198], v[199], v[200], v[201], v[202], v[203], v[204], v[205], v[206],
        v[207], v[208], v[209], v[210], v[211], v[212], v[213], v[214], v[215], v[216], v[217], v[218],
        v[219], v[220], v[221], v[222], v[223], v[224], v[225], v[226], v[227], v[228], v[229], v[230],
        v[231], v[232], v[233], v[234], v[235], v[236], v[237], v[238], v[239], v[240], v[241], v[242],
        v[243], v[244], v[245], v[246], v[247], v[248], v[249], v[250], v[251], v[252], v[253], v[254],
        v[255], v[256], v[257], v[258], v[259], v[260], v[261], v[262], v[263], v[264], v[265], v[266],
        v[267], v[268], v[269], v[270], v[271], v[272], v[273], v[274], v[275], v[276], v[277], v[278],
        v[279], v[280], v[281], v[282], v[283], v[284], v[285], v[286], v[287], v[288], v[289], v[290],
        v[291], v[292], v[293], v[294], v[295], v[296], v[297], v[298], v[299], NULL);
    VP_CHECK(c, r && holds(r, all), "wrong concatenation");
    for (int i = 0; i < n; i++) g_bytes_unref(v[i]);
    VP_CHECK(c, holds(r, all), "wrong concatenation after releasing the arguments");
    g_bytes_unref(r);
    VP_EQ(c, freed, n, "number of freed arguments");
    if (n > 2 && all.size()) c.nontrivial();
}

void xoring(Ctx& c)
{
    const bool longer = c.chance(1) && c.chance(50);
    const std::string s = c.bytes(longer ? c.huge() : c.len(70)), t = longer && c.coin() ? c.bytes(c.huge()) :
        c.coin() ? c.bytes(c.len(70)) : c.bytes(s.size());
    freed = 0;
    const bool same = c.chance(10);
    GBytes* v[2];
    v[0] = mkbytes(c, s);
    v[1] = same ? v[0] : mkbytes(c, t);
    const std::string& t2 = same ? s : t;
    std::string want;
    for (size_t i = 0; i < s.size() && i < t2.size(); i++) want += (char)(s[i] ^ t2[i]);
    VP_LOG(c, "%d and %d bytes", (int)s.size(), (int)t2.size());
    VP_CHECK(c, !gutil_bytes_xor(NULL, v[1]) && !gutil_bytes_xor(v[0], NULL) && !gutil_bytes_xor(NULL, NULL), "xor with NULL");
    GBytes* r = gutil_bytes_xor(v[0], v[1]);
    VP_CHECK(c, r && holds(r, want), "wrong result of xor");
    VP_CHECK(c, holds(v[0], s) && holds(v[1], t2), "xor modified its arguments");
    finish(c, v, same ? 1 : 2, r, want, "xor");
    if (want.size() > 1) c.nontrivial();
    if (s.size() != t2.size()) c.label("different sizes");
}

void copies_any(Ctx& c)
{
    const std::string s = gen(c);
    Block* a = new Block(s, c.range(0, 3));
    GUtilData* d1 = gutil_data_new(a->p, s.size());
    GUtilData* d2 = gutil_data_copy(&a->d);
    GVariant* var = gutil_data_copy_as_variant(&a->d);
    GUtilData str, by;
    const std::string zs = c.str(c.len(20), NULL);
    Block z(zs + std::string(1, '\0'), 0);
    VP_LOG(c, "%d bytes, string of %d", (int)s.size(), (int)zs.size());
    VP_CHECK(c, a->same(), "the source is modified");
    VP_CHECK(c, g_variant_is_floating(var), "variant isn't floating");
    VP_CHECK(c, g_variant_is_of_type(var, G_VARIANT_TYPE_BYTESTRING), "wrong type of variant");
    g_variant_ref_sink(var);
    memset(a->p, 0x5a, s.size());
    delete a;
    for (GUtilData* d : { d1, d2 }) {
        VP_CHECK(c, d && d->size == s.size() && d->bytes && !memcmp(d->bytes, s.data(), s.size()), "wrong copy");
    }
    gsize n = 77;
    const void* p = g_variant_get_fixed_array(var, &n, 1);
    VP_CHECK(c, n == s.size() && !memcmp(n ? p : "", s.data(), n), "wrong variant contents");
    g_variant_unref(var);
    /* A copy is a single writable block */
    if (s.size()) memset((void*)d2->bytes, 1, s.size());
    VP_CHECK(c, !memcmp(d1->bytes, s.data(), s.size()), "copies aren't independent");
    g_free(d1);
    g_free(d2);
    GUtilData* none = gutil_data_new(NULL, c.range(0, 100));
    VP_CHECK(c, none && !none->bytes && !none->size, "block from NULL");
    GUtilData* none2 = gutil_data_copy(none);
    VP_CHECK(c, none2 && !none2->bytes && !none2->size, "copy of an empty block");
    var = gutil_data_copy_as_variant(none);
    VP_CHECK(c, var && g_variant_n_children(var) == 0 && g_variant_is_of_type(var, G_VARIANT_TYPE_BYTESTRING), "variant from an empty block");
    g_variant_unref(g_variant_ref_sink(var));
    g_free(none);
    g_free(none2);
    VP_CHECK(c, !gutil_data_copy(NULL) && !gutil_data_copy_as_variant(NULL), "copy of NULL");
    /* Descriptors of existing data */
    VP_CHECK(c, gutil_data_from_string(&str, z.p) == &str && str.bytes == (guint8*)z.p && str.size == zs.size(), "from string");
    VP_CHECK(c, gutil_data_from_string(&str, NULL) == &str && !str.bytes && !str.size, "from NULL string");
    VP_CHECK(c, !gutil_data_from_string(NULL, z.p) && !gutil_data_from_bytes(NULL, NULL), "NULL block");
    freed = 0;
    GBytes* b = mkbytes(c, s);
    VP_CHECK(c, gutil_data_from_bytes(&by, b) == &by && by.size == s.size() && by.bytes == g_bytes_get_data(b, NULL), "from bytes");
    VP_CHECK(c, gutil_data_from_bytes(&by, NULL) == &by && !by.bytes && !by.size, "from NULL bytes");
    VP_EQ(c, freed, 0, "number of freed bytes");
    g_bytes_unref(b);
    VP_EQ(c, freed, 1, "number of freed bytes");
    VP_CHECK(c, z.same(), "string modified");
    if (s.size() > 1) c.nontrivial();
}

/* Gigabytes */
void giants(Ctx& c)
{
    const size_t n = giant::size(c);
    giant::Block a(c, n);
    if (!a.ok()) return;
    GUtilData d;
    d.bytes = a.p;
    d.size = n;
    const int k = c.range(0, 9);
    for (int i = 0; i < 5; i++) a.p[giant::pos(c, n)] = c.u8() | 1;
    VP_LOG(c, "%zu bytes, %d", n, k);
    if (k >= 6) {
        /* Compare with something almost identical */
        giant::Block b(c, n);
        if (!b.ok()) return;
        for (size_t i = 0; i < n; i += 1 << 16) {
            const size_t m = std::min<size_t>(n - i, 1 << 16);
            /* Don't touch it if it's zero */
            if (memcmp(a.p + i, b.p + i, m)) memcpy(b.p + i, a.p + i, m);
        }
        const size_t at = giant::pos(c, n), cut = c.coin() ? giant::pos(c, n) : 0;
        const bool differ = c.coin();
        if (differ) b.p[at] ^= 0x80;
        VP_LOG(c, "%s at %zu, cut %zu", differ ? "different" : "the same", at, cut);
        GUtilData e, h, t;
        e.bytes = b.p;
        e.size = n;
        h.bytes = b.p;          /* Head and tail of the other one */
        h.size = t.size = n - cut;
        t.bytes = b.p + cut;
        const bool pre = !differ || at >= n - cut, suf = !differ || at < cut;
        GBytes* x = g_bytes_new_static(a.p, n);
        GUtilRange r;
        VP_EQ(c, gutil_range_init_with_bytes(&r, x), n, "range size");
        VP_CHECK(c, r.ptr == a.p && r.end == a.p + n, "range with bytes");
        switch (k) {
        case 6:
            VP_EQ(c, !!gutil_data_equal(&d, &e), !differ, "data_equal");
            VP_EQ(c, !!gutil_data_equal(&d, &h), !differ && !cut, "data_equal (with a part)");
            VP_EQ(c, !!gutil_bytes_equal_data(x, &e), !differ, "bytes_equal_data");
            break;
        case 7:
            VP_EQ(c, !!gutil_bytes_equal(x, b.p, n), !differ, "bytes_equal");
            VP_EQ(c, !!gutil_bytes_has_prefix(x, h.bytes, h.size), pre, "bytes_has_prefix");
            VP_EQ(c, !!gutil_bytes_has_suffix(x, t.bytes, t.size), suf, "bytes_has_suffix");
            break;
        case 8:
            VP_EQ(c, !!gutil_data_has_prefix(&d, &h), pre, "data_has_prefix");
            VP_EQ(c, !!gutil_data_has_suffix(&d, &t), suf, "data_has_suffix");
            break;
        default:
            VP_EQ(c, !!gutil_range_has_prefix(&r, &h), pre, "range_has_prefix");
            VP_EQ(c, !!gutil_range_skip_prefix(&r, &h), pre, "range_skip_prefix");
            VP_CHECK(c, r.ptr == a.p + (pre ? h.size : 0) && r.end == a.p + n, "range after skip_prefix");
            break;
        }
        g_bytes_unref(x);
    } else if (k == 0) {
        GUtilData* e = gutil_data_copy(&d);
        VP_CHECK(c, e && e->bytes && e->bytes != d.bytes, "no copy");
        VP_EQ(c, e->size, n, "size of the copy");
        VP_CHECK(c, !memcmp(e->bytes, a.p, n), "wrong copy");
        g_free(e);
    } else if (k == 1) {
        const guint m = (guint)MIN(n, 0xffffffffu - (size_t)c.range(0, 20));
        GUtilData* e = gutil_data_new(a.p, m);
        VP_CHECK(c, e && e->bytes && e->bytes != d.bytes, "no copy");
        VP_EQ(c, e->size, m, "size of the copy");
        VP_CHECK(c, !memcmp(e->bytes, a.p, m), "wrong copy");
        g_free(e);
    } else if (k == 2) {
        GVariant* v = g_variant_ref_sink(gutil_data_copy_as_variant(&d));
        gsize m = 0;
        const void* p = g_variant_get_fixed_array(v, &m, 1);
        VP_CHECK(c, p && p != a.p, "no copy");
        VP_EQ(c, m, n, "size of the variant");
        VP_CHECK(c, !memcmp(p, a.p, n), "wrong variant contents");
        g_variant_unref(v);
    } else if (k == 3) {
        /* Parts of the same thing */
        const size_t at = giant::pos(c, n);
        GBytes* x = g_bytes_new_static(a.p, at);
        GBytes* y = g_bytes_new_static(a.p + at, n - at);
        GBytes* z = g_bytes_new_static("x", c.range(0, 1));
        GBytes* r = gutil_bytes_concat(x, y, z, NULL);
        const gsize m = g_bytes_get_size(z);
        VP_EQ(c, g_bytes_get_size(r), n + m, "size of concatenation");
        const char* p = (const char*)g_bytes_get_data(r, NULL);
        VP_CHECK(c, !memcmp(p, a.p, n) && (!m || p[n] == 'x'), "wrong concatenation");
        for (GBytes* b : { x, y, z, r }) g_bytes_unref(b);
    } else if (k == 4) {
        giant::Block b(c, n + c.range(0, 3));
        if (!b.ok()) return;
        for (int i = 0; i < 5; i++) b.p[giant::pos(c, n)] = c.u8() | 1;
        GBytes* x = g_bytes_new_static(a.p, n);
        GBytes* y = g_bytes_new_static(b.p, b.n);
        GBytes* r = c.coin() ? gutil_bytes_xor(x, y) : gutil_bytes_xor(y, x);
        VP_EQ(c, g_bytes_get_size(r), n, "size of xor");
        const guint8* p = (const guint8*)g_bytes_get_data(r, NULL);
        bool same = true;
        for (size_t i = 0; i < n; i++) same &= p[i] == (a.p[i] ^ b.p[i]);
        VP_CHECK(c, same, "wrong result of xor");
        for (GBytes* t : { x, y, r }) g_bytes_unref(t);
    } else {
        /* The descriptor of an existing thing */
        GUtilData e;
        GBytes* x = g_bytes_new_static(a.p, n);
        VP_CHECK(c, gutil_data_from_bytes(&e, x) == &e && e.bytes == a.p && e.size == n, "from bytes");
        memset(a.p, 'x', n);
        a.p[n - 1] = 0;
        VP_CHECK(c, gutil_data_from_string(&e, (char*)a.p) == &e && e.bytes == a.p && e.size == n - 1, "from string");
        g_bytes_unref(x);
    }
    c.nontrivial();
}

void copies(Ctx& c)
{
    big = false;
    copies_any(c);
}
void copies_large(Ctx& c)
{
    big = true;
    copies_any(c);
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C19";
    p.rule = "pairs of related blocks (equal, truncated from either side, differing in one bit, extended, empty, NULL) compared in all "
        "ways; concatenation of up to 6 (possibly repeated or empty) arguments, XOR of two of up to 70 bytes, copies; "
        "the same for blocks of up to 131000 bytes and up to 300 arguments; a few blocks of 2 to 4 gigabytes; "
        "non-trivial = both blocks not empty, two non-empty arguments, 2+ bytes of result or of the source";
    p.targets = { { "compare", compare, 400, 160 }, { "concat", concat, 200, 200 }, { "xor", xoring, 200, 160 }, { "copies", copies, 100, 120 },
        { "compare_large", compare_large, 2, 80 }, { "concat_many", concat_many, 2, 600 }, { "copies_large", copies_large, 1, 60 } };
    p.giant = { { "giants", giants, 1, 80 } };
    p.leak_check = true;
    return p;
}
