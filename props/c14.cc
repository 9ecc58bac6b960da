/* C14: string vector edits */
#include "strv_gen.h"
using namespace vp;
using strv::SV;

namespace {

struct Model {
    Ctx& c;
    GStrV* sv;
    SV m;
    int mode;
    bool removed, many, big;
    Model(Ctx& ctx, bool b) : c(ctx), mode(c.chance(6) ? 6 : c.range(0, 5)), removed(false), many(false), big(b) {
        m = big ? strv::gen_huge(c) : strv::gen_all(c, mode, 40);
        sv = strv::make(c, m);
        VP_LOG(c, "%d strings%s", (int)m.size(), sv ? "" : " (NULL)");
        check("new");
    }
    std::string str() {
        if (big && c.chance(200)) return m[m.size() - 1 - c.urange(0, std::min(m.size() - 1, (size_t)40000))];
        return m.size() && c.coin() ? m[c.range(0, (int)m.size() - 1)] : strv::gen(c, mode);
    }
    void check(const char* what) {
        strv::check(c, sv, m, what);
        VP_EQ(c, gutil_strv_length(sv), m.size(), "length");
        const char* last = gutil_strv_last(sv);
        if (m.empty()) VP_CHECK(c, !last, "last of nothing");
        else VP_CHECK(c, last && m.back() == last, "last");
    }
    void op(int k) {
        switch (k) {
        case 0: case 1: {
            if (!big && m.size() > 200) break;
            const std::string s = str();
            VP_LOG(c, "add '%s'", s.c_str());
            if (m.size() && c.chance(60)) {
                /* String which is already there */
                const int i = c.range(0, (int)m.size() - 1);
                sv = gutil_strv_add(sv, sv[i]);
                m.push_back(m[i]);
            } else {
                sv = gutil_strv_add(sv, s.c_str());
                m.push_back(s);
            }
            check("add");
            break;
        }
        case 2: {
            if (!big && m.size() > 200) break;
            SV a(c.range(1, 6));
            std::vector<const char*> p;
            for (auto& s : a) {
                if (m.size() && c.chance(40)) {
                    const int i = c.range(0, (int)m.size() - 1);
                    s = m[i];
                    p.push_back(sv[i]);
                } else {
                    s = str();
                    p.push_back(NULL);
                }
            }
            for (size_t i = 0; i < a.size(); i++) if (!p[i]) p[i] = a[i].c_str();
            VP_LOG(c, "addv %d", (int)a.size());
            #define A(i) p[i]
            const char* none = NULL;
            switch (a.size()) {
            case 1: sv = gutil_strv_addv(sv, A(0), none); break;
            case 2: sv = gutil_strv_addv(sv, A(0), A(1), none); break;
            case 3: sv = gutil_strv_addv(sv, A(0), A(1), A(2), none); break;
            case 4: sv = gutil_strv_addv(sv, A(0), A(1), A(2), A(3), none); break;
            case 5: sv = gutil_strv_addv(sv, A(0), A(1), A(2), A(3), A(4), none); break;
            default: sv = gutil_strv_addv(sv, A(0), A(1), A(2), A(3), A(4), A(5), none); break;
            }
            m.insert(m.end(), a.begin(), a.end());
            check("addv");
            break;
        }
        case 3: {
            GStrV* was = sv;
            sv = gutil_strv_add(sv, NULL);
            VP_CHECK(c, sv == was, "add NULL");
            sv = gutil_strv_addv(sv, NULL, NULL);
            VP_CHECK(c, sv == was, "addv NULL");
            sv = gutil_strv_remove(sv, NULL, c.coin());
            VP_CHECK(c, sv == was, "remove NULL");
            check("NULL string");
            VP_EQ(c, gutil_strv_find(sv, NULL), -1, "find NULL");
            VP_EQ(c, gutil_strv_find_last(sv, NULL), -1, "find_last NULL");
            VP_CHECK(c, !gutil_strv_contains(sv, NULL), "contains NULL");
            break;
        }
        case 4: case 5: {
            int pos = big && c.coin() ? std::min((int)m.size() - 1, c.pick({ 65536, 32768, 256, 131072 }) + c.range(-2, 2)) : c.chance(200) && m.size() ? c.range(0, (int)m.size() - 1) : c.chance(128) ? c.i32() : (int)m.size() + c.range(-1, 2);
            const bool free = c.coin();
            char* removed_str = NULL;
            if (pos >= 0 && (size_t)pos < m.size()) removed_str = sv[pos];
            VP_LOG(c, "remove at %d %d", pos, free);
            sv = gutil_strv_remove_at(sv, pos, free);
            if (removed_str) {
                removed = true;
                if (!free) {
                    VP_CHECK(c, m[pos] == removed_str, "removed string is damaged");
                    g_free(removed_str);
                }
                m.erase(m.begin() + pos);
            }
            check("remove_at");
            break;
        }
        case 6: case 7: {
            const std::string s = str();
            const bool all = k == 7;
            VP_LOG(c, "remove %s '%s'", all ? "all" : "one", s.c_str());
            const size_t n = std::count(m.begin(), m.end(), s);
            if (n) removed = true;
            if (n > 1) many = true;
            if (n && c.chance(60)) {
                /* One of the strings from the vector */
                size_t i = c.urange(0, m.size() - 1);
                while (m[i] != s) i = (i + 1) % m.size();
                c.label("removing its own string");
                sv = gutil_strv_remove(sv, sv[i], all);
            } else {
                sv = (n & 1) ? gutil_strv_remove(sv, s.c_str(), all) :
                    all ? gutil_strv_remove_all(sv, s.c_str()) : gutil_strv_remove_one(sv, s.c_str());
            }
            if (all) m.erase(std::remove(m.begin(), m.end(), s), m.end());
            else if (n) m.erase(std::find(m.begin(), m.end(), s));
            check("remove");
            break;
        }
        case 8: {
            const std::string s = str();
            const auto it = std::find(m.begin(), m.end(), s);
            const int first = it == m.end() ? -1 : (int)(it - m.begin());
            int last = -1;
            for (size_t i = 0; i < m.size(); i++) if (m[i] == s) last = (int)i;
            VP_EQ(c, gutil_strv_find(sv, s.c_str()), first, "find");
            VP_EQ(c, gutil_strv_find_last(sv, s.c_str()), last, "find_last");
            VP_EQ(c, !!gutil_strv_contains(sv, s.c_str()), first >= 0, "contains");
            break;
        }
        case 9: {
            const guint i = c.coin() ? (guint)c.range(0, (int)m.size() + 1) : (guint)c.x64();
            const char* s = gutil_strv_at(sv, i);
            if (i < m.size()) VP_CHECK(c, s && m[i] == s, "at(%u)", i);
            else VP_CHECK(c, !s, "at(%u) is out of bounds", i);
            break;
        }
        }
    }
};

void play(Ctx& c, bool big)
{
    Model m(c, big);
    Swarm s(c, 10);
    while (c.more() && c.steps++ < (big ? 16u : 200u)) m.op(s.op(c));
    if (m.removed) c.label("removed");
    if (m.many) { c.label("repeated"); c.nontrivial(); }
    if (m.removed && c.steps > 5) c.nontrivial();
    g_strfreev(m.sv);
}

void history(Ctx& c) { play(c, false); }
void large(Ctx& c) { play(c, true); c.label("large"); }

/* Any number of arguments */
void many_args(Ctx& c)
{
    const char* s[300];
    SV m = strv::gen_all(c, 0, 10);
    GStrV* sv = strv::make(c, m);
    const int n = c.coin() ? c.range(0, 299) : c.pick({ 255, 256, 257, 128, 299, 16, 17 });
    SV args(n);
    for (int i = 0; i < n; i++) {
        args[i] = c.chance(40) ? strv::gen(c, 5) : std::to_string(i);
        s[i] = args[i].c_str();
    }
    for (int i = n; i < 300; i++) s[i] = NULL;
    sv = gutil_strv_addv(sv,
        s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14],
        s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28],
        s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38], s[39], s[40], s[41], s[42],
        s[43], s[44], s[45], s[46], s[47], s[48], s[49], s[50], s[51], s[52], s[53], s[54], s[55], s[56],
        s[57], s[58], s[59], s[60], s[61], s[62], s[63], s[64], s[65], s[66], s[67], s[68], s[69], s[70],
        s[71], s[72], s[73], s[74], s[75], s[76], s[77], s[78], s[79], s[80], s[81], s[82], s[83], s[84],
        s[85], s[86], s[87], s[88], s[89], s[90], s[91], s[92], s[93], s[94], s[95], s[96], s[97], s[98],
        s[99], s[100], s[101], s[102], s[103], s[104], s[105], s[106], s[107], s[108], s[109], s[110],
        s[111], s[112], s[113], s[114], s[115], s[116], s[117], s[118], s[119], s[120], s[121], s[122],
        s[123], s[124], s[125], s[126], s[127], s[128], s[129], s[130], s[131], s[132], s[133], s[134],
        s[135], s[136], s[137], s[138], s[139], s[140], s[141], s[142], s[143], s[144], s[145], s[146],
        s[147], s[148], s[149], s[150], s[151], s[152], s[153], s[154], s[155], s[156], s[157], s[158],
        s[159], s[160], s[161], s[162], s[163], s[164], s[165], s[166], s[167], s[168], s[169], s[170],
        s[171], s[172], s[173], s[174], s[175], s[176], s[177], s[178], s[179], s[180], s[181], s[182],
        s[183], s[184], s[185], s[186], s[187], s[188], s[189], s[190], s[191], s[192], s[193], s[194],
        s[195], s[196], s[197], s[198], s[199], s[200], s[201], s[202], s[203], s[204], s[205], s[206],
        s[207], s[208], s[209], s[210], s[211], s[212], s[213], s[214], s[215], s[216], s[217], s[218],
        s[219], s[220], s[221], s[222], s[223], s[224], s[225], s[226], s[227], s[228], s[229], s[230],
        s[231], s[232], s[233], s[234], s[235], s[236], s[237], s[238], s[239], s[240], s[241], s[242],
        s[243], s[244], s[245], s[246], s[247], s[248], s[249], s[250], s[251], s[252], s[253], s[254],
        s[255], s[256], s[257], s[258], s[259], s[260], s[261], s[262], s[263], s[264], s[265], s[266],
        s[267], s[268], s[269], s[270], s[271], s[272], s[273], s[274], s[275], s[276], s[277], s[278],
        s[279], s[280], s[281], s[282], s[283], s[284], s[285], s[286], s[287], s[288], s[289], s[290],
        s[291], s[292], s[293], s[294], s[295], s[296], s[297], s[298], s[299], NULL);
    m.insert(m.end(), args.begin(), args.end());
    strv::check(c, sv, m, "addv");
    VP_EQ(c, gutil_strv_length(sv), m.size(), "length");
    if (n > 20) c.nontrivial();
    g_strfreev(sv);
}

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C14";
    p.rule = "up to 200 edits and queries of string vectors (single letters, short, arbitrary bytes, white space, long), contents "
        "compared with the list after each, the same with up to 131000 strings, additions of up to 299 arguments; non-trivial = something was removed in more than 5 steps or a repeated string was removed";
    p.targets = { { "history", history, 1000, 900 }, { "large", large, 1, 100 }, { "many_args", many_args, 10, 200 } };
    p.leak_check = true;
    return p;
}
