// VP-ASSUMES: objects don't touch the vector when they are finalized
/* C16: object vectors */
#include <algorithm>
#include <glib-object.h>
#include <gutil_objv.h>
#include <gutil_misc.h>
#include "vp.h"
using namespace vp;

namespace {

enum { NOBJ = 6, NVEC = 3 };

struct World {
    Ctx& c;
    GObject* obj[NOBJ];
    int refs[NOBJ];     /* ours */
    bool alive[NOBJ];
    GObject** v[NVEC];
    std::vector<int> m[NVEC];
    bool removed, finalized, big;

    World(Ctx& ctx, bool b) : c(ctx), removed(false), finalized(false), big(b) {
        for (int i = 0; i < NOBJ; i++) create(i);
        for (int i = 0; i < NVEC; i++) v[i] = NULL;
        if (big) {
            /* The first object mostly */
            for (int n = (int)c.huge(), k = 0; k < 1 + c.range(0, 1); k++) {
                v[k] = g_new0(GObject*, n + 1);
                for (int i = 0; i < n; i++) {
                    const int id = (i * 2654435761u) >> 20 ? 0 : 1 + i % 5;
                    v[k][i] = (GObject*)g_object_ref(obj[id]);
                    m[k].push_back(id);
                }
                n += c.pick({ 0, 256, 65536 });
            }
            check("large vectors");
        }
    }
    static void gone(gpointer data, GObject*) {
        bool* alive = (bool*)data;
        *alive = false;
    }
    void create(int i) {
        obj[i] = (GObject*)g_object_new(i & 1 ? G_TYPE_INITIALLY_UNOWNED : G_TYPE_OBJECT, NULL);
        refs[i] = 1;
        alive[i] = true;
        g_object_weak_ref(obj[i], gone, alive + i);
    }
    int count(int i) {
        int n = 0;
        for (auto& x : m) n += (int)std::count(x.begin(), x.end(), i);
        return n;
    }
    void check(const char* what) {
        for (int i = 0; i < NOBJ; i++) {
            const int n = refs[i] + count(i);
            VP_CHECK(c, alive[i] == (n > 0), "%s: object %d must%s be alive", what, i, n > 0 ? "" : "n't");
            if (n) VP_CHECK(c, (int)obj[i]->ref_count == n && !g_object_is_floating(obj[i]) == !(i & 1),
                "%s: %d references to object %d, expected %d", what, (int)obj[i]->ref_count, i, n);
            else { finalized = true; create(i); }
        }
        for (int k = 0; k < NVEC; k++) {
            VP_EQ(c, gutil_ptrv_length(v[k]), m[k].size(), "length");
            for (size_t i = 0; i < m[k].size(); i++) {
                VP_CHECK(c, v[k][i] == obj[m[k][i]], "%s: wrong object at %d", what, (int)i);
            }
            if (v[k]) VP_CHECK(c, !v[k][m[k].size()], "%s: no NULL at the end", what);
            VP_CHECK(c, gutil_objv_first(v[k]) == (m[k].empty() ? NULL : obj[m[k].front()]), "first");
            VP_CHECK(c, gutil_objv_last(v[k]) == (m[k].empty() ? NULL : obj[m[k].back()]), "last");
        }
    }
    /* Object which we own */
    int own() {
        const int i = c.range(0, NOBJ - 1);
        if (!refs[i]) { g_object_ref(obj[i]); refs[i]++; }
        return i;
    }
    void drop(int k) {
        gutil_objv_free(v[k]);
        v[k] = NULL;
        m[k].clear();
    }
    void op(int what) {
        const int k = c.range(0, NVEC - 1);
        std::vector<int>& x = m[k];
        switch (what) {
        case 0: case 1: {
            if (x.size() > (big ? 300000 : 60)) break;
            const int i = own();
            VP_LOG(c, "v%d add %d", k, i);
            v[k] = gutil_objv_add(v[k], obj[i]);
            x.push_back(i);
            check("add");
            break;
        }
        case 2: case 3: {
            if (x.size() > (big ? 300000 : 60)) break;
            const int i = own();
            const gsize pos = c.chance(200) ? (gsize)c.range(0, (int)x.size() + 1) : (gsize)c.x64();
            VP_LOG(c, "v%d insert %d at %llu", k, i, (unsigned long long)pos);
            v[k] = gutil_objv_insert(v[k], obj[i], pos);
            x.insert(x.begin() + std::min(pos, (gsize)x.size()), i);
            check("insert");
            break;
        }
        case 4: {
            const int k2 = c.range(0, NVEC - 1);
            if (x.size() > (big ? 300000 : 60)) break;
            VP_LOG(c, "v%d append v%d", k, k2);
            v[k] = gutil_objv_append(v[k], v[k2]);
            if (k == k2) c.label("appended to itself");
            const std::vector<int> y(m[k2].begin(), m[k2].end());
            x.insert(x.end(), y.begin(), y.end());
            check("append");
            break;
        }
        case 5: case 6: {
            const int i = x.size() && c.chance(200) ? x[c.range(0, (int)x.size() - 1)] : c.range(0, NOBJ - 1);
            const bool all = what == 6 && (i || !big);
            VP_LOG(c, "v%d remove %d%s", k, i, all ? " (all)" : "");
            if (std::count(x.begin(), x.end(), i)) removed = true;
            v[k] = gutil_objv_remove(v[k], obj[i], all);
            if (all) x.erase(std::remove(x.begin(), x.end(), i), x.end());
            else { auto it = std::find(x.begin(), x.end(), i); if (it != x.end()) x.erase(it); }
            check("remove");
            break;
        }
        case 7: case 8: {
            const gsize pos = c.chance(200) ? (gsize)c.range(0, (int)x.size()) : (gsize)c.x64();
            VP_LOG(c, "v%d remove at %llu", k, (unsigned long long)pos);
            v[k] = gutil_objv_remove_at(v[k], pos);
            if (pos < x.size()) { removed = true; x.erase(x.begin() + pos); }
            check("remove_at");
            break;
        }
        case 9: {
            const int k2 = c.range(0, NVEC - 1);
            if (k2 == k) break;
            VP_LOG(c, "v%d = copy of v%d", k, k2);
            drop(k);
            check("free");
            v[k] = gutil_objv_copy(v[k2]);
            x = m[k2];
            if (v[k2]) VP_CHECK(c, v[k] && v[k] != v[k2], "copy");
            check("copy");
            break;
        }
        case 10: {
            drop(k);
            check("free");
            const int n = c.range(0, 4);
            int i[4];
            for (int j = 0; j < n; j++) i[j] = own();
            VP_LOG(c, "v%d = new with %d", k, n);
            GObject* none = NULL;
            switch (n) {
            case 0: v[k] = gutil_objv_new(none); break;
            case 1: v[k] = gutil_objv_new(obj[i[0]], none); break;
            case 2: v[k] = gutil_objv_new(obj[i[0]], obj[i[1]], none); break;
            case 3: v[k] = gutil_objv_new(obj[i[0]], obj[i[1]], obj[i[2]], none); break;
            default: v[k] = gutil_objv_new(obj[i[0]], obj[i[1]], obj[i[2]], obj[i[3]], none); break;
            }
            VP_CHECK(c, v[k], "new");
            x.assign(i, i + n);
            check("new");
            break;
        }
        case 11:
            if (c.chance(60)) { VP_LOG(c, "v%d free", k); drop(k); check("free"); }
            break;
        case 12: {
            const int i = c.range(0, NOBJ - 1);
            const auto it = std::find(x.begin(), x.end(), i);
            gssize last = -1;
            for (size_t j = 0; j < x.size(); j++) if (x[j] == i) last = j;
            VP_EQ(c, gutil_objv_find(v[k], obj[i]), it == x.end() ? -1 : (int)(it - x.begin()), "find");
            VP_EQ(c, gutil_objv_find_last(v[k], obj[i]), last, "find_last");
            VP_EQ(c, !!gutil_objv_contains(v[k], obj[i]), last >= 0, "contains");
            const gsize pos = c.chance(200) ? (gsize)c.range(0, (int)x.size() + 1) : (gsize)c.x64();
            VP_CHECK(c, gutil_objv_at(v[k], pos) == (pos < x.size() ? obj[x[pos]] : NULL), "at");
            check("find");
            break;
        }
        case 13: {
            const int k2 = c.range(0, NVEC - 1);
            VP_EQ(c, !!gutil_objv_equal(v[k], v[k2]), m[k] == m[k2], "equal");
            check("equal");
            break;
        }
        case 14: {
            const int i = c.range(0, NOBJ - 1);
            if (refs[i]) {
                VP_LOG(c, "drop our reference to %d", i);
                refs[i]--;
                g_object_unref(obj[i]);
                check("unref");
            }
            break;
        }
        case 15: {
            GObject** was = v[k];
            v[k] = gutil_objv_add(v[k], NULL);
            v[k] = gutil_objv_insert(v[k], NULL, c.range(0, 3));
            v[k] = gutil_objv_append(v[k], NULL);
            v[k] = gutil_objv_remove(v[k], NULL, c.coin());
            VP_CHECK(c, v[k] == was, "NULL object has changed the vector");
            VP_EQ(c, gutil_objv_find(v[k], NULL), -1, "find NULL");
            VP_EQ(c, gutil_objv_find_last(v[k], NULL), -1, "find_last NULL");
            VP_CHECK(c, !gutil_objv_contains(v[k], NULL), "contains NULL");
            check("NULL");
            break;
        }
        }
    }
};

void play(Ctx& c, bool big)
{
    World w(c, big);
    Swarm s(c, 16);
    while (c.more() && c.steps++ < (big ? 20u : 250u)) w.op(s.op(c));
    if (w.removed) c.label("removed");
    if (w.finalized) c.label("finalized");
    if (w.removed && w.finalized) c.nontrivial();
    for (int k = 0; k < NVEC; k++) { w.drop(k); w.check("free"); }
    for (int i = 0; i < NOBJ; i++) while (w.refs[i]) { w.refs[i]--; g_object_unref(w.obj[i]); }
}

void history(Ctx& c) { play(c, false); }
void large(Ctx& c) { play(c, true); c.label("large"); }

} // namespace

Property vp::property()
{
    Property p = {};
    p.id = "C16";
    p.rule = "up to 250 edits and queries of three vectors of up to six objects; contents and reference counts are compared with "
        "the model after each, the same with up to 131000 elements; non-trivial = something was removed and some object was finalized by removal of its last reference";
    p.targets = { { "history", history, 1500, 900 }, { "large", large, 1, 120 } };
    p.leak_check = true;
    return p;
}
