// VP-ASSUMES: time stays within [-2^60, 2^62] microseconds (and is not negative if the window is longer than 2^62)
/* C06: window of samples */
#include "history_model.h"
using namespace vp;

static void history(Ctx& c)
{
    const int n = c.coin() ? c.range(1, 6) : 1 + (int)c.len(300);
    int64_t interval;
    switch (c.range(0, 4)) {
    case 0: interval = c.range(1, 20); break;
    case 1: interval = c.range(1, 5000); break;
    case 2: interval = 1 + (int64_t)(c.x64() & 0x3fffffffffffffffll); break;
    case 3: interval = c.coin() ? G_MAXINT64 : G_MAXINT64 - (int64_t)(c.x64() & 0x0fffffffffffffffll); break;
    default: interval = G_MAXINT64 / 4; break;
    }
    HistoryModel h(c, n, interval);
    const int64_t least = interval <= (1ll << 62) ? -(1ll << 60) : 0;
    switch (c.range(0, 3)) {
    case 0: HistoryModel::now() = 0; break;
    case 1: HistoryModel::now() = (int64_t)(c.x64() & 0x0fffffffffffffffll); break;
    case 2: HistoryModel::now() = MAX(-(int64_t)c.range(0, 100), least); break;
    case 3: HistoryModel::now() = MAX(-(int64_t)(c.x64() & 0x0fffffffffffffffll), least); break;
    }
    Swarm s(c, 9);
    bool back = false;
    while (c.more() && c.steps++ < 400) {
        int64_t& now = HistoryModel::now();
        int64_t step = 0;
        switch (s.op(c)) {
        case 0: case 1: case 2: h.add(c.range(-1000, 1000)); break;
        case 3: h.size(); break;
        case 4: h.interval(); break;
        case 5: h.median(c.i32()); break;
        case 6: if (c.chance(60)) h.clear(); break;
        case 7: h.ref(); break;
        case 8: {
            /* A burst */
            int k = (int)c.len(400);
            const int d = c.range(0, 3);
            for (int i = 0; i < k; i++) { h.add(c.coin() ? i : -i); now += d; }
            break;
        }
        }
        switch (c.range(0, 7)) {
        case 0: case 1: break;
        case 2: case 3: step = c.range(1, 5); break;
        case 4: step = interval / (1 + c.range(0, 5)); break;
        case 5: step = interval - 2; step += c.range(0, interval < G_MAXINT64 - 4 ? 4 : 2); break;
        case 6:
            /* Time goes back */
            if (c.chance(100)) { step = -(int64_t)c.range(1, 30); back = true; }
            break;
        case 7:
            /* Exactly the edge of the window */
            if (!h.m.empty()) {
                const __int128 edge = (__int128)h.m[c.range(0, (int)h.m.size() - 1)].t + interval + c.range(-1, 1) - now;
                step = edge > 0 && edge <= (1ll << 62) ? (int64_t)edge : 0;
            }
            break;
        }
        now = step > (1ll << 62) - now ? 1ll << 62 : now + step;
        if (now < least) now = least;
        if (now > (1ll << 62)) now = 1ll << 62;
        if (c.chance(100)) { h.size(); h.interval(); }
    }
    h.size();
    h.interval();
    h.median(7);
    if (h.expired && (h.evicted || h.replaced)) c.nontrivial();
    if (h.expired) c.label("expired");
    if (h.evicted) c.label("evicted");
    if (h.replaced) c.label("replaced");
    if (back) c.label("clock-back");
}

/* Positions which don't fit into 15, 16 or 17 bits; not so many samples are valid at the same time */
static void large(Ctx& c)
{
    const int n = (int)c.huge();
    HistoryModel h(c, n, c.range(1, 60));
    HistoryModel::now() = c.coin() ? 0 : (int64_t)(c.x64() & 0x0fffffffffffffffll);
    int left = 250000;
    while (c.more() && c.steps++ < 12 && left > 0) {
        switch (c.range(0, 4)) {
        default: {
            const int k = c.coin() ? (int)c.huge() : n + c.range(-3, 3), d = c.range(1, 4);
            for (int i = 0; i < k; i++) { h.add(i); HistoryModel::now() += d; }
            left -= k;
            break;
        }
        case 2: h.size(); h.interval(); h.median(1); break;
        case 3: HistoryModel::now() += c.range(0, 70); h.size(); break;
        case 4: h.clear(); break;
        }
        h.size();
        h.interval();
    }
    if (c.steps > 1) c.nontrivial();
}

/* All of them are valid */
static void fixed_many(Ctx& c)
{
    const int n = 33000;
    HistoryModel::now() = 1;
    GUtilIntHistory* h = gutil_int_history_new_full(n, 100 * n, HistoryModel::time_func);
    for (int i = 0; i < n + 5; i++) { gutil_int_history_add(h, 7); HistoryModel::now()++; }
    VP_EQ(c, gutil_int_history_size(h), n, "size");
    VP_EQ(c, gutil_int_history_interval(h), n, "interval");
    VP_EQ(c, gutil_int_history_median(h, 1), 7, "median");
    gutil_int_history_unref(h);
}

static void null_history(Ctx& c)
{
    VP_CHECK(c, !gutil_int_history_new_full(0, 1, NULL) && !gutil_int_history_new_full(-1, 1, NULL) &&
        !gutil_int_history_new_full(1, 0, NULL) && !gutil_int_history_new_full(1, -1, NULL) &&
        !gutil_int_history_new(0, 1) && !gutil_int_history_new(5, 0), "invalid limits");
    gutil_int_history_unref(NULL);
    gutil_int_history_clear(NULL);
    VP_CHECK(c, !gutil_int_history_ref(NULL) && !gutil_int_history_size(NULL) &&
        !gutil_int_history_interval(NULL) && !gutil_int_history_add(NULL, 5), "NULL");
    VP_EQ(c, gutil_int_history_median(NULL, 42), 42, "default");
    /* Default clock is monotonic */
    GUtilIntHistory* h = gutil_int_history_new(3, G_GINT64_CONSTANT(1000000000000));
    VP_EQ(c, gutil_int_history_median(h, 42), 42, "default");
    VP_EQ(c, gutil_int_history_add(h, 5), 5, "first");
    VP_EQ(c, gutil_int_history_size(h), 1, "size");
    VP_EQ(c, gutil_int_history_median(h, 42), 5, "median");
    gutil_int_history_unref(h);
}

Property vp::property()
{
    Property p = {};
    p.id = "C06";
    p.rule = "histories of up to 400 steps (additions, bursts, queries, clear) with an injected clock whose steps are "
        "biased to the edges of the window and sometimes go back; size, interval and median compared with a list; "
        "large: up to 131000 positions passed through; non-trivial = samples both expired and were evicted or replaced";
    p.targets = { { "history", history, 1000, 1200 }, { "large", large, 1, 100 } };
    p.fixed = { { "null", null_history }, { "many", fixed_many } };
    p.leak_check = true;
    return p;
}
