// VP-ASSUMES: sum of |time difference * sum of two adjacent values| fits into 63 bits (see known finding area-overflow)
/* C07: time-weighted average */
#include "history_model.h"
using namespace vp;

static int value(Ctx& c, int mode)
{
    switch (mode) {
    case 0: return c.i32();
    case 1: return c.range(-10, 10);
    case 2: return c.coin() ? INT32_MAX - c.range(0, 3) : INT32_MIN + c.range(0, 3);
    case 3: return (int)c.u32();
    case 4: return INT32_MAX - c.range(0, 100);
    default: return INT32_MIN + c.range(0, 100);
    }
}

static void window(Ctx& c)
{
    const int n = 2 + (int)c.len(200);
    const int mode = c.range(0, 5);
    /* Total time is limited so that the area fits: 2^62 / 2^32 */
    int64_t budget = 1ll << 30;
    if (mode == 1) budget = 1ll << 56;
    HistoryModel h(c, n, G_MAXINT64 / 4);
    HistoryModel::now() = (int64_t)(c.x64() & 0x0fffffffffffffffll);
    if (c.chance(60)) HistoryModel::now() = -(HistoryModel::now() >> c.range(0, 60));
    const int scale = c.range(0, 5);
    int adds = 0;
    do {
        h.add(value(c, mode));
        adds++;
        int64_t step;
        switch (scale) {
        case 0: step = 1; break;
        case 1: step = c.range(0, 3); break;
        case 2: step = c.range(1, 1000); break;
        case 3: step = c.range(1, 1000000); break;
        case 4: step = 1 + (int64_t)(c.x64() & 0xfffffffll); break;
        default: step = mode == 1 ? (int64_t)(c.x64() & 0xffffffffffffll) : (int64_t)c.range(1, 100000000); break;
        }
        if (step > budget) break;
        budget -= step;
        HistoryModel::now() += step;
        if (c.chance(60)) h.median(c.range(-5, 5));
    } while (c.more() && ++c.steps < 300);
    h.median(1);
    if (h.m.size() > 1 && h.exact) c.nontrivial();
    if (h.m.size() > 20) c.label("over-20-samples");
    if (mode == 2 || mode == 3) c.label("huge-values");
    if (h.evicted) c.label("evicted");
    if (h.m.size() == 1) c.label("single");
}

static void fixed_sum(Ctx& c)
{
    HistoryModel h(c, 2, 1000);
    HistoryModel::now() = 1;
    h.add(INT32_MAX);
    HistoryModel::now() = 3;
    h.add(INT32_MAX);
    HistoryModel h2(c, 2, 1000);
    HistoryModel::now() = 1;
    h2.add(INT32_MIN);
    HistoryModel::now() = 3;
    h2.add(INT32_MIN + 1);
}

/* Known finding: the area doesn't fit into 64 bits */
static void known_area(Ctx& c)
{
    GUtilIntHistory* h = gutil_int_history_new_full(4, G_MAXINT64 / 4, HistoryModel::time_func);
    HistoryModel::now() = 1;
    gutil_int_history_add(h, 2000000000);
    HistoryModel::now() += (gint64)3600 * 1000000;
    const int m = gutil_int_history_add(h, 2000000000);
    gutil_int_history_unref(h);
    VP_CHECK(c, m == 2000000000, "median of two samples of 2000000000 an hour apart: %d", m);
}

Property vp::property()
{
    Property p = {};
    p.id = "C07";
    p.rule = "windows of 2-200 samples of small, arbitrary and extreme int values, uniform and irregular intervals up to "
        "2^48 us; result is compared with the exact rational average in 128-bit arithmetic (tolerance 1.5) and with the "
        "range of the samples; cases whose area exceeds 63 bits are excluded and counted; non-trivial = 2+ samples";
    p.targets = { { "window", window, 1, 1200 } };
    p.fixed = { { "sum-overflow", fixed_sum }, { "area-overflow", known_area } };
    p.leak_check = true;
    return p;
}
