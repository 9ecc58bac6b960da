/* History against a list of (time, value) pairs */
#ifndef HISTORY_MODEL_H
#define HISTORY_MODEL_H
#include "vp.h"
#include "gutil_history.h"
#include <deque>

struct HistoryModel {
    struct Sample { int64_t t; int v; };
    vp::Ctx& c;
    GUtilIntHistory* h;
    int max_size;
    int64_t max_interval;
    std::deque<Sample> m;
    bool exact;          /* area fits into 64 bits */
    unsigned expired, evicted, replaced;

    static int64_t& now() { static int64_t t; return t; }
    static gint64 time_func() { return now(); }

    HistoryModel(vp::Ctx& ctx, int n, int64_t interval) : c(ctx), max_size(n),
        max_interval(interval), exact(true), expired(0), evicted(0), replaced(0) {
        h = gutil_int_history_new_full(n, interval, time_func);
        VP_LOG(c, "new(%d samples, %lld us)", n, (long long)interval);
        VP_CHECK(c, h != NULL, "no history");
    }
    ~HistoryModel() { gutil_int_history_unref(h); }

    void expire() {
        while (!m.empty() && m.front().t < now() - max_interval) {
            m.pop_front();
            expired++;
        }
    }

    /* Checks the median, expired samples are gone */
    void check_median(const char* what, int got, int def) {
        if (m.empty()) {
            VP_CHECK(c, got == def, "%s: %d for the empty history, expected %d", what, got, def);
        } else if (m.size() == 1) {
            VP_CHECK(c, got == m[0].v, "%s: %d for a single sample %d", what, got, m[0].v);
        } else {
            __int128 area2 = 0, abs2 = 0, worst = 0;
            int64_t total = 0;
            int lo = m[0].v, hi = m[0].v;
            for (size_t i = 1; i < m.size(); i++) {
                const int64_t dt = m[i].t - m[i-1].t;
                const __int128 a = (__int128)dt * ((int64_t)m[i].v + m[i-1].v);
                const __int128 aa = a < 0 ? -a : a;
                area2 += a;
                abs2 += aa;
                if (aa > worst) worst = aa;
                total += dt;
                if (m[i].v < lo) lo = m[i].v;
                if (m[i].v > hi) hi = m[i].v;
            }
            if (abs2 > (__int128)INT64_MAX) {
                /* Known finding: the area doesn't fit into 64 bits */
                c.label("excluded-area-overflow");
                exact = false;
                return;
            }
            VP_CHECK(c, got >= lo && got <= hi, "%s: %d is outside of [%d..%d]", what, got, lo, hi);
            __int128 diff = (__int128)got * 2 * total - area2;
            if (diff < 0) diff = -diff;
            VP_CHECK(c, diff < (__int128)3 * total, "%s: %d but the exact one is about %.3f", what, got,
                (double)area2 / 2 / (double)total);
        }
    }

    void add(int v) {
        expire();
        if (!m.empty() && now() <= m.back().t) {
            m.back().v = v;
            replaced++;
        } else {
            m.push_back({ now(), v });
            if ((int)m.size() > max_size) { m.pop_front(); evicted++; }
        }
        const int med = gutil_int_history_add(h, v);
        VP_LOG(c, "add(%d) at %lld => %d", v, (long long)now(), med);
        check_median("add", med, 0);
    }

    void median(int def) {
        expire();
        const int med = gutil_int_history_median(h, def);
        VP_LOG(c, "median(%d) at %lld => %d", def, (long long)now(), med);
        check_median("median", med, def);
    }

    void size() {
        expire();
        const guint n = gutil_int_history_size(h);
        VP_LOG(c, "size at %lld => %u", (long long)now(), n);
        VP_CHECK(c, n == m.size(), "size %u, expected %u", n, (unsigned)m.size());
        VP_CHECK(c, (int)n <= max_size, "too many");
    }

    void interval() {
        expire();
        const gint64 i = gutil_int_history_interval(h);
        const int64_t e = m.empty() ? 0 : now() - m.front().t;
        VP_LOG(c, "interval at %lld => %lld", (long long)now(), (long long)i);
        VP_CHECK(c, i == e, "interval %lld, expected %lld", (long long)i, (long long)e);
    }

    void clear() {
        VP_LOG(c, "clear");
        m.clear();
        gutil_int_history_clear(h);
    }

    void ref() {
        VP_CHECK(c, gutil_int_history_ref(h) == h, "ref");
        gutil_int_history_unref(h);
    }
};
#endif
