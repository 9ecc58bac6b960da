// VP-ASSUMES: reserved sizes are not negative; free functions don't touch the ring
/* C04: ring buffer is a double-ended queue */
#include <algorithm>
#include "ring_model.h"
using namespace vp;

static void history(Ctx& c)
{
    RingModel m(c);
    Swarm s(c, RingModel::NOPS);
    const bool limited = c.chance(40);
    m.create((int)(c.coin() ? 0 : c.len(300)), limited ? (int)c.len(300) : -c.range(1, 3), c.chance(60) ? 1 : 0);
    bool shrank = false;
    while (c.more() && c.steps++ < 400) {
        const size_t before = m.m.size();
        m.op(s.op(c));
        if (m.m.size() < before) shrank = true;
        /* Was shortened, then grew again: positions have wrapped or moved */
        if (shrank && m.m.size() > before && m.m.size() > 1) c.nontrivial();
    }
    if (m.peak > 100) c.label("over-100-elements");
    if (m.peak > 1000) c.label("over-1000-elements");
    if (m.fronted) c.label("front");
    m.finish();
}

/* Positions which don't fit into 15, 16 or 17 bits */
static void large(Ctx& c)
{
    RingModel m(c);
    m.big = true;
    m.create(c.coin() ? 0 : (int)c.huge(), c.chance(100) ? (int)c.huge() : -1, c.chance(60) ? 1 : 0);
    m.bulk();
    while (c.more() && c.steps++ < 24) {
        static const int ops[] = { 15, 16, 15, 5, 6, 7, 9, 10, 12, 0, 2, 3, 4, 11 };
        m.op(ops[c.range(0, 13)]);
        if (m.m.size() > 300000) m.clear();
    }
    if (m.peak > 32768) c.label("over-32768-elements");
    if (m.peak > 65536) c.label("over-65536-elements");
    if (m.peak > 32768 && c.steps > 3) c.nontrivial();
    m.finish();
}

/* Every position of the data within small storage */
static void rotate(Ctx& c)
{
    RingModel m(c);
    m.create(c.range(0, 9), c.coin() ? -1 : c.range(1, 12), 0);
    const int shift = c.range(0, 20);
    for (int i = 0; i < shift; i++) {
        /* Move the start without changing the number of elements */
        if (c.coin()) { m.put(true); m.get(true); }
        else { m.put(false); m.get(false); }
    }
    const int n = c.range(0, 12);
    for (int i = 0; i < n; i++) m.put(c.coin());
    while (c.more() && c.steps++ < 60) m.op(c.range(0, 10));
    if (n > 1 && shift) c.nontrivial();
    m.finish();
}

static void fixed_flatten(Ctx& c)
{
    /* Flattening of a wrapped, not full buffer made it smaller than it thought */
    RingModel m(c);
    m.create(8, -1, 0);
    for (int i = 0; i < 7; i++) m.put(false);
    for (int i = 0; i < 6; i++) m.get(false);
    for (int i = 0; i < 4; i++) m.put(false);
    m.flatten();
    for (int i = 0; i < 4; i++) m.put(false);
    m.finish();
}

Property vp::property()
{
    Property p = {};
    p.id = "C04";
    p.rule = "histories of up to 400 operations (single and bulk put/get at both ends, drops, clear, compact, "
        "reserve, flatten, limits) on rings with generated allocation and limit, every element compared with a list "
        "after every step; the same with up to 300000 elements; non-trivial = the ring shrank and grew again while holding 2+ elements";
    p.targets = { { "history", history, 1600, 1500 }, { "rotate", rotate, 400, 200 }, { "large", large, 1, 120 } };
    p.fixed = { { "flatten-overflow", fixed_flatten } };
    p.leak_check = true;
    return p;
}
