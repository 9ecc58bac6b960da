// VP-EXTRA: c30_04.cc c30_05.cc c30_06.cc c30_07.cc c30_08.cc c30_09.cc c30_10.cc c30_11.cc c30_12.cc c30_16.cc c30_22.cc c30_23.cc c30_24.cc c30_27.cc
// VP-CONFIGS: dbg fdbg
// VP-LDFLAGS: -Wl,--wrap=inotify_init,--wrap=inotify_init1,--wrap=inotify_add_watch -Wl,--wrap=timerfd_create,--wrap=timerfd_settime
// VP-SHARDS: 32
// VP-ASSUMES: the assumptions of C04, C05, C06, C07, C08, C09, C10, C11, C12, C16, C22, C23, C24 and C27, whose generators are used
/* C30: the debug build has nothing to complain about */
#include <gutil_history.h>
#include <gutil_idlequeue.h>
#include "vp.h"
using namespace vp;

namespace vp {
Property property_c04();
Property property_c05();
Property property_c06();
Property property_c07();
Property property_c08();
Property property_c09();
Property property_c10();
Property property_c11();
Property property_c12();
Property property_c16();
Property property_c22();
Property property_c23();
Property property_c24();
Property property_c27();
}

/* Percentage of cases */
static const struct { Property (*property)(); unsigned share; } parts[] = {
    { property_c04, 14 }, { property_c05, 14 }, { property_c06, 10 }, { property_c07, 4 }, { property_c08, 15 },
    { property_c09, 13 }, { property_c10, 1 }, { property_c11, 4 }, { property_c12, 4 }, { property_c16, 5 },
    { property_c22, 1 }, { property_c23, 7 }, { property_c24, 3 }, { property_c27, 5 }
};

static void init()
{
    for (auto part : parts) {
        const Property p = part.property();
        if (p.init) p.init();
    }
}

static void fixed_one_sample(Ctx&)
{
    GUtilIntHistory* h = gutil_int_history_new(2, 1000000000);
    gutil_int_history_add(h, 1);
    gutil_int_history_size(h);
    gutil_int_history_unref(h);
}

static GUtilIdleQueue* cancelling;
static void cancel_rest(void*)
{
    gutil_idle_queue_cancel_all(cancelling);
}

static void fixed_cancel(Ctx&)
{
    cancelling = gutil_idle_queue_new();
    gutil_idle_queue_add_tag_full(cancelling, 1, NULL, NULL, cancel_rest);
    gutil_idle_queue_add_tag(cancelling, 2, NULL, NULL);
    gutil_idle_queue_cancel_tag(cancelling, 1);
    gutil_idle_queue_unref(cancelling);
}

static std::string names[64];

Property vp::property()
{
    Property p = {};
    size_t n = 0;
    p.id = "C30";
    p.rule = "histories generated for rings, histories, idle queues and pools (also by several threads), filesystem "
        "watches, time notifications, weak references, arrays, vectors, objects, signals and event sources, run against the debug build with its assertions routed to the "
        "harness; non-trivial = as defined for the respective property";
    p.fixed = { { "one-sample", fixed_one_sample }, { "cancel-first", fixed_cancel } };
    for (auto part : parts) {
        const Property q = part.property();
        unsigned total = 0;
        for (const Target& t : q.targets) total += t.weight;
        for (const auto& f : q.fixed) if (!strcmp(f.key, "overflow")) p.fixed.push_back(f);
        for (Target t : q.targets) {
            names[n] = std::string(q.id) + "." + t.name;
            t.name = names[n++].c_str();
            t.weight = std::max(1u, (unsigned)((uint64_t)t.weight * part.share * 1000 / total));
            p.targets.push_back(t);
        }
    }
    p.attempts = 5;
    p.init = init;
    p.no_asserts = true;
    return p;
}
