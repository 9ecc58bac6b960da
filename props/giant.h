/* Gigabytes of (almost) nothing */
#ifndef VP_GIANT_H
#define VP_GIANT_H

#include "vp.h"
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>

namespace giant {

/* Sizes on both sides of what fits into 31 and 32 bits */
inline size_t size(vp::Ctx& c, unsigned unit = 1)
{
    const size_t base = c.pick({ 4096u, 4096u, 2048u, 4096u });
    size_t n = (base << 20) + (int64_t)((c.range(0, 43) + 8) % 44 - 3) * unit;
    c.mix(n);
    return n;
}

/* Mapped zeros followed by an unmapped page */
struct Block {
    uint8_t* base;
    uint8_t* p;
    size_t n, mapped;

    Block(vp::Ctx& c, size_t size) : base(NULL), p(NULL), n(size) {
        const size_t huge = 2u << 20;
        mapped = (n + huge - 1) / huge * huge + huge;
        base = (uint8_t*)mmap(NULL, mapped, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) {
            base = NULL;
            c.label("no memory");
            return;
        }
        madvise(base, mapped - huge, MADV_HUGEPAGE);
        mprotect(base + mapped - huge, huge, PROT_NONE);
        p = base + mapped - huge - n;
    }
    ~Block() { if (base) munmap(base, mapped); }
    bool ok() const { return base != NULL; }
    Block(const Block&) = delete;
};

/* Some interesting position in there */
inline size_t pos(vp::Ctx& c, size_t n)
{
    size_t k;
    switch (c.range(0, 4)) {
    case 0: k = c.range(0, 70); break;
    case 1: k = n - 1 - c.range(0, 70); break;
    case 2: k = ((size_t)1 << 31) + c.range(-20, 20); break;
    case 3: k = ((size_t)1 << 32) + c.range(-20, 20); break;
    default: k = (size_t)c.u32() * 2; break;
    }
    k %= n;
    c.mix(k);
    return k;
}

} // namespace giant

#endif
