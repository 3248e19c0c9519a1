/* C26: memory accesses of the debugger never raise; failures read as zero, change nothing and are counted. */
//! entry: t_wide narrow
//! entry: t_any_number coarse -eva-partition-value pending,__lj_active
#include "h.h"
#include "mri.h"

static void start(void)
{
    platform();
    MemorySim_CreateRegion(mem, 0x20000000u, 16);
    MemorySim_CreateRegion(mem, 0x00001000u, 16);
    IMemory_Write32(mem, 0x20000000u, 0x11223344u); IMemory_Write32(mem, 0x20000004u, 0x55667788u);
    IMemory_Write32(mem, 0x20000008u, 0x99AABBCCu); IMemory_Write32(mem, 0x2000000Cu, 0xDDEEFF01u);
    IMemory_Write32(mem, 0x00001000u, 0xCAFEF00Du); IMemory_Write32(mem, 0x0000100Cu, 0x0BADBEEFu);
    MemorySim_MakeRegionReadOnly(mem, 0x00001000u);
}
static void unchanged(void)
{
    OBLIGE(IMemory_Read32(mem, 0x20000000u) == 0x11223344u && IMemory_Read32(mem, 0x20000004u) == 0x55667788u);
    OBLIGE(IMemory_Read32(mem, 0x20000008u) == 0x99AABBCCu && IMemory_Read32(mem, 0x2000000Cu) == 0xDDEEFF01u);
    OBLIGE(IMemory_Read32(mem, 0x00001000u) == 0xCAFEF00Du && IMemory_Read32(mem, 0x0000100Cu) == 0x0BADBEEFu);
}
#define P(a) ((void*)(unsigned long)(a))
static uint32_t rd(int w, uint32_t a) { return w == 0 ? Platform_MemRead8(P(a)) : w == 1 ? Platform_MemRead16(P(a)) : Platform_MemRead32(P(a)); }
static void wr(int w, uint32_t a, uint32_t v) { if (w == 0) Platform_MemWrite8(P(a), (uint8_t)v); else if (w == 1) Platform_MemWrite16(P(a), (uint16_t)v); else Platform_MemWrite32(P(a), v); }
static void once(int expected)
{
    OBLIGE(!!Platform_WasMemoryFaultEncountered() == expected);
    OBLIGE(!Platform_WasMemoryFaultEncountered());
}
/* wholly or partly outside of every region */
static uint32_t outside(int k, int w)
{
    uint32_t n = 1u << w;
    if (k == 0) return any_u32(0, 0x1000 - n);
    if (k == 1) return any_u32(0x1010, 0x20000000u - n);
    if (k == 2) return any_u32(0x20000010u, 0xFFFFFFFF);
    if (k == 3) return any_u32(0x20000011u - n, 0x20000010u);
    if (k == 4) return any_u32(0x1011 - n, 0x1010);
    return any_u32(0x20000001u - n, 0x20000000u) - 1;
}
/* each access of each width to unmapped memory */
void t_faults(void)
{
    PICK(k, 6); PICK(w, 3); PICK(writing, 2);
    start();
    if (writing) wr(w, outside(k, w), any_u32(0, 0xFFFFFFFF));
    else OBLIGE(rd(w, outside(k, w)) == 0);
    once(1);
    unchanged();
    MARK(contained);
}
/* writes to read-only memory */
void t_read_only(void)
{
    PICK(w, 3);
    start();
    wr(w, any_u32(0x1000, 0x1010 - (1u << w)), any_u32(0, 0xFFFFFFFF));
    once(1);
    unchanged();
    MARK(contained);
}
/* reads that succeed */
void t_reads(void)
{
    static const uint8_t bytes[16] = {0x44, 0x33, 0x22, 0x11, 0x88, 0x77, 0x66, 0x55, 0xCC, 0xBB, 0xAA, 0x99, 0x01, 0xFF, 0xEE, 0xDD};
    PICK(w, 3); PICK(off, 16);
    start();
    if (off + (1 << w) <= 16) {
        uint32_t v = bytes[off];
        if (w >= 1) v |= (uint32_t)bytes[off + 1] << 8;
        if (w == 2) v |= (uint32_t)bytes[off + 2] << 16 | (uint32_t)bytes[off + 3] << 24;
        OBLIGE(rd(w, 0x20000000u + (uint32_t)off) == v);
        once(0);
        unchanged();
        MARK(worked);
    }
}
/* writes that succeed */
void t_writes(void)
{
    int i;
    PICK(w, 3); PICK(off, 16);
    start();
    if (off + (1 << w) <= 16) {
        uint32_t before[16];
        for (i = 0; i < 16; i++) before[i] = IMemory_Read8(mem, 0x20000000u + (uint32_t)i);
        wr(w, 0x20000000u + (uint32_t)off, 0xA4A3A2A1u);
        once(0);
        for (i = 0; i < 16; i++)
            OBLIGE(IMemory_Read8(mem, 0x20000000u + (uint32_t)i) == (i >= off && i < off + (1 << w) ? 0xA1u + (uint32_t)(i - off) : before[i]));
        OBLIGE(rd(w, 0x20000000u + (uint32_t)off) == (w == 0 ? 0xA1u : w == 1 ? 0xA2A1u : 0xA4A3A2A1u));
        MARK(worked);
    }
}
/* reads of read-only memory */
void t_read_only_reads(void)
{
    start();
    OBLIGE(rd(2, 0x1000) == 0xCAFEF00Du && rd(1, 0x100E) == 0x0BADu && rd(0, 0x1003) == 0xCA);
    once(0);
}
/* sequences of good and bad accesses and queries */
static int pending;
static void step(int k)
{
    if (k == 0) { OBLIGE(rd(2, 0x20000004u) == 0x55667788u); }
    if (k == 1) { OBLIGE(rd(2, any_u32(0x30000000u, 0xFFFFFFFF)) == 0); pending = 1; }
    if (k == 2) { OBLIGE(rd(1, any_u32(0x30000000u, 0xFFFFFFFF)) == 0); pending = 1; }
    if (k == 3) { OBLIGE(rd(0, any_u32(0x30000000u, 0xFFFFFFFF)) == 0); pending = 1; }
    if (k == 4) { wr(0, any_u32(0x30000000u, 0xFFFFFFFF), 1); pending = 1; }
    if (k == 5) { wr(1, 0x1000, 1); pending = 1; }
    if (k == 6) { wr(2, any_u32(0x1000, 0x100C), 1); pending = 1; }
    if (k == 7) { wr(2, 0x20000004u, 0x55667788u); wr(1, 0x20000000u, 0x3344); wr(0, 0x2000000Fu, 0xDD); }
    if (k == 8) { OBLIGE(!!Platform_WasMemoryFaultEncountered() == pending); pending = 0; }
    if (k == 9) { OBLIGE(rd(0, 0x20000000u) == 0x44 && rd(1, 0x2000000Eu) == 0xDDEE); }
}
/* any two accesses, then queries */
void t_pairs(void)
{
    PICK(a, 10); PICK(b, 10);
    start();
    step(a); step(b);
    once(pending);
    unchanged();
}
/* a long run of faults before the query */
void t_long(void)
{
    int i;
    PICK(first, 10); PICK(stride, 3);
    start();
    for (i = 0; i < 10; i++) { step((first + i * (stride == 0 ? 1 : stride == 1 ? 3 : 7)) % 10); }
    once(pending);
    unchanged();
}
/* any sequence of accesses and queries */
void t_sequences(void) // thorough
{
    PICK(a, 10); PICK(b, 10); PICK(c, 10);
    start();
    step(a); step(b); step(c);
    once(pending);
    unchanged();
}
/* a new session starts without a fault */
void t_init_forgets(void)
{
    start();
    OBLIGE(rd(2, 0x40000000u) == 0);
    mriPlatform_Init(&regs, mem);
    once(0);
}
/* an access inside of a protected block leaves that block's own handling alone */
void t_inside_try(void)
{
    int code = 0, after = 0;
    PICK(w, 3); PICK(writing, 2);
    start();
    __try {
        if (writing) wr(w, 0x40000000u, 5); else OBLIGE(rd(w, 0x40000000u) == 0);
        after = 1;
        OBLIGE(after);
        __throw(invalidValueException);
    }
    __catch { code = getExceptionCode(); clearExceptionCode(); }
    OBLIGE(code != 0);
    once(1);
    MARK(caught);
}
/* any number of accesses of any kind: a query tells whether there was a fault since the last one ... */
void t_any_number(void)
{
    int k;
    start();
    pending = 0;
    while (any_bool()) {
        k = any_int(0, 7);
        /*@ split k; */
        step(k);
        /*@ merge k; */
    }
    OBLIGE(!!Platform_WasMemoryFaultEncountered() == pending);
    if (pending) MARK(fault); else MARK(none);
    OBLIGE(!Platform_WasMemoryFaultEncountered());
}
/* ... and the count of faults is not cut to fewer bits */
void t_wide(void)
{
    start();
    while (any_bool()) {
        rd(0, any_u32(0, 0xFFFFFFFFu)); rd(1, any_u32(0, 0xFFFFFFFFu)); rd(2, any_u32(0, 0xFFFFFFFFu));
        wr(0, any_u32(0, 0xFFFFFFFFu), 1); wr(1, any_u32(0, 0xFFFFFFFFu), 1); wr(2, any_u32(0, 0xFFFFFFFFu), 1);
    }
    Platform_WasMemoryFaultEncountered();
}
