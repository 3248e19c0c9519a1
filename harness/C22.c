/* C22: everything that is allocated is released exactly once, whatever failed before. */
//! opts: -eva-partition-value __lj_active,mdl_io_failed,mdl_alloc_failed,mdl_live_allocs,mdl_open_handles
//! entry: t_read_hex -eva-split-return full
#include "h.h"
#include "load.h"

static IMemory* m;
static void released(int code)
{
    CrashDebugCommandLine_Uninit(&cl);
    OBLIGE(mdl_live_allocs == 0);
    CrashDebugCommandLine_Uninit(&cl);
    OBLIGE(mdl_live_allocs == 0);
    if (code) MARK(failed); else MARK(worked);
}
/* each open failing in turn, then everything is released */
void t_open(void)
{
    PICK(image, 2); PICK(kind, 3);
    setup(image, kind, 2); alias();
    { PICK(nth, 5); mdl_fopen_fail_at = nth + 1; }
    released(init());
}
/* each seek or size query failing in turn */
void t_seek(void)
{
    PICK(image, 2); PICK(tell, 2);
    setup(image, LOG, 1);
    if (tell) { PICK(nth, 4); mdl_ftell_fail_at = nth + 1; } else { PICK(nth, 6); mdl_fseek_fail_at = nth + 1; }
    released(init());
}
/* each read failing or cut short in turn */
void t_read(void)
{
    PICK(image, 2); PICK(kind, 2);
    setup(image, kind == 0 ? LOG : BINARY, 2);
    { PICK(nth, 24); mdl_fread_fail_at = nth + 1; }
    released(init());
}
/* the same with a hexadecimal dump */
void t_read_hex(void)
{
    setup(BIN, HEX, 1);
    mdl_fread_fail_at = any_int(1, 260);
    released(init());
}
/* each allocation failing in turn */
void t_alloc(void)
{
    PICK(image, 2); PICK(kind, 2);
    setup(image, kind == 0 ? LOG : BINARY, 2); alias();
    { PICK(nth, 24); mdl_alloc_fail_at = nth + 1; }
    released(init());
}
/* the memory map itself: a history of operations, the allocation at any point refused */
static void done(void)
{
    MemorySim_Uninit(m);
    OBLIGE(mdl_live_allocs == 0);
    MemorySim_Uninit(m);
    OBLIGE(mdl_live_allocs == 0);
}
static int code_;
static void step(int k)
{
    if (k == 0) CATCHING(code_, MemorySim_CreateRegion(m, 0x20000000u, 64));
    if (k == 1) CATCHING(code_, MemorySim_CreateRegion(m, 0x10000000u, 7));
    if (k == 2) CATCHING(code_, MemorySim_MakeRegionReadOnly(m, 0x10000000u));
    if (k == 3) CATCHING(code_, MemorySim_CreateAlias(m, 0x30000000u, 0x20000008u, 16));
    if (k == 4) CATCHING(code_, MemorySim_SetHardwareWatchpoint(m, 0x20000000u, 4, WATCHPOINT_READ));
    if (k == 5) CATCHING(code_, MemorySim_SetHardwareBreakpoint(m, 0x10000002u, 2));
    if (k == 6) CATCHING(code_, (void)MemorySim_GetMemoryMapXML(m));
    if (k == 7) CATCHING(code_, MemorySim_CreateAlias(m, 0x40000000u, 0x50000000u, 16));
    if (k == 8) CATCHING(code_, MemorySim_SetHardwareWatchpoint(m, 0x20000008u, 4, WATCHPOINT_WRITE));
    if (k == 9) CATCHING(code_, MemorySim_ClearHardwareWatchpoint(m, 0x20000000u, 4, WATCHPOINT_READ));
}
/* a history of every memory-map operation, each allocation failing in turn */
void t_history(void)
{
    m = MemorySim_Init();
    { PICK(nth, 25); mdl_alloc_fail_at = nth; }
    step(0); step(1); step(2); step(3); step(4); step(5); step(6);
    step(7); step(8); step(9); step(4); step(6); step(3); step(2); step(0); step(6);
    if (mdl_alloc_failed) MARK(failed); else MARK(worked);
    done();
}
/* the same operations in another order */
void t_history_other_order(void)
{
    m = MemorySim_Init();
    { PICK(nth, 25); mdl_alloc_fail_at = nth; }
    step(6); step(7); step(1); step(6); step(5); step(2); step(2); step(0); step(3); step(8);
    step(8); step(4); step(9); step(9); step(4); step(3); step(6);
    if (mdl_alloc_failed) MARK(failed); else MARK(worked);
    done();
}
/* any two operations */
void t_any_two(void)
{
    PICK(a, 10); PICK(b, 10);
    m = MemorySim_Init();
    step(0); step(1);
    step(a); step(b);
    done();
}
/* any three operations */
void t_any_three(void) // thorough
{
    PICK(a, 10); PICK(b, 10); PICK(c, 10);
    m = MemorySim_Init();
    step(0); step(1);
    step(a); step(b); step(c);
    done();
}
/* flash images with each allocation failing in turn */
void t_flash_image(void)
{
    static const uint8_t flash[12] = {0x00, 0x01, 0x00, 0x10, 1, 2, 3, 4, 5, 6, 7, 8};
    int code = 0;
    m = MemorySim_Init();
    { PICK(nth, 9); mdl_alloc_fail_at = nth; }
    CATCHING(code, MemorySim_CreateRegionsFromFlashImage(m, flash, sizeof(flash)));
    if (code) MARK(failed); else MARK(worked);
    OBLIGE(!!code == !!mdl_alloc_failed);
    done();
    OBLIGE(mdl_alloc_fail_at != 0 || code == 0);
}
/* the object can be used again after it was released */
void t_reuse(void)
{
    m = MemorySim_Init();
    step(0); step(4); step(6);
    done();
    m = MemorySim_Init();
    step(1); step(2); step(6);
    OBLIGE(code_ == 0 && mdl_live_allocs == 4);
    done();
}
/* many regions, aliases and points: all of them are released */
void t_many(void)
{
    uint32_t i;
    PICK(clear, 2);
    m = MemorySim_Init();
    for (i = 0; i < 70; i++) {
        MemorySim_CreateRegion(m, 0x20000000u + 0x100u * i, 32);
        if (i % 7 == 0) MemorySim_MakeRegionReadOnly(m, 0x20000000u + 0x100u * i);
        if (i % 7 == 1) MemorySim_CreateAlias(m, 0x40000000u + 0x100u * i, 0x20000000u + 0x100u * i, 32);
        if (i % 7 == 2) MemorySim_SetHardwareWatchpoint(m, 0x20000000u + 0x100u * i, 4, WATCHPOINT_READ);
    }
    for (i = 0; i < 40; i++) MemorySim_SetHardwareBreakpoint(m, 0x20000300u + 2 * (i & 7), 2 + 2 * (i >> 3));
    if (clear) for (i = 0; i < 40; i++) MemorySim_ClearHardwareBreakpoint(m, 0x20000300u + 2 * (i & 7), 2 + 2 * (i >> 3));
    MARK(built);
    done();
}
