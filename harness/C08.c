/* C08: memory created from a raw flash image: flash at its base with every byte, RAM below the initial stack pointer,
   and all or nothing when it cannot be done. */
//! entry: t_wide narrow without=mriPlatform.c without=CrashDebugCommandLine.c
#include "h.h"

#define SP 0x10000008u
static uint8_t img[16] = { 0x08, 0x00, 0x00, 0x10, 0xA4, 0xA5, 0xA6, 0xA7, 0xA8, 0xA9, 0xAA, 0xAB, 0xAC, 0xAD, 0xAE, 0xAF };

static int mapped(IMemory* m, uint32_t a)
{
    int code = 0;
    CATCHING(code, MemorySim_MapSimulatedAddressToHostAddressForRead(m, a, 1));
    return code == 0;
}
/* images of every small size and any contents: read-only, exact */
void t_load(void)
{
    IMemory* m = MemorySim_Init();
    uint32_t n = any_u32(4, 16), i;
    int code = 0;
    const uint8_t* p;
    /*@ split n; */
    CATCHING(code, MemorySim_CreateRegionsFromFlashImage(m, img, n));
    OBLIGE(code == 0);
    p = MemorySim_MapSimulatedAddressToHostAddressForRead(m, 0, n);
    for (i = 0; i < n; i++) OBLIGE(p[i] == img[i]);
    OBLIGE(!mapped(m, any_u32(n, 0x0FFFFFFFu)));
    OBLIGE(!mapped(m, any_u32(SP, 0xFFFFFFFFu)));
    OBLIGE(IMemory_Read32(m, 0x10000000u) == 0 && IMemory_Read32(m, SP - 4) == 0);
    IMemory_Write32(m, SP - 4, 7);
    OBLIGE(IMemory_Read32(m, SP - 4) == 7);
    CATCHING(code, IMemory_Write8(m, any_u32(0, n - 1), 1));
    OBLIGE(code == busErrorException);
    MARK(loaded);
    MemorySim_Uninit(m);
    OBLIGE(mdl_live_allocs == 0);
}
/* the RAM reaches from the start of the stack pointer's 256 MB block up to the stack pointer */
void t_ram(void)
{
    static const uint32_t base[4] = {0x10000000u, 0x20000000u, 0x30000000u, 0xF0000000u};
    IMemory* m = MemorySim_Init();
    PICK(b, 4);
    PICK(k, 4);
    static const uint32_t sizes[4] = {4, 0x20, 0x1000, 0x10001};
    uint32_t sp = base[b] + sizes[k];
    int code = 0;
    img[0] = (uint8_t)sp; img[1] = (uint8_t)(sp >> 8); img[2] = (uint8_t)(sp >> 16); img[3] = (uint8_t)(sp >> 24);
    MemorySim_CreateRegionsFromFlashImage(m, img, 8);
    OBLIGE(mapped(m, base[b]));
    OBLIGE(mapped(m, sp - 1));
    OBLIGE(!mapped(m, sp));
    OBLIGE(!mapped(m, base[b] - 1));
    CATCHING(code, MemorySim_MapSimulatedAddressToHostAddressForWrite(m, base[b], sizes[k]));
    OBLIGE(code == 0);
    MARK(ram);
}
/* too short for an initial stack pointer: refused, whatever the bytes */
void t_short(void)
{
    IMemory* m = MemorySim_Init();
    int code = 0;
    uint32_t n = any_u32(0, 3);
    static uint8_t any[4];
    any_bytes(any, 4);
    CATCHING(code, MemorySim_CreateRegionsFromFlashImage(m, any, n));
    OBLIGE(code == bufferOverrunException);
    OBLIGE(mdl_live_allocs == 0);
    OBLIGE(!mapped(m, any_u32(0, 0xFFFFFFFFu)));
    MARK(refused);
}
/* an allocation failure at any step is reported and leaves the memory as it was before */
void t_rollback(void)
{
    PICK(before, 3);
    PICK(fail, 5);
    IMemory* m = MemorySim_Init();
    int code = 0, i, live;
    for (i = 0; i < before; i++) {
        MemorySim_CreateRegion(m, 0x40000000u + 0x100u * (uint32_t)i, 4);
        IMemory_Write32(m, 0x40000000u + 0x100u * (uint32_t)i, 0x11u + (uint32_t)i);
    }
    live = mdl_live_allocs;
    mdl_alloc_fail_at = mdl_alloc_count + 1 + fail;
    CATCHING(code, MemorySim_CreateRegionsFromFlashImage(m, img, 8));
    OBLIGE(code == outOfMemoryException);
    OBLIGE(mdl_live_allocs == live);
    OBLIGE(!mapped(m, 0) && !mapped(m, 4) && !mapped(m, 0x10000000u));
    for (i = 0; i < before; i++)
        OBLIGE(IMemory_Read32(m, 0x40000000u + 0x100u * (uint32_t)i) == 0x11u + (uint32_t)i);
    MARK(rolled_back);
    /* and it can be done afterwards */
    mdl_alloc_fail_at = 0;
    code = 0;
    CATCHING(code, MemorySim_CreateRegionsFromFlashImage(m, img, 8));
    OBLIGE(code == 0);
    OBLIGE(IMemory_Read8(m, 4) == 0xA4 && IMemory_Read32(m, 0x10000004u) == 0);
    for (i = 0; i < before; i++)
        OBLIGE(IMemory_Read32(m, 0x40000000u + 0x100u * (uint32_t)i) == 0x11u + (uint32_t)i);
    MemorySim_CreateRegion(m, 0x50000000u, 4);
    OBLIGE(mapped(m, 0x50000003u));
    MARK(retried);
    MemorySim_Uninit(m);
    OBLIGE(mdl_live_allocs == 0);
}
/* creating a single region or alias that cannot be had changes nothing */
void t_region_fails(void)
{
    PICK(kind, 3);
    PICK(fail, 2);
    IMemory* m = MemorySim_Init();
    int code = 0, live;
    MemorySim_CreateRegion(m, 0x40000000u, 4);
    live = mdl_live_allocs;
    mdl_alloc_fail_at = mdl_alloc_count + 1 + fail;
    if (kind == 0) CATCHING(code, MemorySim_CreateRegion(m, 0x50000000u, 4));
    else if (kind == 1) CATCHING(code, MemorySim_CreateAlias(m, 0x50000000u, 0x40000000u, 4));
    else { mdl_alloc_fail_at = mdl_alloc_count + 1; CATCHING(code, MemorySim_SetHardwareWatchpoint(m, 0x40000000u, 4, WATCHPOINT_READ)); }
    OBLIGE(code == outOfMemoryException);
    OBLIGE(mdl_live_allocs == live);
    OBLIGE(!mapped(m, 0x50000000u));
    IMemory_Read32(m, 0x40000000u);
    OBLIGE(MemorySim_WasWatchpointEncountered(m) == 0);
    MARK(refused);
    MemorySim_CreateRegion(m, 0x60000000u, 4);
    OBLIGE(mapped(m, 0x60000000u) && mapped(m, 0x40000000u));
    MemorySim_Uninit(m);
    OBLIGE(mdl_live_allocs == 0);
}
/* images of any size with any initial stack pointer: no address or size is cut to fewer bits */
static uint8_t wide_image[0x20000];
void t_wide(void)
{
    IMemory* m = MemorySim_Init();
    int code = 0;
    any_bytes(wide_image, sizeof(wide_image));
    CATCHING(code, MemorySim_CreateRegionsFromFlashImage(m, wide_image, any_u32(0, sizeof(wide_image))));
}
