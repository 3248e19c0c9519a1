/* C04: an alias is another name for existing memory - same bytes, same protection, never beyond its target. */
//! entry: t_wide narrow without=mriPlatform.c without=CrashDebugCommandLine.c
#include "h.h"

#define T     0x20000000u
#define TS    10
#define OTHER 0x30000000u
#define AL    0x00000000u
#define AL2   0x60000000u

static uint8_t pat(uint32_t i) { return (uint8_t)(0x50 + i); }
static IMemory* build(void)
{
    IMemory* m = MemorySim_Init();
    uint32_t i;
    MemorySim_CreateRegion(m, OTHER, 4);
    MemorySim_CreateRegion(m, T, TS);
    MemorySim_CreateRegion(m, T + TS, 4);
    { uint8_t* p = MemorySim_MapSimulatedAddressToHostAddressForWrite(m, T, TS);
      for (i = 0; i < TS; i++) p[i] = pat(i); }
    return m;
}
static int read8(IMemory* m, uint32_t a, uint8_t* p)
{
    int code = 0;
    CATCHING(code, *p = IMemory_Read8(m, a));
    return code;
}
/* alias of [T+off, +size): i-th byte is the i-th byte of the target, clamped to the target's end */
static void check_window(IMemory* m, uint32_t alias, uint32_t off, uint32_t size)
{
    uint32_t eff = size < TS - off ? size : TS - off, i;
    uint8_t b = 0;
    int code = 0;
    { const uint8_t* p = MemorySim_MapSimulatedAddressToHostAddressForRead(m, alias, eff);
      for (i = 0; i < eff; i++) OBLIGE(p[i] == pat(off + i)); }
    OBLIGE(read8(m, alias, &b) == 0 && b == pat(off));
    OBLIGE(read8(m, alias + eff - 1, &b) == 0 && b == pat(off + eff - 1));
    CATCHING(code, b = IMemory_Read8(m, alias + any_u32(eff, 0x1000)));   /* nothing is mapped past the window */
    OBLIGE(code == busErrorException);
    if (eff >= 2) {
        code = 0;
        CATCHING(code, IMemory_Read16(m, alias + eff - 1));
        OBLIGE(code == busErrorException);
        code = 0;
        CATCHING(code, IMemory_Read16(m, alias + eff - 2));
        OBLIGE(code == 0);
    }
}
/* every offset and width through windows of every size and place in the target */
void t_window(void)
{
    IMemory* m = build();
    uint32_t off = any_u32(0, TS - 1), size;
    /*@ split off; */
    { PICK(big, 2);
      size = big ? any_u32(TS + 1, TS + 2) : any_u32(1, TS); }
    /*@ split size; */
    MemorySim_CreateAlias(m, AL, T + off, size);
    check_window(m, AL, off, size);
    MARK(window);
}
/* writes through the alias change the target and the other way round */
void t_write(void)
{
    IMemory* m = build();
    PICK(w, 3);
    PICK(dir, 2);
    uint32_t size = 1u << w, off = any_u32(0, TS - 4), at, from, to, i;
    uint32_t v = 0xC3D2E1F0u, got = 0;
    /*@ split off; */
    at = any_u32(0, TS - off - size);
    /*@ split at; */
    MemorySim_CreateAlias(m, AL, T + off, TS);
    from = dir ? AL + at : T + off + at;
    to = dir ? T + off + at : AL + at;
    if (w == 0) { IMemory_Write8(m, from, (uint8_t)v); got = IMemory_Read8(m, to); OBLIGE(got == (v & 0xFF)); }
    else if (w == 1) { IMemory_Write16(m, from, (uint16_t)v); got = IMemory_Read16(m, to); OBLIGE(got == (v & 0xFFFF)); }
    else { IMemory_Write32(m, from, v); got = IMemory_Read32(m, to); OBLIGE(got == v); }
    { const uint8_t* p = MemorySim_MapSimulatedAddressToHostAddressForRead(m, T, TS);
      for (i = 0; i < TS; i++)
        if (i < off + at || i >= off + at + size)
            OBLIGE(p[i] == pat(i)); }
    OBLIGE(IMemory_Read32(m, OTHER) == 0 && IMemory_Read32(m, T + TS) == 0);
    MARK(seen);
}
/* alias of memory that is not there is refused and leaves no trace */
void t_unmapped(void)
{
    IMemory* m = build();
    PICK(k, 3);
    static const uint32_t lo[3] = {0, OTHER + 4, T + TS + 4}, hi[3] = {T - 1, 0xFFFFFFFFu, OTHER - 1};
    int code = 0, live = mdl_live_allocs;
    uint8_t b = 0;
    CATCHING(code, MemorySim_CreateAlias(m, AL2, any_u32(lo[k], hi[k]), any_u32(1, 100)));
    OBLIGE(code == busErrorException);
    OBLIGE(mdl_live_allocs == live);
    code = 0;
    CATCHING(code, b = IMemory_Read8(m, AL2));
    OBLIGE(code == busErrorException);
    OBLIGE(IMemory_Read8(m, T) == pat(0));
    MARK(refused);
}
/* an alias made onto an alias reaches the same memory, and stays inside it */
void t_alias_of_alias(void)
{
    IMemory* m = build();
    uint32_t off1 = any_u32(0, TS - 1), off2, n1;
    /*@ split off1; */
    n1 = TS - off1;
    off2 = any_u32(0, n1 - 1);
    /*@ split off2; */
    MemorySim_CreateAlias(m, AL, T + off1, TS);
    PICK(big, 2);
    MemorySim_CreateAlias(m, AL2, AL + off2, big ? 4 * TS : n1 - off2);
    check_window(m, AL2, off1 + off2, big ? 4 * TS : n1 - off2);
    if (n1 - off2 >= 1) {
        IMemory_Write8(m, AL2 + (n1 - off2 - 1), 0x99);
        OBLIGE(IMemory_Read8(m, T + TS - 1) == 0x99);
    }
    MARK(window);
}
/* protection is that of the target, whether it was protected before or after */
void t_protection(void)
{
    IMemory* m = build();
    PICK(when, 3);
    int code = 0;
    uint32_t at = any_u32(0, 7);
    if (when == 1) MemorySim_MakeRegionReadOnly(m, T);
    MemorySim_CreateAlias(m, AL, T + 2, 8);
    if (when == 2) MemorySim_MakeRegionReadOnly(m, AL + 3);        /* via the alias: protects the target */
    CATCHING(code, IMemory_Write8(m, AL + at, 1));
    if (when == 0) { OBLIGE(code == 0); MARK(writable); }
    else {
        OBLIGE(code == busErrorException);
        code = 0;
        CATCHING(code, IMemory_Write8(m, T + at, 1));
        OBLIGE(code == busErrorException);
        MARK(protected);
    }
    code = 0;
    CATCHING(code, IMemory_Write8(m, OTHER, 1));
    OBLIGE(code == 0);
}
/* host mappings through an alias */
void t_map(void)
{
    IMemory* m = build();
    uint32_t off = any_u32(0, TS - 1), at, room;
    int code = 0;
    const uint8_t* p = NULL;
    PICK(fits, 2);
    /*@ split off; */
    at = any_u32(0, TS - 1 - off);
    /*@ split at; */
    room = TS - off - at;
    MemorySim_CreateAlias(m, AL, T + off, TS);
    CATCHING(code, p = MemorySim_MapSimulatedAddressToHostAddressForRead(m, AL + at, fits ? room : any_u32(room + 1, 0xFFFFFFFF)));
    if (fits) { OBLIGE(code == 0 && p[0] == pat(off + at) && p[room - 1] == pat(TS - 1)); MARK(mapped); }
    else { OBLIGE(code == busErrorException); MARK(refused); }
}
/* aliases of any place and size: no address, size or offset is cut to fewer bits */
void t_wide(void)
{
    IMemory* m = MemorySim_Init();
    uint32_t a = any_u32(0, 0xFFFFFFFFu);
    int code = 0;
    CATCHING(code, MemorySim_CreateRegion(m, any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu)));
    CATCHING(code, MemorySim_CreateAlias(m, any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu)));
    CATCHING(code, MemorySim_CreateAlias(m, any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu)));
    CATCHING(code, IMemory_Read32(m, a));
    CATCHING(code, IMemory_Write8(m, a, 1));
}
