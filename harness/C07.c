/* C07: read-only regions count how often each halfword was fetched with a 16-bit read, and nothing else counts. */
//! entry: t_wide narrow without=mriPlatform.c without=CrashDebugCommandLine.c
#include "h.h"

#define F 0x00000000u
#define N 12
#define RAM 0x10000000u

static IMemory* build(void)
{
    IMemory* m = MemorySim_Init();
    MemorySim_CreateRegion(m, RAM, 4);
    MemorySim_CreateRegion(m, F, N);
    MemorySim_MakeRegionReadOnly(m, F);
    return m;
}
static void counts(IMemory* m, const uint32_t* e)
{
    uint32_t i;
    for (i = 0; i < N / 2; i++) OBLIGE(MemorySim_GetFlashReadCount(m, F + 2 * i) == e[i]);
    for (i = 0; i + 1 < N / 2; i++) OBLIGE(MemorySim_GetFlashReadCount(m, F + 2 * i + 1) == e[i]);
}
/* n fetches of one halfword, then fetches of another */
void t_fetch(void)
{
    IMemory* m = build();
    uint32_t e[N / 2] = {0}, a = any_u32(0, N / 2 - 1), b = any_u32(0, N / 2 - 1);
    int i;
    PICK(n, 4);
    /*@ split a; */
    /*@ split b; */
    for (i = 0; i < n; i++) { IMemory_Read16(m, F + 2 * a); e[a]++; }
    IMemory_Read16(m, F + 2 * b); e[b]++;
    counts(m, e);
    MARK(counted);
}
/* reads of other widths, loads, mappings, refused accesses and RAM traffic do not count */
void t_not_counted(void)
{
    static const uint8_t img[N] = {9, 8, 7};
    static const uint32_t zero[N / 2];
    IMemory* m = build();
    PICK(op, 8);
    int code = 0;
    uint32_t a = any_u32(0, N - 4);
    switch (op) {
    case 0: IMemory_Read32(m, F + a); break;
    case 1: IMemory_Read8(m, F + a); break;
    case 2: CATCHING(code, IMemory_Write16(m, F + a, 1)); OBLIGE(code == busErrorException); break;
    case 3: MemorySim_LoadFromFlashImage(m, F, img, N); break;
    case 4: MemorySim_MapSimulatedAddressToHostAddressForRead(m, F + a, 4); break;
    case 5: IMemory_Read16(m, RAM + 2); break;
    case 6: CATCHING(code, IMemory_Read16(m, F + N - 1)); OBLIGE(code == busErrorException); break;
    case 7: IMemory_Write16(m, RAM, 5); break;
    }
    counts(m, zero);
    MARK(unchanged);
}
/* fetches through an alias count on the memory fetched */
void t_alias(void)
{
    IMemory* m = build();
    uint32_t e[N / 2] = {0}, a = any_u32(0, 3);
    /*@ split a; */
    MemorySim_CreateAlias(m, 0x40000000u, F + 4, 8);
    IMemory_Read16(m, 0x40000000u + 2 * a); e[2 + a]++;
    counts(m, e);
    OBLIGE(MemorySim_GetFlashReadCount(m, 0x40000000u + 2 * a) == 1);
    MARK(counted);
}
/* counts exist only for read-only memory */
void t_refused(void)
{
    IMemory* m = build();
    PICK(k, 3);
    static const uint32_t lo[3] = {N - 1, RAM, RAM + 3}, hi[3] = {RAM - 1, RAM + 2, 0xFFFFFFFFu};
    int code = 0;
    CATCHING(code, MemorySim_GetFlashReadCount(m, any_u32(lo[k], hi[k])));
    OBLIGE(code == busErrorException);
    MARK(refused);
}
/* regions of every (odd, tiny) size: a fetch and its count stay inside the bookkeeping */
void t_sizes(void)
{
    IMemory* m = MemorySim_Init();
    uint32_t sz = any_u32(1, 9), a;
    int code = 0;
    /*@ split sz; */
    MemorySim_CreateRegion(m, F, sz);
    MemorySim_MakeRegionReadOnly(m, F);
    if (sz == 1) {
        CATCHING(code, IMemory_Read16(m, F));
        OBLIGE(code == busErrorException);
    }
    else {
        a = any_u32(0, sz - 2);
        /*@ split a; */
        IMemory_Read16(m, F + a);
        OBLIGE(MemorySim_GetFlashReadCount(m, F + a) == 1);
        MARK(counted);
    }
}
/* flash of any size: no offset, count or size is cut to fewer bits */
void t_wide(void)
{
    IMemory* m = MemorySim_Init();
    uint32_t a = any_u32(0, 0xFFFFFFFFu);
    int code = 0, i;
    CATCHING(code, MemorySim_CreateRegion(m, any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu)));
    CATCHING(code, MemorySim_MakeRegionReadOnly(m, any_u32(0, 0xFFFFFFFFu)));
    for (i = 0; i < 1000000; i++) CATCHING(code, IMemory_Read16(m, a));
    CATCHING(code, MemorySim_GetFlashReadCount(m, a));
}
