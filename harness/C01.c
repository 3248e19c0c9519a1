/* C01: every access is either wholly inside one simulated region or raises a bus error. */
//! entry: t_wide narrow without=mriPlatform.c without=CrashDebugCommandLine.c
#include "h.h"

typedef struct { uint32_t base, size; } R;
#define NR 4
/* layouts: ordinary, touching address 0, ending at the top of the address space, tiny, adjacent */
static const R layouts[3][NR] = {
    { {0x00000000, 32}, {0x10000000, 16}, {0x20000000, 7}, {0xFFFFFFF0, 16} },
    { {0x00000003, 1},  {0x10000001, 9},  {0x1000000A, 6}, {0xFFFFFFFE, 2} },
    { {0x08000000, 64}, {0x20000000, 4},  {0x20000010, 4}, {0xFFFFFFFF, 1} },
};
static IMemory* build(int l)
{
    IMemory* m = MemorySim_Init();
    int i;
    for (i = 0; i < NR; i++)
        MemorySim_CreateRegion(m, layouts[l][i].base, layouts[l][i].size);
    return m;
}
/* Address classes for an access of s bytes.  For each region: inside, hanging over the end; plus each gap.
   Adjacent regions do not merge: an access must not span two of them. */
static uint32_t lo[3 * NR + 1], hi[3 * NR + 1]; static int inside[3 * NR + 1]; static int n;
static void add(uint64_t a, uint64_t b, int in) { if (a <= b) { lo[n] = (uint32_t)a; hi[n] = (uint32_t)b; inside[n] = in; n++; } }
static void classes(int l, uint32_t s)
{
    uint64_t next = 0; int i;
    n = 0;
    for (i = 0; i < NR; i++) {
        uint64_t b = layouts[l][i].base, e = b + layouts[l][i].size;
        if (b > 0 && next < b) add(next, b - 1, 0);
        if (layouts[l][i].size >= s) { add(b, e - s, 1); if (s > 1) add(e - s + 1, e - 1, 0); }
        else add(b, e - 1, 0);
        next = e;
    }
    if (next <= 0xFFFFFFFFull) add(next, 0xFFFFFFFFull, 0);
    /* the classes tile the whole 32-bit address space */
    { uint64_t at = 0; for (i = 0; i < n; i++) { OBLIGE(lo[i] == at); at = (uint64_t)hi[i] + 1; } OBLIGE(at == 0x100000000ull); }
}

/* every access of every kind at every address, classed by its distance to the regions; the classes tile the address space */
void t_access(void)
{
    PICK(l, 3);
    PICK(op, 6);
    static const uint32_t sizes[6] = {4, 2, 1, 4, 2, 1};
    IMemory* m = build(l);
    int code = 0;
    classes(l, sizes[op]);
    {
        int c = any_int(0, n - 1);
        /*@ split c; */
        uint32_t a = any_u32(lo[c], hi[c]);
        uint32_t v = any_u32(0, 0xFFFFFFFF);
        switch (op) {
        case 0: CATCHING(code, IMemory_Read32(m, a)); break;
        case 1: CATCHING(code, IMemory_Read16(m, a)); break;
        case 2: CATCHING(code, IMemory_Read8(m, a)); break;
        case 3: CATCHING(code, IMemory_Write32(m, a, v)); break;
        case 4: CATCHING(code, IMemory_Write16(m, a, (uint16_t)v)); break;
        case 5: CATCHING(code, IMemory_Write8(m, a, (uint8_t)v)); break;
        }
        if (inside[c]) { OBLIGE(code == noException); MARK(ok); }
        else           { OBLIGE(code == busErrorException); MARK(refused); }
    }
    MemorySim_Uninit(m);
}

/* Host mappings of any size: accepted iff [a, a+size) is inside one region; the bytes handed out exist. */
void t_map(void)
{
    PICK(l, 3);
    PICK(r, NR);
    PICK(write, 2);
    IMemory* m = build(l);
    uint32_t size = layouts[l][r].size;
    int k = any_int(0, (int)size - 1);
    /*@ split k; */
    PICK(fits, 2);
    uint32_t room = size - (uint32_t)k;
    uint32_t want = fits ? any_u32(1, room) : any_u32(room + 1, 0xFFFFFFFF);
    int code = 0;
    const uint8_t* p = NULL;
    if (write) CATCHING(code, p = MemorySim_MapSimulatedAddressToHostAddressForWrite(m, layouts[l][r].base + (uint32_t)k, want));
    else       CATCHING(code, p = MemorySim_MapSimulatedAddressToHostAddressForRead(m, layouts[l][r].base + (uint32_t)k, want));
    if (fits) {
        OBLIGE(code == noException);
        MARK(mapped);
        { uint8_t first = p[0], last = p[room - 1]; OBLIGE(first == 0 && last == 0); }
    }
    else { OBLIGE(code == busErrorException); MARK(refused); }
    MemorySim_Uninit(m);
}

/* No region at all: everything is refused. */
void t_empty(void)
{
    IMemory* m = MemorySim_Init();
    uint32_t a = any_u32(0, 0xFFFFFFFF);
    PICK(op, 6);
    int code = 0;
    switch (op) {
    case 0: CATCHING(code, IMemory_Read32(m, a)); break;
    case 1: CATCHING(code, IMemory_Read16(m, a)); break;
    case 2: CATCHING(code, IMemory_Read8(m, a)); break;
    case 3: CATCHING(code, IMemory_Write32(m, a, 1)); break;
    case 4: CATCHING(code, IMemory_Write16(m, a, 1)); break;
    case 5: CATCHING(code, IMemory_Write8(m, a, 1)); break;
    }
    OBLIGE(code == busErrorException);
    MARK(refused);
}
/* a region of any size at any address, accesses anywhere: no address, size or offset is cut to fewer bits */
void t_wide(void)
{
    IMemory* m = MemorySim_Init();
    uint32_t a = any_u32(0, 0xFFFFFFFFu);
    int code = 0;
    CATCHING(code, MemorySim_CreateRegion(m, any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu)));
    CATCHING(code, MemorySim_CreateRegion(m, any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu)));
    CATCHING(code, IMemory_Read32(m, a));
    CATCHING(code, IMemory_Read16(m, a));
    CATCHING(code, IMemory_Read8(m, a));
    CATCHING(code, IMemory_Write32(m, a, 1));
    CATCHING(code, IMemory_Write16(m, a, 1));
    CATCHING(code, IMemory_Write8(m, a, 1));
    CATCHING(code, MemorySim_MapSimulatedAddressToHostAddressForRead(m, a, any_u32(0, 0xFFFFFFFFu)));
    CATCHING(code, MemorySim_MapSimulatedAddressToHostAddressForWrite(m, a, any_u32(0, 0xFFFFFFFFu)));
}
