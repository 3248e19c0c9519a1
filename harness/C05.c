/* C05: break and watchpoints trigger exactly on the accesses they cover, whatever was set and cleared before. */
//! entry: t_wide narrow without=mriPlatform.c without=CrashDebugCommandLine.c
#include "h.h"

#define N 16
static const uint32_t bases[3] = {0x20000000u, 0x00000000u, 0xFFFFFFF0u};   /* the last ends at the top of memory */
#define OTHER 0x60000000u
#define ALIAS 0x50000000u

typedef struct { int type; uint32_t off, size; int set; } W;     /* type 0: breakpoint */

static IMemory* build(uint32_t base)
{
    IMemory* m = MemorySim_Init();
    MemorySim_CreateRegion(m, OTHER, N);
    MemorySim_CreateRegion(m, base, N);
    return m;
}
static void set(IMemory* m, uint32_t base, const W* w)
{
    if (w->type == 0) MemorySim_SetHardwareBreakpoint(m, base + w->off, w->size);
    else MemorySim_SetHardwareWatchpoint(m, base + w->off, w->size, (WatchpointType)w->type);
}
static void clr(IMemory* m, uint32_t base, const W* w)
{
    if (w->type == 0) MemorySim_ClearHardwareBreakpoint(m, base + w->off, w->size);
    else MemorySim_ClearHardwareWatchpoint(m, base + w->off, w->size, (WatchpointType)w->type);
}
/* one access of every kind at every offset of the region, compared with what the list w[0..n-1] calls for */
static void probe(IMemory* m, uint32_t base, const W* w, int n)
{
    PICK(op, 6);
    static const uint32_t sizes[6] = {4, 2, 1, 4, 2, 1};
    uint32_t s = sizes[op], off = any_u32(0, N - s);
    int code = 0, hit = 0, brk = 0, i, seen;
    /*@ split off; */
    for (i = 0; i < n; i++) {
        if (!w[i].set || off < w[i].off || off + s > w[i].off + w[i].size) continue;
        if (w[i].type == 0) brk |= op == 1;
        else hit |= (w[i].type & (op < 3 ? WATCHPOINT_READ : WATCHPOINT_WRITE)) != 0;
    }
    switch (op) {
    case 0: CATCHING(code, IMemory_Read32(m, base + off)); break;
    case 1: CATCHING(code, IMemory_Read16(m, base + off)); break;
    case 2: CATCHING(code, IMemory_Read8(m, base + off)); break;
    case 3: CATCHING(code, IMemory_Write32(m, base + off, 1)); break;
    case 4: CATCHING(code, IMemory_Write16(m, base + off, 1)); break;
    case 5: CATCHING(code, IMemory_Write8(m, base + off, 1)); break;
    }
    seen = MemorySim_WasWatchpointEncountered(m);
    if (brk) { OBLIGE(code == hardwareBreakpointException); MARK(break); }
    else { OBLIGE(code == noException); OBLIGE((seen != 0) == hit); if (hit) MARK(watch); else MARK(quiet); }
    OBLIGE(MemorySim_WasWatchpointEncountered(m) == 0);      /* reported once */
}
/* a single point of every type, size and place */
void t_single(void)
{
    PICK(b, 3);
    PICK(type, 4);
    PICK(k, 5);
    static const W shapes[5] = { {0, 0, 2, 1}, {0, 8, 4, 1}, {0, 12, 4, 1}, {0, 5, 1, 1}, {0, 8, 8, 1} };
    W w = shapes[k];
    IMemory* m = build(bases[b]);
    w.type = type;
    set(m, bases[b], &w);
    probe(m, bases[b], &w, 1);
}
/* points and hits do not outlive the memory they belong to */
void t_fresh(void)
{
    PICK(b, 3);
    PICK(type, 4);
    static const W shape = {0, 4, 4, 1};
    W w = shape;
    int code = 0;
    IMemory* m = build(bases[b]);
    w.type = type;
    set(m, bases[b], &w);
    if (type == WATCHPOINT_WRITE) IMemory_Write16(m, bases[b] + 4, 1);
    else CATCHING(code, IMemory_Read16(m, bases[b] + 4));
    OBLIGE((code != 0) == (type == 0));
    MemorySim_Uninit(m);
    m = build(bases[b]);
    OBLIGE(MemorySim_WasWatchpointEncountered(m) == 0);
    IMemory_Write32(m, bases[b] + 4, 0x55667788u);
    OBLIGE(IMemory_Read16(m, bases[b] + 4) == 0x7788);
    OBLIGE(MemorySim_WasWatchpointEncountered(m) == 0);
    MARK(silent);
}
/* several points, set in every order, some cleared again (each twice) */
static const W many[4] = { {0, 4, 2, 0}, {WATCHPOINT_WRITE, 4, 4, 0}, {WATCHPOINT_READ, 12, 4, 0}, {WATCHPOINT_READ_WRITE, 4, 8, 0} };
void t_many(void)
{
    PICK(p, 6);
    PICK(cleared, 5);
    static const int orders[6][4] = { {0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}, {1, 3, 0, 2}, {3, 0, 2, 1}, {2, 1, 0, 3} };
    W w[4] = { many[0], many[1], many[2], many[3] };
    uint32_t base = bases[0];
    IMemory* m = build(base);
    int i;
    for (i = 0; i < 4; i++) { set(m, base, &w[orders[p][i]]); w[orders[p][i]].set = 1; }
    if (cleared < 4) { clr(m, base, &w[cleared]); clr(m, base, &w[cleared]); w[cleared].set = 0; }
    probe(m, base, w, 4);
}
/* any history of three set/clear steps over three points */
void t_history(void)
{
    static const W pts[3] = { {0, 8, 2, 0}, {WATCHPOINT_READ, 8, 2, 0}, {WATCHPOINT_WRITE, 6, 4, 0} };
    W w[3] = { pts[0], pts[1], pts[2] };
    PICK(s1, 6); PICK(s2, 6); PICK(s3, 6);
    int steps[3] = {s1, s2, s3}, i, code = 0, brk;
    uint32_t base = bases[0];
    IMemory* m = build(base);
    PICK(op, 3);
    for (i = 0; i < 3; i++) {
        W* x = &w[steps[i] >> 1];
        if (steps[i] & 1) { clr(m, base, x); x->set = 0; } else { set(m, base, x); x->set = 1; }
    }
    brk = op == 0 && w[0].set;
    switch (op) {
    case 0: CATCHING(code, IMemory_Read16(m, base + 8)); break;
    case 1: CATCHING(code, IMemory_Write16(m, base + 8, 7)); break;
    case 2: CATCHING(code, IMemory_Read8(m, base + 9)); break;
    }
    OBLIGE((code == hardwareBreakpointException) == brk);
    if (brk) MARK(break);
    else {
        int hit = op == 1 ? w[2].set : w[1].set;
        OBLIGE((MemorySim_WasWatchpointEncountered(m) != 0) == hit);
        if (hit) MARK(watch); else MARK(quiet);
    }
}
/* setting one twice needs one clear; clearing one that was never set changes nothing */
void t_idempotent(void)
{
    PICK(type, 4);
    PICK(mode, 4);
    W w[2] = { {0, 8, 4, 0}, {WATCHPOINT_READ_WRITE, 12, 4, 1} };
    uint32_t base = bases[2];
    IMemory* m = build(base);
    w[0].type = type;
    set(m, base, &w[1]);
    switch (mode) {
    case 0: set(m, base, &w[0]); set(m, base, &w[0]); clr(m, base, &w[0]); break;
    case 1: clr(m, base, &w[0]); break;
    case 2: set(m, base, &w[0]); clr(m, base, &w[0]); set(m, base, &w[0]); w[0].set = 1; break;
    case 3: { W other = w[0]; set(m, base, &w[0]); w[0].set = 1; other.size = 2; clr(m, base, &other); other.size = 4; other.off = 4; clr(m, base, &other); other = w[0]; other.type = (type + 1) & 3; clr(m, base, &other); break; }
    }
    probe(m, base, w, 2);
}
/* points in one region never concern another; points and accesses meet through aliases */
void t_regions(void)
{
    PICK(mode, 3);
    PICK(type, 4);
    IMemory* m = build(bases[0]);
    W w = {type, 8, 4, 1};
    w.type = type;
    MemorySim_CreateAlias(m, ALIAS, bases[0], N);
    if (mode == 0) { set(m, bases[0], &w); w.set = 0; probe(m, OTHER, &w, 1); }
    else if (mode == 1) { set(m, bases[0], &w); probe(m, ALIAS, &w, 1); }
    else { set(m, ALIAS, &w); probe(m, bases[0], &w, 1); }
}
/* loading, host mappings and refused accesses trigger nothing */
void t_silent(void)
{
    static const uint8_t img[N] = {1, 2, 3};
    IMemory* m = build(bases[0]);
    PICK(mode, 4);
    int code = 0;
    W w = {WATCHPOINT_READ_WRITE, 0, N, 1}, b = {0, 0, N, 1};
    set(m, bases[0], &w);
    set(m, bases[0], &b);
    if (mode == 0) CATCHING(code, MemorySim_LoadFromFlashImage(m, bases[0], img, N));
    else if (mode == 1) CATCHING(code, MemorySim_MapSimulatedAddressToHostAddressForRead(m, bases[0], any_u32(1, N)));
    else if (mode == 2) CATCHING(code, MemorySim_MapSimulatedAddressToHostAddressForWrite(m, bases[0], any_u32(1, N)));
    else { MemorySim_MakeRegionReadOnly(m, bases[0]); CATCHING(code, IMemory_Write32(m, bases[0], 1)); OBLIGE(code == busErrorException); code = 0; }
    OBLIGE(code == 0);
    OBLIGE(MemorySim_WasWatchpointEncountered(m) == 0);
    MARK(silent);
}
/* points outside memory are refused */
void t_refused(void)
{
    IMemory* m = build(bases[0]);
    PICK(type, 4);
    PICK(clear, 2);
    PICK(k, 3);
    static const uint32_t lo[3] = {0, 0x20000000u + N - 3, OTHER + N}, hi[3] = {0x1FFFFFFFu, OTHER - 1, 0xFFFFFFFFu};
    uint32_t a = any_u32(lo[k], hi[k]);
    int code = 0;
    if (type == 0) { if (clear) CATCHING(code, MemorySim_ClearHardwareBreakpoint(m, a, 4)); else CATCHING(code, MemorySim_SetHardwareBreakpoint(m, a, 4)); }
    else { if (clear) CATCHING(code, MemorySim_ClearHardwareWatchpoint(m, a, 4, (WatchpointType)type)); else CATCHING(code, MemorySim_SetHardwareWatchpoint(m, a, 4, (WatchpointType)type)); }
    OBLIGE(code == busErrorException);
    MARK(refused);
}
/* every ordered pair of overlapping, nested and equally placed points, against every access */
static const W shapes[9] = { {0, 8, 1, 1}, {0, 8, 2, 1}, {0, 8, 4, 1}, {0, 8, 8, 1}, {0, 9, 2, 1}, {0, 4, 8, 1}, {0, 7, 1, 1}, {0, 6, 4, 1}, {0, 0, 16, 1} };
static void pairs(int j, int k, int mix, int op)
{
    static const int t0[3] = {WATCHPOINT_WRITE, 0, WATCHPOINT_READ}, t1[3] = {WATCHPOINT_WRITE, WATCHPOINT_READ_WRITE, 0};
    W w[2] = { shapes[j], shapes[k] };
    uint32_t base = bases[0];
    IMemory* m = build(base);
    static const uint32_t sizes[3] = {1, 2, 4};
    uint32_t s = sizes[op], off;
    int code = 0, hit = 0, brk = 0, i;
    int wr = mix == 0;
    w[0].type = t0[mix]; w[1].type = t1[mix];
    set(m, base, &w[0]); set(m, base, &w[1]);
    for (off = 7; off <= 10; off++) {
        hit = brk = code = 0;
        for (i = 0; i < 2; i++) {
            if (off < w[i].off || off + s > w[i].off + w[i].size) continue;
            if (w[i].type == 0) brk |= !wr && s == 2;
            else hit |= (w[i].type & (wr ? WATCHPOINT_WRITE : WATCHPOINT_READ)) != 0;
        }
        if (wr) {
            if (s == 1) CATCHING(code, IMemory_Write8(m, base + off, 1));
            else if (s == 2) CATCHING(code, IMemory_Write16(m, base + off, 1));
            else CATCHING(code, IMemory_Write32(m, base + off, 1));
        } else {
            if (s == 1) CATCHING(code, IMemory_Read8(m, base + off));
            else if (s == 2) CATCHING(code, IMemory_Read16(m, base + off));
            else CATCHING(code, IMemory_Read32(m, base + off));
        }
        OBLIGE(code == (brk ? hardwareBreakpointException : noException));
        i = MemorySim_WasWatchpointEncountered(m);
        if (!brk) OBLIGE((i != 0) == hit);
    }
    MARK(pair);
}
/* every pair of points of every kind and overlap */
void t_pairs(void)
{ PICK(j, 6); PICK(k, 6); PICK(op, 3); pairs(j, k, 0, op); }
/* pairs over more places and sizes */
void t_pairs_more(void) // thorough
{ PICK(j, 9); PICK(k, 9); PICK(op, 3); PICK(mix, 3); pairs(j, k, mix, op); }
/* more points than any small count: all keep working, and clearing them all leaves none */
void t_crowd(void)
{
    IMemory* m = MemorySim_Init();
    uint32_t i, base = bases[0];
    PICK(order, 2);
    PICK(n, 2);
    uint32_t count = n ? 70 : 3;
    MemorySim_CreateRegion(m, base, 300);
    for (i = 0; i < count; i++) MemorySim_SetHardwareWatchpoint(m, base + 4 * (order ? count - 1 - i : i), 4, WATCHPOINT_WRITE);
    for (i = 0; i < count + 2; i++) {
        IMemory_Write32(m, base + 4 * i, 1);
        OBLIGE((MemorySim_WasWatchpointEncountered(m) != 0) == (i < count));
    }
    for (i = 0; i < count; i += 2) MemorySim_ClearHardwareWatchpoint(m, base + 4 * i, 4, WATCHPOINT_WRITE);
    for (i = 0; i < count; i++) {
        IMemory_Write8(m, base + 4 * i + 3, 1);
        OBLIGE((MemorySim_WasWatchpointEncountered(m) != 0) == (int)(i & 1));
    }
    for (i = 0; i < count; i++) MemorySim_ClearHardwareWatchpoint(m, base + 4 * i, 4, WATCHPOINT_WRITE);
    for (i = 0; i < count; i++) IMemory_Write16(m, base + 4 * i, 1);
    OBLIGE(MemorySim_WasWatchpointEncountered(m) == 0);
    MARK(crowd);
}
/* any number of points of any place and size: no address, size or count is cut to fewer bits */
void t_wide(void)
{
    IMemory* m = MemorySim_Init();
    int code = 0;
    CATCHING(code, MemorySim_CreateRegion(m, any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu)));
    while (any_bool()) {
        CATCHING(code, MemorySim_SetHardwareBreakpoint(m, any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu)));
        CATCHING(code, MemorySim_SetHardwareWatchpoint(m, any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu), WATCHPOINT_READ_WRITE));
        CATCHING(code, IMemory_Read32(m, any_u32(0, 0xFFFFFFFFu)));
        CATCHING(code, MemorySim_ClearHardwareBreakpoint(m, any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu)));
        CATCHING(code, MemorySim_ClearHardwareWatchpoint(m, any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu), WATCHPOINT_READ_WRITE));
    }
    MemorySim_WasWatchpointEncountered(m);
}
