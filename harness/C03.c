/* C03: memory behaves as memory: fresh regions are zero, a read returns the last value written, little-endian,
   and a write changes exactly the bytes it addresses. */
#include "h.h"

#define A 0x10000000u
#define B 0x20000000u
#define N 12

static uint8_t pat(int r, uint32_t i) { return (uint8_t)(r * 0x40 + i + 1); }

static IMemory* build(int filled)
{
    IMemory* m = MemorySim_Init();
    uint32_t i;
    MemorySim_CreateRegion(m, B, N);
    MemorySim_CreateRegion(m, A, N);
    if (filled)
        for (i = 0; i < N; i++) {
            IMemory_Write8(m, A + i, pat(0, i));
            IMemory_Write8(m, B + i, pat(1, i));
        }
    return m;
}
/* everything outside [off, off + size) of region base is as the pattern left it */
static void others(IMemory* m, uint32_t base, uint32_t off, uint32_t size)
{
    uint32_t i;
    for (i = 0; i < N; i++) {
        uint8_t a = IMemory_Read8(m, A + i), b = IMemory_Read8(m, B + i);
        if (!(base == A && i >= off && i < off + size)) OBLIGE(a == pat(0, i));
        if (!(base == B && i >= off && i < off + size)) OBLIGE(b == pat(1, i));
    }
}
/* a write of any value is read back, at every offset and width, and touches nothing else: each byte of the value in turn is confined
   to a range, the ones below it are anything */
void t_write_read(void)
{
    PICK(w, 3);
    PICK(r, 2);
    PICK(range, 3);
    PICK(pos, 4);
    static const uint32_t lo[3] = {0, 1, 0xFF}, hi[3] = {0, 0xFE, 0xFF}, top[4] = {0xC37F8000u, 0x81FE0000u, 0x7F000000u, 0};
    uint32_t size = 1u << w, base = r ? B : A;
    if ((uint32_t)pos >= size) return;
    IMemory* m = build(1);
    uint32_t off = any_u32(0, N - size), v, got = 0;
    uint32_t mask = w == 0 ? 0xFF : w == 1 ? 0xFFFF : 0xFFFFFFFFu, least = (top[pos] & mask) + (lo[range] << (8 * pos)), most = (top[pos] & mask) + (hi[range] << (8 * pos)) + ((1u << (8 * pos)) - 1);
    /*@ split off; */
    v = any_u32(least, most);
    if (w == 0) { IMemory_Write8(m, base + off, (uint8_t)v); got = IMemory_Read8(m, base + off); }
    else if (w == 1) { IMemory_Write16(m, base + off, (uint16_t)v); got = IMemory_Read16(m, base + off); }
    else { IMemory_Write32(m, base + off, v); got = IMemory_Read32(m, base + off); }
    OBLIGE(got >= least && got <= most);
    MARK(readback);
    others(m, base, off, size);
}
/* byte order: whatever width writes and whatever width reads */
void t_endian(void)
{
    static const uint32_t vals[4] = {0x44332211u, 0xFF008000u, 0x00FF0080u, 0x80000001u};
    PICK(k, 4);
    PICK(w, 3);
    uint32_t v = vals[k];
    IMemory* m = build(1);
    uint32_t off = any_u32(0, N - 4);
    /*@ split off; */
    if (w == 0) { int i; for (i = 0; i < 4; i++) IMemory_Write8(m, A + off + (uint32_t)i, (uint8_t)(v >> (8 * i))); }
    else if (w == 1) { IMemory_Write16(m, A + off, (uint16_t)v); IMemory_Write16(m, A + off + 2, (uint16_t)(v >> 16)); }
    else IMemory_Write32(m, A + off, v);
    OBLIGE(IMemory_Read32(m, A + off) == v);
    OBLIGE(IMemory_Read16(m, A + off) == (v & 0xFFFF));
    OBLIGE(IMemory_Read16(m, A + off + 1) == ((v >> 8) & 0xFFFF));
    OBLIGE(IMemory_Read16(m, A + off + 2) == (v >> 16));
    OBLIGE(IMemory_Read8(m, A + off) == (v & 0xFF));
    OBLIGE(IMemory_Read8(m, A + off + 1) == ((v >> 8) & 0xFF));
    OBLIGE(IMemory_Read8(m, A + off + 2) == ((v >> 16) & 0xFF));
    OBLIGE(IMemory_Read8(m, A + off + 3) == (v >> 24));
    { const uint8_t* p = MemorySim_MapSimulatedAddressToHostAddressForRead(m, A + off, 4);
      OBLIGE(p[0] == (v & 0xFF) && p[1] == ((v >> 8) & 0xFF) && p[2] == ((v >> 16) & 0xFF) && p[3] == (v >> 24)); }
    MARK(order);
    others(m, A, off, 4);
}
/* host mappings are views of the same memory */
void t_mapping(void)
{
    PICK(r, 2);
    uint32_t base = r ? B : A;
    IMemory* m = build(1);
    uint32_t off = any_u32(0, N - 1);
    uint8_t* p; const uint8_t* q;
    /*@ split off; */
    p = MemorySim_MapSimulatedAddressToHostAddressForWrite(m, base + off, 1);
    OBLIGE(*p == pat(r, off));
    *p = 0xEE;
    OBLIGE(IMemory_Read8(m, base + off) == 0xEE);
    q = MemorySim_MapSimulatedAddressToHostAddressForRead(m, base + off, 1);
    OBLIGE(*q == 0xEE);
    MARK(view);
    others(m, base, off, 1);
}
/* fresh regions read as zero everywhere, whatever was there before a restart */
void t_zero(void)
{
    PICK(again, 2);
    IMemory* m = build(again);
    uint32_t i, sz = any_u32(1, 40);
    /*@ split sz; */
    if (again) { MemorySim_Uninit(m); m = MemorySim_Init(); }
    MemorySim_CreateRegion(m, 0x30000000u, sz);
    for (i = 0; i < sz; i++)
        OBLIGE(IMemory_Read8(m, 0x30000000u + i) == 0);
    MARK(zero);
}
/* a later region never shadows or disturbs an earlier one */
void t_grow(void)
{
    IMemory* m = build(1);
    MemorySim_CreateRegion(m, 0x30000000u, 4);
    MemorySim_CreateRegion(m, A - 4, 4);
    MemorySim_CreateRegion(m, A + N, 4);
    MemorySim_CreateAlias(m, 0x40000000u, A, N);
    IMemory_Write32(m, 0x30000000u, 0xFFFFFFFFu);
    IMemory_Write32(m, A - 4, 0xFFFFFFFFu);
    IMemory_Write32(m, A + N, 0xFFFFFFFFu);
    others(m, 0, 0, 0);
    MARK(kept);
}
/* loading an image places every byte, for every length and destination offset */
void t_load(void)
{
    static const uint8_t img[N] = {0xA0, 0xA1, 0xA2, 0xA3, 0xA4, 0xA5, 0xA6, 0xA7, 0xA8, 0xA9, 0xAA, 0xAB};
    IMemory* m = build(1);
    uint32_t len = any_u32(0, N), off, i;
    /*@ split len; */
    off = any_u32(0, N - len);
    /*@ split off; */
    MemorySim_LoadFromFlashImage(m, A + off, img, len);
    for (i = 0; i < len; i++)
        OBLIGE(IMemory_Read8(m, A + off + i) == img[i]);
    others(m, A, off, len);
    MARK(loaded);
}
/* regions of every size class start out as zero, and stay zero wherever nothing was written */
void t_zero_large(void)
{
    static const uint32_t sizes[10] = {0x7F, 0x100, 0xFFF, 0x1000, 0x1001, 0xFFFF, 0x10000, 0x10001, 0x20004, 0x100003};
    PICK(k, 10);
    PICK(again, 2);
    IMemory* m = build(again);
    uint32_t off;
    if (again) { MemorySim_Uninit(m); m = MemorySim_Init(); }
    MemorySim_CreateRegion(m, 0x30000000u, sizes[k]);
    off = any_u32(0, sizes[k] - 1);
    OBLIGE(IMemory_Read8(m, 0x30000000u + off) == 0);
    MARK(zero);
}
/* offsets of every magnitude stay apart */
void t_far_apart(void)
{
    static const uint32_t offs[12] = {0, 4, 0x7C, 0x80, 0x100, 0x7FFC, 0x8000, 0xFFFC, 0x10000, 0x10100, 0x18000, 0x2FFFC};
    static const uint32_t starts[3] = {0x20000000u, 0xFFFD0000u, 0x0000FFFCu};
    PICK(b, 3);
    PICK(w, 3);
    uint32_t base = starts[b];
    IMemory* m = build(0);
    int i;
    MemorySim_CreateRegion(m, base, 0x30000);
    for (i = 0; i < 12; i++) {
        if (w == 0) IMemory_Write8(m, base + offs[i], (uint8_t)(i + 1));
        else if (w == 1) IMemory_Write16(m, base + offs[i], (uint16_t)(i + 1));
        else IMemory_Write32(m, base + offs[i], (uint32_t)(i + 1));
    }
    for (i = 0; i < 12; i++) {
        OBLIGE(IMemory_Read8(m, base + offs[i]) == i + 1);
        OBLIGE(IMemory_Read16(m, base + offs[i]) == i + 1);
        OBLIGE(IMemory_Read32(m, base + offs[i]) == (uint32_t)(i + 1));
    }
    MARK(apart);
}
/* where regions overlap, the one created first keeps answering: nothing written is ever hidden by a later region */
void t_overlap(void)
{
    static const int offs[6] = {-8, -4, 0, 4, 8, 11};
    PICK(o, 6);
    PICK(k, 3);
    static const uint32_t sizes[3] = {4, N, 3 * N};
    IMemory* m = build(1);
    uint32_t i;
    MemorySim_CreateRegion(m, A + (uint32_t)offs[o], sizes[k]);
    others(m, 0, 0, 0);
    IMemory_Write32(m, A + 4, 0x44332211u);
    MemorySim_CreateRegion(m, A, N);
    OBLIGE(IMemory_Read32(m, A + 4) == 0x44332211u);
    for (i = 0; i < N; i++) if (i < 4 || i > 7) OBLIGE(IMemory_Read8(m, A + i) == pat(0, i));
    MARK(first);
}
/* many regions: each keeps its own contents */
void t_many(void)
{
    IMemory* m = build(0);
    uint32_t i;
    PICK(down, 2);
    for (i = 0; i < 70; i++) MemorySim_CreateRegion(m, 0x20000000u + 0x100u * (down ? 69 - i : i), 8);
    for (i = 0; i < 70; i++) IMemory_Write32(m, 0x20000004u + 0x100u * i, 0xC0DE0000u + i);
    for (i = 0; i < 70; i++) {
        OBLIGE(IMemory_Read32(m, 0x20000004u + 0x100u * i) == 0xC0DE0000u + i);
        OBLIGE(IMemory_Read32(m, 0x20000000u + 0x100u * i) == 0);
    }
    MARK(kept);
}
