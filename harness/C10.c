/* C10: exactly the loadable segments of a 32-bit little-endian executable are loaded: contents, physical address,
   read-only; anything else is refused with an ELF format error. */
//! entry: t_wide narrow without=mriPlatform.c without=CrashDebugCommandLine.c
#include "h.h"
#include "elf.h"

/* one wrong header field, any wrong value */
void t_wrong_field(void)
{
    IMemory* m = MemorySim_Init();
    PICK(k, 17);
    int code = 0;
    header(52, 32, 1);
    phdr(52, 1, 84, 0x08000000u, 4, 4);
    switch (k) {
    case 0:  elf[0] = any_u8(0, 0x7e); break;
    case 1:  elf[0] = any_u8(0x80, 0xff); break;
    case 2:  elf[1] = any_u8(0, 'E' - 1); break;
    case 3:  elf[1] = any_u8('E' + 1, 0xff); break;
    case 4:  elf[2] = any_u8(0, 'L' - 1); break;
    case 5:  elf[2] = any_u8('L' + 1, 0xff); break;
    case 6:  elf[3] = any_u8(0, 'F' - 1); break;
    case 7:  elf[3] = any_u8('F' + 1, 0xff); break;
    case 8:  elf[4] = 0; break;
    case 9:  elf[4] = any_u8(2, 0xff); break;
    case 10: elf[5] = 0; break;
    case 11: elf[5] = any_u8(2, 0xff); break;
    case 12: *(uint16_t*)(elf + 16) = any_u16(0, 1); break;
    case 13: *(uint16_t*)(elf + 16) = any_u16(3, 0xffff); break;
    case 14: p32(28, 0); break;
    case 15: p16(44, 0); break;
    case 16: *(uint16_t*)(elf + 42) = any_u16(0, 31); break;
    }
    CATCHING(code, ElfLoad_FromMemory(m, elf, 88));
    OBLIGE(code == elfFormatException);
    OBLIGE(getExceptionMessage()[0] != 0);
    OBLIGE(!mapped(m, any_u32(0, 0xFFFFFFFFu)));
    MARK(refused);
}
/* fields that do not matter may hold anything */
void t_dont_care(void)
{
    IMemory* m = MemorySim_Init();
    int code = 0, i;
    any_bytes(elf, 52);
    header(52, 32, 1);
    any_bytes(elf + 6, 10);                          /* e_ident beyond the data encoding */
    any_bytes(elf + 18, 10);                         /* machine, version, entry */
    any_bytes(elf + 32, 10);                         /* section table, flags, header size */
    phdr(52, 1, 84, 0x08000000u, 4, 4);
    any_bytes(elf + 60, 4);                          /* virtual address */
    any_bytes(elf + 76, 8);                          /* flags, alignment */
    for (i = 0; i < 4; i++) elf[84 + i] = (uint8_t)(0xA1 + i);
    CATCHING(code, ElfLoad_FromMemory(m, elf, 88));
    OBLIGE(code == 0);
    OBLIGE(IMemory_Read32(m, 0x08000000u) == 0xA4A3A2A1u);
    OBLIGE(!mapped(m, any_u32(0, 0x07FFFFFFu)) && !mapped(m, any_u32(0x08000004u, 0xFFFFFFFFu)));
    MARK(loaded);
}
/* up to three program headers, each loadable or not for one of the possible reasons, in every order;
   table offset and entry size vary; memory sizes above the file size are fine */
enum { LOAD, LOADBIG, NOTE, OTHER, EMPTY, SHRUNK };
static int kinds[3];
/* segment tables of up to three entries of every type, size relation and place */
void t_segments(void)
{
    IMemory* m = MemorySim_Init();
    int code = 0, i, j, loads = 0;
    PICK(k0, 6); PICK(k1, 6); PICK(k2, 7);
    static const uint32_t paddr[3] = {0x10000000u, 0x00000000u, 0xFFFFFFF0u}, size[3] = {6, 4, 16};
    static const uint32_t off[3] = {300, 320, 340};
    PICK(layout, 2);
    uint32_t ent = layout ? 44 : 32, pho = layout ? 64 : 52;
    int n = k2 == 6 ? 2 : 3;
    kinds[0] = k0; kinds[1] = k1; kinds[2] = k2;
    header(pho, ent, (uint32_t)n);
    for (i = 0; i < 3; i++) for (j = 0; j < 16; j++) elf[off[i] + (uint32_t)j] = (uint8_t)(0x40 * i + j + 1);
    for (i = 0; i < n; i++) {
        uint32_t at = pho + ent * (uint32_t)i;
        switch (kinds[i]) {
        case LOAD:    phdr(at, 1, off[i], paddr[i], size[i], size[i]); loads++; break;
        case LOADBIG: phdr(at, 1, off[i], paddr[i], size[i], any_u32(size[i] + 1, 0xFFFFFFFFu)); loads++; break;
        case NOTE:    phdr(at, 0, off[i], paddr[i], size[i], size[i]); break;
        case OTHER:   phdr(at, any_u32(2, 0xFFFFFFFFu), off[i], paddr[i], size[i], size[i]); break;
        case EMPTY:   phdr(at, 1, off[i], paddr[i], 0, any_u32(0, 0xFFFFFFFFu)); break;
        case SHRUNK:  phdr(at, 1, off[i], paddr[i], size[i], any_u32(0, size[i] - 1)); break;
        }
    }
    CATCHING(code, ElfLoad_FromMemory(m, elf, 400));
    if (loads == 0) {
        OBLIGE(code == elfFormatException);
        OBLIGE(getExceptionMessage()[0] != 0);
        OBLIGE(!mapped(m, any_u32(0, 0xFFFFFFFFu)));
        MARK(nothing);
        return;
    }
    OBLIGE(code == 0);
    for (i = 0; i < n; i++) {
        int is = kinds[i] == LOAD || kinds[i] == LOADBIG;
        OBLIGE(mapped(m, paddr[i]) == is);
        if (!is) continue;
        { const uint8_t* p = MemorySim_MapSimulatedAddressToHostAddressForRead(m, paddr[i], size[i]);
          for (j = 0; j < (int)size[i]; j++) OBLIGE(p[j] == (uint8_t)(0x40 * i + j + 1)); }
        if (i < 2) OBLIGE(!mapped(m, paddr[i] + size[i]));
        code = 0;
        CATCHING(code, IMemory_Write8(m, paddr[i] + size[i] - 1, 1));
        OBLIGE(code == busErrorException);
    }
    MARK(loaded);
    MemorySim_Uninit(m);
    OBLIGE(mdl_live_allocs == 0);
}
/* a bad second segment is refused as a whole */
void t_second_bad(void)
{
    IMemory* m = MemorySim_Init();
    PICK(k, 3);
    int code = 0;
    header(52, 32, 2);
    phdr(52, 1, 200, 0x08000000u, 4, 4);
    phdr(84, 1, 204, 0x20000000u, 4, 4);
    if (k == 0) p32(84 + 4, any_u32(397, 0xFFFFFFFFu));
    else if (k == 1) { p32(84 + 16, any_u32(197, 0xFFFFFFFFu)); p32(84 + 20, 0xFFFFFFFFu); }
    else *(uint16_t*)(elf + 42) = any_u16(317, 0xFFFF);
    CATCHING(code, ElfLoad_FromMemory(m, elf, 400));
    OBLIGE(code == elfFormatException);
    OBLIGE(getExceptionMessage()[0] != 0);
    MARK(refused);
    MemorySim_Uninit(m);
    OBLIGE(mdl_live_allocs == 0);
}
/* one image after another: what the first had does not count for the second */
void t_next(void)
{
    IMemory* m = MemorySim_Init();
    PICK(k, 3);
    int code = 0;
    header(52, 32, 1);
    phdr(52, 1, 200, 0x08000000u, 4, 4);
    CATCHING(code, ElfLoad_FromMemory(m, elf, 400));
    OBLIGE(code == 0 && mapped(m, 0x08000000u));
    MemorySim_Uninit(m);
    m = MemorySim_Init();
    if (k == 0) p32(52, 0);
    else if (k == 1) p32(52 + 16, 0);
    else p32(52 + 20, 3);
    code = 0;
    CATCHING(code, ElfLoad_FromMemory(m, elf, 400));
    OBLIGE(code == elfFormatException);
    OBLIGE(!mapped(m, 0x08000000u));
    MARK(refused);
}
/* out of memory anywhere: reported, and nothing is leaked once the memory is given back */
void t_no_memory(void)
{
    IMemory* m = MemorySim_Init();
    PICK(fail, 6);
    int code = 0;
    header(52, 32, 2);
    phdr(52, 1, 200, 0x08000000u, 4, 4);
    phdr(84, 1, 204, 0x20000000u, 4, 4);
    mdl_alloc_fail_at = 1 + fail;
    CATCHING(code, ElfLoad_FromMemory(m, elf, 400));
    OBLIGE(code == outOfMemoryException);
    MARK(refused);
    MemorySim_Uninit(m);
    OBLIGE(mdl_live_allocs == 0);
}
/* more program headers than fit in a byte: all of them are looked at */
static uint32_t many[(52 + 300 * 32 + 16) / 4];
void t_many_headers(void)
{
    IMemory* m = MemorySim_Init();
    PICK(k, 3);
    int code = 0, i, at = k == 0 ? 299 : k == 1 ? 256 : 255;
    header(52, 32, 300);
    for (i = 0; i < 13; i++) many[i] = ((uint32_t*)elf)[i];
    many[13 + at * 8] = 1; many[13 + at * 8 + 1] = 52 + 300 * 32;
    many[13 + at * 8 + 3] = 0x08000000u; many[13 + at * 8 + 4] = 8; many[13 + at * 8 + 5] = 8;
    many[13 + 2400] = 0x11223344u; many[13 + 2401] = 0x55667788u;
    CATCHING(code, ElfLoad_FromMemory(m, many, sizeof(many)));
    OBLIGE(code == 0);
    OBLIGE(IMemory_Read32(m, 0x08000000u) == 0x11223344u && IMemory_Read32(m, 0x08000004u) == 0x55667788u);
    OBLIGE(!mapped(m, 0x08000008u));
    MARK(loaded);
}
/* executables with anything in every field: no address, size, offset or count is cut to fewer bits */
static uint8_t wide_elf[0x20000];
void t_wide(void)
{
    IMemory* m = MemorySim_Init();
    int code = 0;
    any_bytes(wide_elf, sizeof(wide_elf));
    CATCHING(code, ElfLoad_FromMemory(m, wide_elf, any_u32(0, sizeof(wide_elf))));
}
/* an executable with many segments: each of them is loaded */
static uint32_t segments[13 + 40 * 8 + 40];
void t_many_segments(void)
{
    IMemory* m = MemorySim_Init();
    PICK(empty, 2);                 /* every other header is no loadable segment */
    int code = 0, i;
    header(52, 32, 40);
    for (i = 0; i < 13; i++) segments[i] = ((uint32_t*)elf)[i];
    for (i = 0; i < 40; i++) {
        uint32_t* h = segments + 13 + 8 * i;
        h[0] = empty && (i & 1) ? 0x70000001u : 1; h[1] = 52 + 40 * 32 + 4 * (uint32_t)i;
        h[3] = 0x08000000u + 0x1000u * (uint32_t)i; h[4] = 4; h[5] = 4;
        segments[13 + 320 + i] = 0xC0DE0000u + (uint32_t)i;
    }
    CATCHING(code, ElfLoad_FromMemory(m, segments, sizeof(segments)));
    OBLIGE(code == 0);
    for (i = 0; i < 40; i++) {
        if (empty && (i & 1)) OBLIGE(!mapped(m, 0x08000000u + 0x1000u * (uint32_t)i));
        else OBLIGE(IMemory_Read32(m, 0x08000000u + 0x1000u * (uint32_t)i) == 0xC0DE0000u + (uint32_t)i);
    }
    MARK(loaded);
}
