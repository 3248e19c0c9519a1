/* C09: no ELF file, however malformed, makes the loader touch anything outside the file's bytes; malformed is an error. */
#include "h.h"
#include "elf.h"

/* every byte unknown, every length that cannot hold a usable program header */
void t_any_header(void)
{
    IMemory* m = MemorySim_Init();
    uint8_t* blob;
    uint32_t n = any_u32(1, 83);
    int code = 0;
    /*@ split n; */
    blob = malloc(n);
    any_bytes(blob, n);
    if (n >= 52) { blob[28] = 52; blob[29] = 0; blob[30] = 0; blob[31] = 0; }   /* the table is where the file ends */
    CATCHING(code, ElfLoad_FromMemory(m, blob, n));
    OBLIGE(code == elfFormatException);
    OBLIGE(!mapped(m, any_u32(0, 0xFFFFFFFFu)));
    MARK(refused);
}
/* no file contents at all */
void t_empty(void)
{
    IMemory* m = MemorySim_Init();
    int code = 0;
    CATCHING(code, ElfLoad_FromMemory(m, elf, 0));
    OBLIGE(code == elfFormatException);
    MARK(refused);
}
/* program header table anywhere, any entry size, any count */
void t_table(void)
{
    enum { N = 128 };
    static const uint32_t lo[7] = {52, 60, 95, 96, 97, 128, 129}, hi[7] = {52, 60, 95, 96, 128, 0x7FFFFFFF, 0xFFFFFFFF};
    static const uint32_t slo[4] = {32, 33, 40, 128}, shi[4] = {32, 33, 40, 0xFFFF};
    static const uint32_t clo[4] = {1, 2, 3, 4}, chi[4] = {1, 2, 3, 0xFFFF};
    IMemory* m = MemorySim_Init();
    uint8_t* blob = malloc(N);
    int code = 0;
    PICK(o, 7);
    PICK(s, 4);
    PICK(c, 4);
    header(any_u32(lo[o], hi[o]), any_u32(slo[s], shi[s]), any_u32(clo[c], chi[c]));
    memcpy(blob, elf, N);
    CATCHING(code, ElfLoad_FromMemory(m, blob, N));
    OBLIGE(code == elfFormatException);
    OBLIGE(!mapped(m, any_u32(0, 0xFFFFFFFFu)));
    MARK(refused);
}
/* the table wraps round the 32-bit file offset space, or overlaps the file header */
void t_table_wrap(void)
{
    enum { N = 128 };
    static const uint32_t lo[4] = {0xFFFFFFE0, 0xFFFFFFE1, 1, 20}, hi[4] = {0xFFFFFFE0, 0xFFFFFFFF, 1, 20};
    IMemory* m = MemorySim_Init();
    uint8_t* blob = malloc(N);
    int code = 0;
    PICK(o, 4);
    PICK(c, 2);
    header(any_u32(lo[o], hi[o]), 32, c ? 2 : 1);
    memcpy(blob, elf, N);
    CATCHING(code, ElfLoad_FromMemory(m, blob, N));
    OBLIGE(code == elfFormatException || code == busErrorException);
    MARK(refused);
}
/* segment contents anywhere, any size: the segments that fit are loaded, all others are refused */
void t_segment(void)
{
    enum { N = 96 };
    static const uint32_t offs[7] = {0, 83, 84, 90, 95, 96, 97};
    IMemory* m = MemorySim_Init();
    uint8_t* blob = malloc(N);
    uint32_t off, room, size;
    int code = 0, i;
    PICK(o, 7);
    PICK(kind, 3);
    off = o == 6 ? any_u32(97, 0xFFFFFFFFu) : offs[o];
    room = o == 6 ? 0 : N - offs[o];
    if (kind == 0) {
        uint32_t pick = any_u32(0, 6), s;
        static const uint32_t from_end[7] = {0, 1, 2, 3, 4, 5, 8};
        /*@ split pick; */
        s = room - from_end[pick];
        if (room <= from_end[pick]) return;
        size = s;
    }
    else if (kind == 1) size = any_u32(room + 1, 0x7FFFFFFFu);
    else size = any_u32(0x80000000u, 0xFFFFFFFFu);
    header(52, 32, 1);
    phdr(52, 1, off, 0x08000000u, size, 0xFFFFFFFFu);
    for (i = 84; i < N; i++) elf[i] = (uint8_t)i;
    memcpy(blob, elf, N);
    CATCHING(code, ElfLoad_FromMemory(m, blob, N));
    if (kind == 0) {
        OBLIGE(code == 0);
        OBLIGE(IMemory_Read8(m, 0x08000000u) == blob[off] && IMemory_Read8(m, 0x08000000u + size - 1) == blob[off + size - 1]);
        OBLIGE(!mapped(m, 0x08000000u + size));
        MARK(loaded);
    }
    else { OBLIGE(code == elfFormatException); OBLIGE(!mapped(m, any_u32(0, 0xFFFFFFFFu))); MARK(refused); }
}
