/* C14: a hexadecimal dump says exactly what its binary form says; anything but hex digits and line ends is refused. */
//! entry: t_any_line_ends coarse without=mriPlatform.c without=CrashDebugCommandLine.c -eva-slevel 12 -eva-slevel-function mdl_memcmp:100,mdl_fopen:100,to_hex:2000,registers:200,t_any_line_ends:200 -eva-mlevel 8 -eva-partition-value pos,last,__lj_active
#include "h.h"
#include "dump.h"

/* letter case and line ends wherever they are make no difference */
void t_equivalent(void)
{
    static const int every[4] = {0, 1, 3, 32};
    IMemory* m = MemorySim_Init();
    PICK(upper, 2);
    PICK(e, 4);
    PICK(nl, 4);
    int i;
    static const int nls[4] = {1, 2, 3, 7};
    if (every[e] == 0 && nl) return;
    registers(3, 0, 0);
    w32(0x10000000u); w32(0x10000006u); w32(0xFEDCBA98u); w8(0x76); w8(0x0A);
    to_hex(upper, every[e], nls[nl]);
    mdl_files[0].name = "crash.dmp";
    OBLIGE(read_dump(m, 1) == 0);
    for (i = 0; i < 17; i++) OBLIGE(ctx.R[i] == regtag(i) + 0x12345);
    OBLIGE(ctx.exceptionPSR == regtag(30) + 3);
    OBLIGE(IMemory_Read32(m, 0x10000000u) == 0xFEDCBA98u && IMemory_Read16(m, 0x10000004u) == 0x0A76);
    OBLIGE(!mapped(m, 0x10000006u));
    MARK(same);
}
/* every byte value has its digits */
void t_every_byte(void)
{
    IMemory* m = MemorySim_Init();
    PICK(upper, 2);
    PICK(x, 16);
    uint32_t b = (uint32_t)x * 16 + ((7 * (uint32_t)x + 3) & 15);     /* every value of both digits */
    registers(2, 0, 0);
    w32(0x10000000u); w32(0x10000001u); w8((uint8_t)b);
    to_hex(upper, 0, 0);
    mdl_files[0].name = "crash.dmp";
    OBLIGE(read_dump(m, 1) == 0);
    OBLIGE(IMemory_Read8(m, 0x10000000u) == b);
    MARK(same);
}
/* any character that is no hex digit and no line end, anywhere: refused.  Line ends only drop a digit. */
void t_bad_digit(void)
{
    static const uint8_t lo[6] = {0, 0x0B, 0x0E, ':', 'G', 'g'}, hi[6] = {9, 0x0C, '/', '@', '`', 255};
    static const long places[9] = {1, 9, 40, 167, 176, 185, 192, 193, 196};
    IMemory* m = MemorySim_Init();
    PICK(k, 6);
    PICK(p, 9);
    registers(3, 0, 0);
    w32(0x10000000u); w32(0x10000002u); w8(0x12); w8(0x34);
    to_hex(0, 0, 0);
    OBLIGE(hex_len == 196);
    mdl_files[0].name = "crash.dmp";
    if (p == 8) { hextext[197] = '0'; mdl_files[0].size = 198; }
    hextext[places[p]] = any_u8(lo[k], hi[k]);
    OBLIGE(read_dump(m, 1) == fileFormatException);
    MARK(refused);
    hextext[places[p]] = '0';
}
/* any number of line ends of any kind before, between and after the digits: the same dump */
static long pos, last;          /* last: 0 a line end, 1 a digit, 2 the end */
extern size_t (*hook_fread)(void* p, size_t size, size_t n, FILE* f);
static size_t with_line_ends(void* p, size_t size, size_t n, FILE* f)
{
    size_t i;
    for (i = 0; i < size * n; i++) {
        if (any_bool()) { last = 0; ((char*)p)[i] = any_bool() ? '\n' : '\r'; }
        else if (pos < hex_len) { last = 1; ((char*)p)[i] = (char)hextext[pos++]; }
        else { last = 2; mdl_stream_eof = 1; break; }
    }
    return i / size;
}
void t_any_line_ends(void)
{
    int i;
    IMemory* m = MemorySim_Init();
    registers(2, 0, 0);
    w32(0x10000000u); w32(0x10000004u); w32(0xFEDCBA98u);
    w32(0x20000000u); w32(0x20000001u); w8(0x3C);
    to_hex(0, 0, 0);
    mdl_files[0].name = "crash.dmp";
    hook_fread = with_line_ends;
    OBLIGE(read_dump(m, 1) == 0);
    for (i = 0; i < 17; i++) OBLIGE(ctx.R[i] == regtag(i) + 0x12345);
    OBLIGE(IMemory_Read32(m, 0x10000000u) == 0xFEDCBA98u && IMemory_Read8(m, 0x20000000u) == 0x3C);
    MARK(same);
}
