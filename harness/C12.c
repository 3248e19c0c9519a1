/* C12: a truncated dump is reported as such, at whatever byte it was cut; a dump that ends with the stack overflow
   sentinel is reported as a stack overflow. */
//! entry: t_any_number coarse without=mriPlatform.c without=CrashDebugCommandLine.c -eva-slevel-function cut_short:500,at:500 -eva-partition-value state,pos,__lj_active
#include "h.h"
#include "dump.h"

static void full(int v, int fp)
{
    registers(v, (uint32_t)fp, 0);
    w32(0x10000000u); w32(0x10000005u); w32(0x44332211u); w8(0x55);
    w32(0x20000000u); w32(0x20000002u); w8(0x66); w8(0x77);
}
static uint32_t tops(int v, int fp) { return 4 + 4 + (v == 2 ? 17u : 19u) * 4 + 4 + (fp ? 132 : 0); }

/* every length of a dump with two regions: accepted only where it ends with a complete region (or none) */
void t_cut_binary(void)
{
    IMemory* m = MemorySim_Init();
    PICK(v, 2);
    PICK(fp, 2);
    long n; uint32_t top = tops(v + 2, fp), len;
    int code, whole;
    full(v + 2, fp);
    OBLIGE(dump_len == (long)(top + 23));
    len = any_u32(0, top + 23);
    /*@ split len; */
    n = (long)len;
    use_file("crash.dmp", n);
    whole = len == top || len == top + 13 || len == top + 23;
    code = read_dump(m, 0);
    if (whole) { OBLIGE(code == 0); MARK(accepted); }
    else { OBLIGE(code == fileFormatException); OBLIGE(getExceptionMessage()[0] != 0); MARK(truncated); }
    if (len >= top + 13) OBLIGE(IMemory_Read32(m, 0x10000000u) == 0x44332211u && IMemory_Read8(m, 0x10000004u) == 0x55);
    MemorySim_Uninit(m);
    OBLIGE(mdl_live_allocs == 0);
}
/* the same in hexadecimal, cut after any digit (from the end of the registers on) */
void t_cut_hex(void)
{
    IMemory* m = MemorySim_Init();
    enum { v = 1 };
    uint32_t top = tops(v + 2, 0) * 2, len;
    int code, whole;
    full(v + 2, 0);
    to_hex(0, 0, 0);
    mdl_files[0].name = "crash.dmp";
    OBLIGE(hex_len == (long)(top + 46));
    len = any_u32(top - 4, top + 46);
    /*@ split len; */
    mdl_files[0].size = (long)len;
    whole = len == top || len == top + 26 || len == top + 46;
    code = read_dump(m, 1);
    if (whole) { OBLIGE(code == 0); MARK(accepted); }
    else { OBLIGE(code == fileFormatException); OBLIGE(getExceptionMessage()[0] != 0); MARK(truncated); }
}
/* ... and within the header */
void t_cut_hex_top(void)
{
    IMemory* m = MemorySim_Init();
    uint32_t len;
    full(3, 1);
    to_hex(0, 0, 0);
    mdl_files[0].name = "crash.dmp";
    len = any_u32(0, 20);
    /*@ split len; */
    mdl_files[0].size = len < 18 ? (long)len : len == 18 ? 167 : len == 19 ? 300 : 439;
    OBLIGE(read_dump(m, 1) == fileFormatException);
    MARK(truncated);
}
/* overflow sentinel after zero, one or two regions; the contents read before it stay */
void t_sentinel(void)
{
    IMemory* m = MemorySim_Init();
    PICK(regions, 3);
    PICK(hex, 2);
    PICK(fp, 2);
    registers(3, (uint32_t)fp, 0);
    if (regions > 0) { w32(0x10000000u); w32(0x10000004u); w32(0x44332211u); }
    if (regions > 1) { w32(0x20000000u); w32(0x20000004u); w32(0x88776655u); }
    w32(0xACCE55EDu);
    if (hex) { to_hex(1, 8, 2); mdl_files[0].name = "crash.dmp"; }
    else use_file("crash.dmp", dump_len);
    OBLIGE(read_dump(m, hex) == stackOverflowException);
    OBLIGE(getExceptionMessage()[0] != 0);
    OBLIGE(ctx.R[PC] == regtag(15) + 0x12345);
    if (regions > 0) OBLIGE(IMemory_Read32(m, 0x10000000u) == 0x44332211u);
    if (regions > 1) OBLIGE(IMemory_Read32(m, 0x20000000u) == 0x88776655u);
    MARK(overflow);
}
/* any other four bytes at the end are a truncation; the sentinel's value as a start address is only an address */
void t_not_sentinel(void)
{
    IMemory* m = MemorySim_Init();
    PICK(k, 4);
    int code;
    registers(2, 0, 0);
    if (k == 0) w32(any_u32(0, 0xACCE55ECu));
    else if (k == 1) w32(any_u32(0xACCE55EEu, 0xFFFFFFFFu));
    else if (k == 2) { w32(0xACCE55EDu); w32(0xACCE55EFu); w8(1); w8(2); }
    else { w32(0xACCE55EDu); w8(0xEF); }
    use_file("crash.dmp", dump_len);
    code = read_dump(m, 0);
    if (k == 2) { OBLIGE(code == 0); OBLIGE(IMemory_Read8(m, 0xACCE55EEu) == 2); MARK(region); }
    else { OBLIGE(code == fileFormatException); MARK(truncated); }
}
/* a file that is not there */
void t_missing(void)
{
    IMemory* m = MemorySim_Init();
    PICK(hex, 2);
    use_file("crash.dmp", 0);
    mdl_files[0].missing = 1;
    OBLIGE(read_dump(m, hex) == fileException);
    OBLIGE(mdl_fclose_calls == 0);
    MARK(refused);
}
/* regions that cannot be had: memory exhausted, running past the end of the address space, or inside read-only memory */
void t_bad_region(void)
{
    IMemory* m = MemorySim_Init();
    PICK(k, 4);
    int code;
    registers(3, 0, 0);
    if (k < 2) { w32(0x10000000u); w32(0x10000004u); w32(1); mdl_alloc_fail_at = 1 + k; }
    else if (k == 2) { MemorySim_CreateRegion(m, 0x10000000u, 4); MemorySim_MakeRegionReadOnly(m, 0x10000000u); w32(0x10000000u); w32(0x10000004u); w32(1); }
    else { w32(0x10000004u); w32(0x10000000u); w32(1); }        /* ends before it starts */
    use_file("crash.dmp", dump_len);
    code = read_dump(m, 0);
    OBLIGE(code == (k < 2 || k == 3 ? outOfMemoryException : busErrorException));
    OBLIGE(getExceptionMessage()[0] != 0);
    MARK(refused);
    if (k == 2) OBLIGE(IMemory_Read32(m, 0x10000000u) == 0);
    MemorySim_Uninit(m);
    OBLIGE(mdl_live_allocs == 0);
}
/* every other signature, byte by byte: wrong letters, versions before 2 and after 3, other minor versions of 2 and 3 */
void t_signature(void)
{
    IMemory* m = MemorySim_Init();
    PICK(v, 2);
    PICK(byte, 4);
    PICK(above, 2);
    uint32_t right = byte == 0 ? 'c' : byte == 1 ? 'C' : byte == 2 ? (uint32_t)(above ? 3 : 2) : 0u;
    full(v + 2, 0);
    if (byte == 3 && !above) { if (v) dump[2] = any_u8(4, 0xff); else dump[2] = any_u8(0, 1); }
    else dump[byte] = above ? any_u8(right + 1, 0xff) : any_u8(0, right - 1);
    use_file("crash.dmp", dump_len);
    OBLIGE(read_dump(m, 0) == fileFormatException);
    OBLIGE(getExceptionMessage()[0] != 0);
    OBLIGE(!mapped(m, any_u32(0, 0xFFFFFFFFu)));
    MARK(refused);
}
/* the signature itself cut short, or spoilt in the hexadecimal form */
void t_signature_hex(void)
{
    IMemory* m = MemorySim_Init();
    PICK(at, 8);
    PICK(kind, 3);
    full(2, 0);
    to_hex(0, 0, 0);
    mdl_files[0].name = "crash.dmp";
    if (kind == 0) hextext[at] = hextext[at] == '5' ? '4' : '5';
    else if (kind == 1) hextext[at] = any_u8('G', 'Z');
    else mdl_files[0].size = at;
    OBLIGE(read_dump(m, 1) == fileFormatException);
    MARK(refused);
}
/* any number of complete regions and then a file cut inside a region, its end address or its start address: refused */
static int state;           /* 1: the file has ended in the middle of something, 2: behind a region */
static unsigned pos;        /* 0 to 87: signature, flags and registers, 88 to 119: a region of 24 bytes, over and over */
extern size_t (*hook_fread)(void* p, size_t size, size_t n, FILE* f);
static uint8_t at(unsigned i)
{
    static const uint8_t header[8] = { 0, 0, 0, 0x20, 24, 0, 0, 0x20 };
    if (i < 4) return (uint8_t)"cC\3"[i];
    if (i < 88) return 0;
    if (i < 96) return header[i - 88];
    return any_u8(0, 255);
}
static size_t cut_short(void* p, size_t size, size_t n, FILE* f)
{
    size_t bytes = size * n, i;
    if (bytes == 0) return n;
    if (state) return 0;
    if (any_bool()) {
        size_t got = any_bool() ? bytes / 2 : 0;
        for (i = 0; i < got; i++) ((uint8_t*)p)[i] = at(pos + i);
        state = pos + got == 88 ? 2 : 1;
        mdl_stream_eof = 1;
        return got / size;
    }
    for (i = 0; i < bytes; i++) {
        ((uint8_t*)p)[i] = at(pos);
        if (++pos == 120) pos = 88;
    }
    return n;
}
void t_any_number(void)
{
    IMemory* m = MemorySim_Init();
    int code;
    use_file("crash.dmp", 0);
    hook_fread = cut_short;
    code = read_dump(m, 0);
    if (state == 1) {
        OBLIGE(code != 0);
        MARK(truncated);
    }
    if (state == 2) {
        OBLIGE(code == 0);
        MARK(complete);
    }
}
