/* C13: the memory regions of a dump appear exactly where they were: every byte of [start, end), nothing else. */
//! entry: t_wide narrow without=mriPlatform.c without=CrashDebugCommandLine.c
//! entry: t_any_number coarse without=mriPlatform.c without=CrashDebugCommandLine.c -eva-partition-value saw_end,__lj_active
#include "h.h"
#include "dump.h"

/* one region of every small size, at any kind of place, any contents */
void t_one(void)
{
    static const uint32_t starts[5] = {0x20000000u, 0u, 0x10000001u, 0xFFFFFF00u, 0x7FFFFFFEu};
    IMemory* m = MemorySim_Init();
    PICK(s, 5);
    uint32_t n = any_u32(0, 9), i;
    const uint8_t* p;
    /*@ split n; */
    registers(3, 0, 0);
    w32(starts[s]); w32(starts[s] + n);
    for (i = 0; i < n; i++) w8(any_u8(16 * (i + 1), 16 * (i + 1) + 15));
    use_file("crash.dmp", dump_len);
    OBLIGE(read_dump(m, 0) == 0);
    if (n) {
        p = MemorySim_MapSimulatedAddressToHostAddressForWrite(m, starts[s], n);
        for (i = 0; i < n; i++) OBLIGE(p[i] >= 16 * (i + 1) && p[i] <= 16 * (i + 1) + 15);
    }
    OBLIGE(!mapped(m, starts[s] + n));
    OBLIGE(!mapped(m, starts[s] - 1));
    MARK(loaded);
}
/* overlapping regions: every byte is readable and has the value the dump gave last, zero included */
void t_overlap(void)
{
    IMemory* m = MemorySim_Init();
    PICK(zero, 2);
    PICK(inside, 2);
    uint32_t j, second = inside ? 0x20000002u : 0x20000004u, n = inside ? 4 : 8;
    registers(3, 0, 0);
    w32(0x20000000u); w32(0x20000008u);
    for (j = 0; j < 8; j++) w8(0xEE);
    w32(second); w32(second + n);
    for (j = 0; j < n; j++) w8((uint8_t)(zero ? 0 : 0x30 + j));
    use_file("crash.dmp", dump_len);
    OBLIGE(read_dump(m, 0) == 0);
    for (j = 0; j < 8; j++) if (0x20000000u + j < second || 0x20000000u + j >= second + n) OBLIGE(IMemory_Read8(m, 0x20000000u + j) == 0xEE);
    for (j = 0; j < n; j++) OBLIGE(IMemory_Read8(m, second + j) == (zero ? 0 : 0x30 + j));
    MARK(loaded);
}
/* the region that ends with the address space */
void t_top(void)
{
    IMemory* m = MemorySim_Init();
    registers(3, 0, 0);
    w32(0xFFFFFFFCu); w32(0); w8(1); w8(2); w8(3); w8(4);
    use_file("crash.dmp", dump_len);
    OBLIGE(read_dump(m, 0) == 0);
    OBLIGE(IMemory_Read32(m, 0xFFFFFFFCu) == 0x04030201u);
    OBLIGE(!mapped(m, 0) && !mapped(m, 0xFFFFFFFBu));
    MARK(loaded);
}
/* several regions in any order, adjacent or apart, binary or hexadecimal */
void t_many(void)
{
    static const uint32_t start[4] = {0x20000000u, 0x20000005u, 0x10000000u, 0xE0000000u}, size[4] = {5, 3, 8, 1};
    static const int order[4][4] = { {0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}, {1, 3, 0, 2} };
    IMemory* m = MemorySim_Init();
    PICK(o, 4);
    PICK(n, 5);
    PICK(hex, 2);
    int i; uint32_t j;
    registers(3, 0, 0);
    for (i = 0; i < n; i++) {
        int r = order[o][i];
        w32(start[r]); w32(start[r] + size[r]);
        for (j = 0; j < size[r]; j++) w8((uint8_t)(16 * (r + 1) + j));
    }
    if (hex) { to_hex(0, 32, 3); mdl_files[0].name = "crash.dmp"; }
    else use_file("crash.dmp", dump_len);
    OBLIGE(read_dump(m, hex) == 0);
    for (i = 0; i < 4; i++) {
        int r = order[o][i];
        OBLIGE(mapped(m, start[r]) == (i < n));
        if (i < n) {
            const uint8_t* p = MemorySim_MapSimulatedAddressToHostAddressForRead(m, start[r], size[r]);
            for (j = 0; j < size[r]; j++) OBLIGE(p[j] == (uint8_t)(16 * (r + 1) + j));
        }
    }
    OBLIGE(!mapped(m, 0x20000008u) && !mapped(m, 0x1FFFFFFFu) && !mapped(m, 0x10000008u) && !mapped(m, 0xE0000001u));
    MARK(loaded);
}
/* dumped memory is ordinary memory: writable afterwards; what an image put beside it is unchanged */
void t_beside_image(void)
{
    static const uint8_t img[8] = {1, 2, 3, 4, 5, 6, 7, 8};
    IMemory* m = MemorySim_Init();
    int code = 0;
    MemorySim_CreateRegion(m, 0, 8);
    MemorySim_LoadFromFlashImage(m, 0, img, 8);
    MemorySim_MakeRegionReadOnly(m, 0);
    registers(3, 0, 0);
    w32(8); w32(12); w32(0x0D0C0B0Au);
    use_file("crash.dmp", dump_len);
    OBLIGE(read_dump(m, 0) == 0);
    OBLIGE(IMemory_Read32(m, 8) == 0x0D0C0B0Au);
    OBLIGE(IMemory_Read32(m, 0) == 0x04030201u && IMemory_Read32(m, 4) == 0x08070605u);
    CATCHING(code, IMemory_Write8(m, 8, 0xEE));
    OBLIGE(code == 0 && IMemory_Read8(m, 8) == 0xEE);
    MARK(loaded);
}
/* a region of more than 255 bytes */
static uint8_t big[96 + 1104];
void t_large(void)
{
    IMemory* m = MemorySim_Init();
    int i;
    registers(3, 0, 0);
    w32(0x20000000u); w32(0x20000000u + 1100);
    for (i = 0; i < (int)dump_len; i++) big[i] = dump[i];
    for (i = 0; i < 1100; i++) big[dump_len + i] = (uint8_t)(i < 128 ? i : i < 256 ? 0xEE : 0x77 + i);
    mdl_files[0].name = "crash.dmp"; mdl_files[0].data = big; mdl_files[0].size = dump_len + 1100; mdl_file_count = 1;
    OBLIGE(read_dump(m, 0) == 0);
    OBLIGE(IMemory_Read32(m, 0x20000000u) == 0x03020100u && IMemory_Read32(m, 0x200000FCu) == 0xEEEEEEEEu);
    OBLIGE(IMemory_Read32(m, 0x20000100u) == 0x7A797877u && IMemory_Read32(m, 0x20000448u) == 0xC2C1C0BFu);
    OBLIGE(!mapped(m, 0x2000044Cu) && !mapped(m, 0x1FFFFFFFu));
    MARK(loaded);
}
/* one region of any size at any address, with any contents: no address, length or offset is cut to fewer bits
   on its way into memory */
extern size_t (*hook_fread)(void*, size_t, size_t, FILE*);
static int wide_headers;
static size_t wide_fread(void* p, size_t size, size_t n, FILE* f)
{
    if (size * n == 8 && wide_headers++) return 0;
    any_bytes(p, size * n);
    return n;
}
/* a dump of any length with regions of any size at any place: no address, size or count is cut to fewer bits */
void t_wide(void)
{
    IMemory* m = MemorySim_Init();
    mdl_files[0].size = 0; mdl_file_count = 1;
    hook_fread = wide_fread;
    read_dump(m, 0);
}
/* a dump with any number of regions of any size: loading only ends well once the file has ended */
static int saw_end;
static size_t endless_fread(void* p, size_t size, size_t n, FILE* f)
{
    if (any_bool()) { saw_end = mdl_stream_eof = 1; return 0; }
    any_bytes(p, size * n);
    return n;
}
void t_any_number(void)
{
    IMemory* m = MemorySim_Init();
    mdl_files[0].size = 0; mdl_file_count = 1;
    hook_fread = endless_fread;
    if (read_dump(m, 0) == 0) {
        OBLIGE(saw_end);
        MARK(loaded);
    }
}
