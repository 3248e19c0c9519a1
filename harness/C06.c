/* C06: the memory map reported to GDB lists every region - base, length, and flash for read-only ones - and nothing else. */
//! entry: t_wide narrow without=mriPlatform.c without=CrashDebugCommandLine.c
#include "h.h"

static const char header[] = "<?xml version=\"1.0\"?><!DOCTYPE memory-map PUBLIC \"+//IDN gnu.org//DTD GDB Memory Map V1.0//EN\" \"http://sourceware.org/gdb/gdb-memory-map.dtd\"><memory-map>";
static const char trailer[] = "</memory-map>";

static const char* at;
static void expect(const char* s)
{
    int i;
    for (i = 0; s[i]; i++, at++) OBLIGE(*at == s[i]);
}
static int hexval(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
/* the number after 0x, whatever its case and leading zeroes */
static void expect_hex(uint32_t v)
{
    uint64_t got = 0; int n = 0;
    expect("0x");
    while (hexval(*at) >= 0) { got = got * 16 + (uint64_t)hexval(*at); at++; n++; }
    OBLIGE(n >= 1 && got == v);
}
static void expect_region(int ro, uint32_t base, uint32_t size)
{
    expect("<memory type=\"");
    expect(ro ? "flash" : "ram");
    expect("\" start=\"");
    expect_hex(base);
    expect("\" length=\"");
    expect_hex(size);
    expect("\">");
    if (ro) expect(" <property name=\"blocksize\">1</property>");
    expect("</memory>");
}
/* every combination of protection, over bases and sizes with all digit counts and extremes */
void t_document(void)
{
    static const uint32_t b[6] = {0x8, 0x1234, 0x10000000, 0x2000ABCD, 0x80000000, 0xFFFFFE00};
    static const uint32_t z[6] = {0x1, 0x10, 0x123, 0x40, 0xFF, 0x100};
    PICK(n, 4);
    PICK(first, 6);
    PICK(mask, 8);
    IMemory* m = MemorySim_Init();
    int i;
    if (n < 3 && (mask >> n)) return;
    for (i = 0; i < n; i++) MemorySim_CreateRegion(m, b[(first + i) % 6], z[(first + 2 * i) % 6]);
    for (i = 0; i < n; i++) if (mask & (1 << i)) MemorySim_MakeRegionReadOnly(m, b[(first + i) % 6]);
    at = MemorySim_GetMemoryMapXML(m);
    expect(header);
    for (i = 0; i < n; i++) expect_region((mask >> i) & 1, b[(first + i) % 6], z[(first + 2 * i) % 6]);
    expect(trailer);
    OBLIGE(*at == 0);
    MARK(document);
    MemorySim_Uninit(m);
    OBLIGE(mdl_live_allocs == 0);
}
/* the document follows the regions: asked again after a change it is the new one; aliases are listed too */
void t_again(void)
{
    PICK(ro, 2);
    IMemory* m = MemorySim_Init();
    MemorySim_CreateRegion(m, 0x10000000, 16);
    at = MemorySim_GetMemoryMapXML(m);
    expect(header); expect_region(0, 0x10000000, 16); expect(trailer); OBLIGE(*at == 0);
    if (ro) MemorySim_MakeRegionReadOnly(m, 0x10000000);
    MemorySim_CreateAlias(m, 0x40, 0x10000008, 100);
    MemorySim_CreateRegion(m, 0xFFFFFFFF, 1);
    at = MemorySim_GetMemoryMapXML(m);
    expect(header); expect_region(ro, 0x10000000, 16); expect_region(ro, 0x40, 8); expect_region(0, 0xFFFFFFFF, 1); expect(trailer); OBLIGE(*at == 0);
    MARK(document);
    MemorySim_Uninit(m);
    OBLIGE(mdl_live_allocs == 0);
}
/* the kind of an alias is that of its memory, whether it was protected before or after, directly or through the alias */
void t_alias_kind(void)
{
    PICK(when, 4);
    IMemory* m = MemorySim_Init();
    MemorySim_CreateRegion(m, 0x10000000, 16);
    MemorySim_CreateRegion(m, 0x20000000, 16);
    if (when == 0) MemorySim_MakeRegionReadOnly(m, 0x10000000);
    MemorySim_CreateAlias(m, 0x40, 0x10000008, 4);
    if (when == 1) MemorySim_MakeRegionReadOnly(m, 0x10000000);
    MemorySim_CreateAlias(m, 0x30000000, 0x42, 2);
    if (when == 2) MemorySim_MakeRegionReadOnly(m, 0x10000000);
    if (when == 3) MemorySim_MakeRegionReadOnly(m, 0x30000000);
    MemorySim_CreateAlias(m, 0x40000000, 0x20000000, 16);
    at = MemorySim_GetMemoryMapXML(m);
    expect(header);
    expect_region(1, 0x10000000, 16); expect_region(0, 0x20000000, 16);
    expect_region(1, 0x40, 4); expect_region(1, 0x30000000, 2); expect_region(0, 0x40000000, 16);
    expect(trailer); OBLIGE(*at == 0);
    MARK(document);
}
/* any base and any size: the buffer is big enough, the document terminated */
void t_bounds(void)
{
    IMemory* m;
    PICK(n, 3);
    PICK(ro, 2);
    int i;
    const char* x;
    uint32_t base = any_u32(0, 0xFFFFFFFFu), size = 0x12345;
    PICK(k, 4);
    if (k == 1) { base = 0xFFFFFFF0u; size = 16; }
    if (k == 2) { base = 0x10000000u; size = 0x10000000u; }
    if (k == 3) { base = 0; size = 2; }
    m = MemorySim_Init();
    if (k == 0) {
        if (n || ro) return;
        MemorySim_CreateRegion(m, base, size);
    }
    else {
        for (i = 0; i <= n; i++) MemorySim_CreateRegion(m, base, size);
        if (ro) MemorySim_MakeRegionReadOnly(m, base);
    }
    x = MemorySim_GetMemoryMapXML(m);
    for (i = 0; i < (int)sizeof(header) - 1; i++) OBLIGE(x[i] == header[i]);
    MARK(bounded);
    MemorySim_Uninit(m);
}
/* no memory for the document: an out of memory error, and the old one is not lost */
void t_no_memory(void)
{
    IMemory* m = MemorySim_Init();
    PICK(again, 2);
    int code = 0;
    MemorySim_CreateRegion(m, 0x10000000, 16);
    if (again) MemorySim_GetMemoryMapXML(m);
    mdl_alloc_fail_at = mdl_alloc_count + 1;
    CATCHING(code, MemorySim_GetMemoryMapXML(m));
    OBLIGE(code == outOfMemoryException);
    MARK(refused);
    MemorySim_Uninit(m);
    OBLIGE(mdl_live_allocs == 0);
}
/* regions of any size at any address: no address, size or length is cut to fewer bits on its way into the document */
void t_wide(void)
{
    IMemory* m = MemorySim_Init();
    int code = 0;
    CATCHING(code, MemorySim_CreateRegion(m, any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu)));
    CATCHING(code, MemorySim_CreateRegion(m, any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu)));
    while (any_bool()) CATCHING(code, MemorySim_CreateRegion(m, any_u32(0, 0xFFFFFFFFu), any_u32(0, 0xFFFFFFFFu)));
    CATCHING(code, MemorySim_MakeRegionReadOnly(m, any_u32(0, 0xFFFFFFFFu)));
    CATCHING(code, MemorySim_GetMemoryMapXML(m));
}
/* a map of many regions lists every one of them, in order */
void t_many(void)
{
    IMemory* m = MemorySim_Init();
    uint32_t i;
    for (i = 0; i < 70; i++) {
        MemorySim_CreateRegion(m, 0x20000000u + 0x1000u * i, 4 + i);
        if (i % 3 == 1) MemorySim_MakeRegionReadOnly(m, 0x20000000u + 0x1000u * i);
    }
    at = MemorySim_GetMemoryMapXML(m);
    expect(header);
    for (i = 0; i < 70; i++) expect_region(i % 3 == 1, 0x20000000u + 0x1000u * i, 4 + i);
    expect(trailer);
    OBLIGE(*at == 0);
    MARK(document);
    MemorySim_Uninit(m);
    OBLIGE(mdl_live_allocs == 0);
}
