prop = "C13"
needs = "a dumped memory region larger than 64 KiB"
breaks = "the offset into a dumped region is kept in 16 bits, so everything behind the first 64 KiB is written over its beginning"
edits = {"libCrashDebug/src/CrashCatcherDump.c": [("IMemory_Write8(pObject->pMem, address++, byte);", "IMemory_Write8(pObject->pMem, address + (uint16_t)i, byte);")]}
demo = r'''
#include "demo.h"
#include <CrashCatcherDump.h>
#include <MemorySim.h>
static uint8_t d[400000]; static size_t n;
static void w32(uint32_t v) { memcpy(d + n, &v, 4); n += 4; }
static void sig(int version) { n = 0; d[n++] = 99; d[n++] = 67; d[n++] = version; d[n++] = 0; }
static void regs(int version, int fpu)
{
    int i;
    w32(fpu ? 1 : 0);
    for (i = 0 ; i < (version == 2 ? 17 : 19) ; i++) w32(0x1000 + i);
    w32(0x77);
    if (fpu) for (i = 0 ; i < 33 ; i++) w32(0x2000 + i);
}

int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    int code, i;
    sig(3); regs(3, 0);
    w32(0x20000000); w32(0x20010010);
    for (i = 0 ; i < 0x10010 ; i++) d[n++] = i < 0x10000 ? 0x11 : 0x22;
    putFile("d", d, n);
    ATTEMPT(code, CrashCatcherDump_ReadBinary(p, &c, "d"));
    CHECK(code == 0);
    CHECK(IMemory_Read32(p, 0x20000000) == 0x11111111);
    CHECK(IMemory_Read32(p, 0x2001000C) == 0x22222222);
    DONE();
}
'''
