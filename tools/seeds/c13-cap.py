prop = 'C13'
needs = 'a dump with more than 64 memory regions'
breaks = 'reading stops without a word after 64 memory regions'
edits = {'libCrashDebug/src/CrashCatcherDump.c': [('    int eof = FALSE;\n\n    do', '    int eof = FALSE;\n    int regionCount = 0;\n\n    do'), ('while (!eof);', 'while (!eof && ++regionCount < 64);')]}
mode = 'core'
leaks = 0
demo = r'''
#include "demo.h"
#include <CrashCatcherDump.h>
#include <MemorySim.h>
static uint8_t d[400000]; static size_t n;
static void w32(uint32_t v) { memcpy(d + n, &v, 4); n += 4; }
static void sig(int version) { n = 0; d[n++] = 99; d[n++] = 67; d[n++] = version; d[n++] = 0; }
static void regs(int version, int fpu)
{
    int i;
    w32(fpu ? 1 : 0);
    for (i = 0 ; i < (version == 2 ? 17 : 19) ; i++) w32(0x1000 + i);
    w32(0x77);
    if (fpu) for (i = 0 ; i < 33 ; i++) w32(0x2000 + i);
}

int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    int code, i;
    sig(3); regs(3, 0);
    for (i = 0 ; i < 80 ; i++) { w32(0x20000000 + 16 * i); w32(0x20000000 + 16 * i + 4); w32(i); }
    putFile("d", d, n);
    ATTEMPT(code, CrashCatcherDump_ReadBinary(p, &c, "d"));
    CHECK(code == 0);
    for (i = 0 ; i < 80 ; i++)
    {
        uint32_t v = 0;
        ATTEMPT(code, v = IMemory_Read32(p, 0x20000000 + 16 * i));
        CHECK(code == 0 && v == (uint32_t)i);
    }
    DONE();
}
'''
