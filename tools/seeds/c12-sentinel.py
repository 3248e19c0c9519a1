prop = "C12"
needs = "a memory region that starts at the address whose value equals the stack overflow sentinel"
breaks = "a complete region header starting with the sentinel value is taken for a stack overflow report"
edits = {"libCrashDebug/src/CrashCatcherDump.c": [("return (bytesRead == sizeof(pSentinel->sentinel) && pSentinel", "return (bytesRead >= (int)sizeof(pSentinel->sentinel) && pSentinel")]}
demo = r'''
#include "demo.h"
#include <CrashCatcherDump.h>
#include <MemorySim.h>
static uint8_t d[400000]; static size_t n;
static void w32(uint32_t v) { memcpy(d + n, &v, 4); n += 4; }
static void sig(int version) { n = 0; d[n++] = 99; d[n++] = 67; d[n++] = version; d[n++] = 0; }
static void regs(int version, int fpu)
{
    int i;
    w32(fpu ? 1 : 0);
    for (i = 0 ; i < (version == 2 ? 17 : 19) ; i++) w32(0x1000 + i);
    w32(0x77);
    if (fpu) for (i = 0 ; i < 33 ; i++) w32(0x2000 + i);
}

int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    int code;
    sig(3); regs(3, 0);
    w32(0xACCE55ED); w32(0xACCE55F1); w32(0xAABBCCDD);
    putFile("d", d, n);
    ATTEMPT(code, CrashCatcherDump_ReadBinary(p, &c, "d"));
    CHECK(code == 0);
    ATTEMPT(code, CHECK(IMemory_Read32(p, 0xACCE55ED) == 0xAABBCCDD));
    CHECK(code == 0);
    DONE();
}
'''
