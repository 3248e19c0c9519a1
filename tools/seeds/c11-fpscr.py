prop = "C11"
needs = "a dump with floating point registers and a non-zero FPSCR, or with memory behind them"
breaks = "FPSCR is not read from the dump, so it stays zero and the memory regions behind it are misread"
edits = {"libCrashDebug/src/CrashCatcherDump.c": [("pObject->pContext->FPR, sizeof(pObject->pContext->FPR));", "pObject->pContext->FPR, FPSCR * sizeof(uint32_t));"), ("if (result != sizeof(pObject->pContext->FPR))", "if (result != FPSCR * sizeof(uint32_t))")]}
demo = r'''
#include "demo.h"
#include <CrashCatcherDump.h>
#include <MemorySim.h>
static uint8_t d[400000]; static size_t n;
static void w32(uint32_t v) { memcpy(d + n, &v, 4); n += 4; }
static void sig(int version) { n = 0; d[n++] = 99; d[n++] = 67; d[n++] = version; d[n++] = 0; }
static void regs(int version, int fpu)
{
    int i;
    w32(fpu ? 1 : 0);
    for (i = 0 ; i < (version == 2 ? 17 : 19) ; i++) w32(0x1000 + i);
    w32(0x77);
    if (fpu) for (i = 0 ; i < 33 ; i++) w32(0x2000 + i);
}

int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    int code;
    sig(3); regs(3, 1);
    putFile("d", d, n);
    ATTEMPT(code, CrashCatcherDump_ReadBinary(p, &c, "d"));
    CHECK(code == 0);
    CHECK(c.FPR[FPSCR] == 0x2020);
    DONE();
}
'''
