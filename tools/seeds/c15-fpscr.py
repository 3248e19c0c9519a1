prop = "C15"
needs = "a GDB log that contains the fpscr line"
breaks = "fpscr is parsed like a floating point value and becomes 0xFFFFFFFF"
edits = {"libCrashDebug/src/GdbLogParser.c": [("registerOffset <= offsetof(RegisterContext, FPR[S31]);", "registerOffset <= offsetof(RegisterContext, FPR[FPSCR]);")]}
demo = r'''
#include "demo.h"
#include <GdbLogParser.h>
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    putText("l", "s0             1\t(raw 0x3f800000)\nfpscr          0x1234\t4660\n");
    GdbLogParse(p, &c, "l");
    CHECK(c.FPR[S0] == 0x3f800000);
    CHECK(c.FPR[FPSCR] == 0x1234);
    DONE();
}
'''
