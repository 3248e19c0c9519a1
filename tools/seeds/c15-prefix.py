prop = "C15"
needs = "a register line whose value does not start in the usual column, or other log text starting with a register name"
breaks = "only the name and one blank are compared, so other text lines that begin with a register name change the register"
edits = {"libCrashDebug/src/GdbLogParser.c": [("strncmp(registers[i].pName, pLine, 15)", "strncmp(registers[i].pName, pLine, strcspn(registers[i].pName, \" \") + 1)")]}
demo = r'''
#include "demo.h"
#include <GdbLogParser.h>
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    putText("l", "sp             0x10001000\t0x10001000\nsp was changed by the boot loader\n");
    GdbLogParse(p, &c, "l");
    CHECK(c.R[SP] == 0x10001000);
    DONE();
}
'''
