prop = "C16"
needs = "memory lines with a small forward gap between two blocks"
breaks = "a block that starts behind the end of the previous one is appended to it, so the gap shifts: the block's own addresses are not created"
edits = {"libCrashDebug/src/GdbLogParser.c": [("if (pParseResults->address != pObject->nextExpectedAddress)", "if (pParseResults->address - pObject->nextExpectedAddress >= 16)")]}
demo = r'''
#include "demo.h"
#include <GdbLogParser.h>
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    int code;
    putText("l", "0x10000000:\t0x00000001\t0x00000002\n0x1000000c:\t0x00000003\t0x00000004\n");
    ATTEMPT(code, GdbLogParse(p, &c, "l"));
    CHECK(code == 0);
    ATTEMPT(code, CHECK(IMemory_Read32(p, 0x10000010) == 4));
    CHECK(code == 0);
    ATTEMPT(code, IMemory_Read32(p, 0x10000008));
    CHECK(code == busErrorException);
    DONE();
}
'''
