prop = "C16"
needs = "a log whose first memory line is at address 0"
breaks = "the first line is taken for the continuation of a region that was never started: its words cannot be loaded and the log is refused"
edits = {"libCrashDebug/src/GdbLogParser.c": [("    object.nextExpectedAddress = 0xFFFFFFFF;", "    object.nextExpectedAddress = 0;")]}
mode = "core"
demo = r'''
#include "demo.h"
#include <GdbLogParser.h>
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    int code;
    putText("l", "0x00000000:\t0x00000001\t0x00000002\n0x1000000c:\t0x00000003\t0x00000004\n");
    ATTEMPT(code, GdbLogParse(p, &c, "l"));
    CHECK(code == 0);
    ATTEMPT(code, CHECK(IMemory_Read32(p, 0x4) == 2));
    CHECK(code == 0);
    DONE();
}
'''
