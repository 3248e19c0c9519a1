prop = "C05"
needs = "two watchpoints starting at the same address of which the first in the list does not cover the access"
breaks = "the search for a matching watchpoint stops at an entry that starts at the accessed address but is too short"
edits = {"libCrashDebug/src/MemorySim.c": [("else if (pWatchpoint->startAddress > address)", "else if (pWatchpoint->startAddress >= address)")]}
demo = r'''
#include "demo.h"
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    MemorySim_CreateRegion(p, 0x1000, 64);
    MemorySim_SetHardwareWatchpoint(p, 0x1010, 1, WATCHPOINT_WRITE);
    MemorySim_SetHardwareWatchpoint(p, 0x1010, 4, WATCHPOINT_WRITE);
    IMemory_Write32(p, 0x1010, 1);
    CHECK(MemorySim_WasWatchpointEncountered(p) == 1);
    DONE();
}
'''
