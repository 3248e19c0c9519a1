prop = "C05"
needs = "three watchpoints in one region of which the middle one is cleared, then an access to the last"
breaks = "clearing a watchpoint that is neither first nor last drops the entries behind it"
edits = {"libCrashDebug/src/MemorySim.c": [("sizeof(*pRegion->pWatchpoints) * (pRegion->watchpointCount - i - 1));", "sizeof(*pRegion->pWatchpoints) * (i ? pRegion->watchpointCount - i - 2 : pRegion->watchpointCount - 1));")]}
demo = r'''
#include "demo.h"
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    MemorySim_CreateRegion(p, 0x1000, 64);
    MemorySim_SetHardwareWatchpoint(p, 0x1000, 4, WATCHPOINT_WRITE);
    MemorySim_SetHardwareWatchpoint(p, 0x1010, 4, WATCHPOINT_WRITE);
    MemorySim_SetHardwareWatchpoint(p, 0x1020, 4, WATCHPOINT_WRITE);
    MemorySim_ClearHardwareWatchpoint(p, 0x1010, 4, WATCHPOINT_WRITE);
    IMemory_Write32(p, 0x1010, 1);
    CHECK(!MemorySim_WasWatchpointEncountered(p));
    IMemory_Write32(p, 0x1000, 1);
    CHECK(MemorySim_WasWatchpointEncountered(p));
    IMemory_Write32(p, 0x1020, 1);
    CHECK(MemorySim_WasWatchpointEncountered(p));
    DONE();
}
'''
