prop = 'C05'
needs = 'more than 64 watchpoints in one region'
breaks = 'only the first 64 break- and watchpoints of a region are looked at'
edits = {'libCrashDebug/src/MemorySim.c': [('    for (i = 0 ; i < pRegion->watchpointCount ; i++)\n    {\n        Watchpoint* pWatchpoint', '    for (i = 0 ; i < pRegion->watchpointCount && i < 64 ; i++)\n    {\n        Watchpoint* pWatchpoint')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    int i;
    MemorySim_CreateRegion(p, 0x1000, 4096);
    for (i = 0 ; i < 70 ; i++)
        MemorySim_SetHardwareWatchpoint(p, 0x1000 + 8 * i, 4, WATCHPOINT_WRITE);
    for (i = 0 ; i < 70 ; i++)
    {
        IMemory_Write32(p, 0x1000 + 8 * i, 1);
        CHECK(MemorySim_WasWatchpointEncountered(p));
    }
    DONE();
}
'''
