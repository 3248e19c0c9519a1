prop = 'C07'
needs = '65536 fetches of one instruction'
breaks = 'fetch counts wrap at 65536'
edits = {'libCrashDebug/src/MemorySim.c': [('pRegion->pReadCounts[regionOffset / sizeof(uint16_t)]++;', 'pRegion->pReadCounts[regionOffset / sizeof(uint16_t)] = (uint16_t)(pRegion->pReadCounts[regionOffset / sizeof(uint16_t)] + 1);')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    int i;
    MemorySim_CreateRegion(p, 0, 16);
    MemorySim_MakeRegionReadOnly(p, 0);
    for (i = 0 ; i < 70000 ; i++)
        IMemory_Read16(p, 6);
    CHECK(MemorySim_GetFlashReadCount(p, 6) == 70000);
    DONE();
}
'''
