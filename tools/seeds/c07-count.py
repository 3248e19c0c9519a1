prop = "C07"
needs = "a halfword read of read-only memory through an address that is not the region's first halfwords: counts land in the wrong slot"
breaks = "fetch counts are kept per word instead of per halfword, so neighbouring instructions share one counter"
edits = {"libCrashDebug/src/MemorySim.c": [("pRegion->pReadCounts[regionOffset / sizeof(uint16_t)]++;", "pRegion->pReadCounts[(regionOffset & ~2u) / sizeof(uint16_t)]++;")]}
demo = r'''
#include "demo.h"
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    MemorySim_CreateRegion(p, 0, 16);
    MemorySim_MakeRegionReadOnly(p, 0);
    IMemory_Read16(p, 6);
    CHECK(MemorySim_GetFlashReadCount(p, 6) == 1);
    CHECK(MemorySim_GetFlashReadCount(p, 4) == 0);
    DONE();
}
'''
