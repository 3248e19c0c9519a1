prop = "C03"
needs = "a second region overlapping an earlier one: the earlier region must keep answering"
breaks = "new regions are put at the head of the list, so data written to an address before an overlapping region is added no longer reads back"
edits = {"libCrashDebug/src/MemorySim.c": [("""    if (!pThis->pTailRegion)
        pThis->pHeadRegion = pRegion;
    else
        pThis->pTailRegion->pNext = pRegion;
    pThis->pTailRegion = pRegion;
}""", """    pRegion->pNext = pThis->pHeadRegion;
    pThis->pHeadRegion = pRegion;
    if (!pThis->pTailRegion)
        pThis->pTailRegion = pRegion;
}""")]}
demo = r'''
#include "demo.h"
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    MemorySim_CreateRegion(p, 0x1000, 16);
    IMemory_Write32(p, 0x1004, 0x12345678);
    MemorySim_CreateRegion(p, 0x1004, 16);
    CHECK(IMemory_Read32(p, 0x1004) == 0x12345678);
    DONE();
}
'''
