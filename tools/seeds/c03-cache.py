prop = 'C03'
needs = 'overlapping regions, an access that only the later one holds, then one that both hold'
breaks = 'the region found last is tried first, so which of two overlapping regions answers depends on the access before'
edits = {'libCrashDebug/src/MemorySim.c': [('    uint32_t address = *pAddress;\n    MemoryRegion* pCurr = pThis->pHeadRegion;\n\n    while (pCurr)\n    {', '    uint32_t address = *pAddress;\n    MemoryRegion* pCurr = pThis->pHeadRegion;\n\n    if (pThis->pLastRegion && size && address >= pThis->pLastRegion->baseAddress && !pThis->pLastRegion->isAlias &&\n        (uint64_t)address + size <= (uint64_t)pThis->pLastRegion->baseAddress + pThis->pLastRegion->size)\n        return pThis->pLastRegion;\n    while (pCurr)\n    {'), ('                return pCurr->pRedirect;\n            }\n            return pCurr;', '                return pCurr->pRedirect;\n            }\n            pThis->pLastRegion = pCurr;\n            return pCurr;'), ('    MemoryRegion*  pTailRegion;\n    char* ', '    MemoryRegion*  pTailRegion;\n    MemoryRegion*  pLastRegion;\n    char* '), ('    pThis->pHeadRegion = pThis->pTailRegion = NULL;\n', '    pThis->pHeadRegion = pThis->pTailRegion = pThis->pLastRegion = NULL;\n'), ('    pThis->pTailRegion = pPrev;\n', '    pThis->pTailRegion = pPrev;\n    pThis->pLastRegion = NULL;\n')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    MemorySim_CreateRegion(p, 0x1000, 16);
    MemorySim_CreateRegion(p, 0x1008, 16);
    IMemory_Write32(p, 0x1008, 0x11223344);
    CHECK(IMemory_Read32(p, 0x1008) == 0x11223344);
    IMemory_Write32(p, 0x1014, 5);
    CHECK(IMemory_Read32(p, 0x1008) == 0x11223344);
    DONE();
}
'''
