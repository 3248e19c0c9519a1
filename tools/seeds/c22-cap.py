prop = 'C22'
needs = 'more than 32 regions'
breaks = 'only 32 regions are released at the end'
edits = {'libCrashDebug/src/MemorySim.c': [('    pCurr = pThis->pHeadRegion;\n    while (pCurr)\n    {\n        MemoryRegion* pNext = pCurr->pNext;\n        freeRegion(pCurr);', '    int left = 32;\n\n    pCurr = pThis->pHeadRegion;\n    while (pCurr && left--)\n    {\n        MemoryRegion* pNext = pCurr->pNext;\n        freeRegion(pCurr);')]}
mode = 'core'
leaks = 1
demo = r'''#include "demo.h"
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    int i;
    for (i = 0 ; i < 40 ; i++)
        MemorySim_CreateRegion(p, 0x1000 * i, 16);
    MemorySim_Uninit(p);
    DONE();
}
'''
