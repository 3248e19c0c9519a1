prop = 'C22'
needs = 'a memory map was asked for before clean-up, and clean-up happens twice'
breaks = 'the memory map pointer survives the clean-up and is released again'
edits = {'libCrashDebug/src/MemorySim.c': [('    free(pThis->pMemoryMapXML);\n    pThis->pMemoryMapXML = NULL;', '    free(pThis->pMemoryMapXML);')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    MemorySim_CreateRegion(p, 0x1000, 64);
    MemorySim_GetMemoryMapXML(p);
    MemorySim_Uninit(p);
    MemorySim_Uninit(p);
    DONE();
}
'''
