prop = "C06"
needs = "a memory map with several read-only regions at 8-digit addresses, whose lines are longest"
breaks = "the XML buffer is sized without room for aliases, so a map with an alias overruns it"
edits = {"libCrashDebug/src/MemorySim.c": [("        count++;\n        pCurr = pCurr->pNext;", "        count += !pCurr->isAlias;\n        pCurr = pCurr->pNext;")]}
demo = r'''
#include "demo.h"
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    int i;
    MemorySim_CreateRegion(p, 0x20000000, 0x1000);
    MemorySim_MakeRegionReadOnly(p, 0x20000000);
    for (i = 0 ; i < 3 ; i++) MemorySim_CreateAlias(p, 0x80000000 + i * 0x1000, 0x20000000, 0x1000);
    CHECK(strstr(MemorySim_GetMemoryMapXML(p), "</memory-map>") != NULL);
    CHECK(strstr(MemorySim_GetMemoryMapXML(p), "start=\"0x80002000\"") != NULL);
    DONE();
}
'''
