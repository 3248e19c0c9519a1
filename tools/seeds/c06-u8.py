prop = 'C06'
needs = 'more than 255 regions'
breaks = 'the number of regions is counted in 8 bits, so the document of more than 255 does not fit its buffer'
edits = {'libCrashDebug/src/MemorySim.c': [('static size_t countRegions(MemorySim* pThis);', 'static uint8_t countRegions(MemorySim* pThis);'), ('static size_t countRegions(MemorySim* pThis)\n{\n    size_t        count', 'static uint8_t countRegions(MemorySim* pThis)\n{\n    uint8_t       count')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    const char* x;
    int i, n = 0;
    for (i = 0 ; i < 300 ; i++)
        MemorySim_CreateRegion(p, i * 0x1000, 16);
    x = MemorySim_GetMemoryMapXML(p);
    while ((x = strstr(x, "<memory ")) != NULL) { n++; x++; }
    CHECK(n == 300);
    DONE();
}
'''
