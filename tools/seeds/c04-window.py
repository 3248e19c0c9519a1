prop = "C04"
needs = "an alias whose redirect address is not the base of its target region and whose size reaches past the region's end"
breaks = "the alias is clipped to the size of the whole target region instead of what is left behind the redirect address, so its tail maps outside the target's data"
edits = {"libCrashDebug/src/MemorySim.c": [("        if (size > maxSize)\n            pRegion->size = maxSize;", "        if (size > pRedirect->size)\n            pRegion->size = maxSize;")]}
demo = r'''
#include "demo.h"
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    int code;
    MemorySim_CreateRegion(p, 0x20000000, 0x100);
    MemorySim_CreateAlias(p, 0x10000000, 0x20000080, 0x100);
    ATTEMPT(code, IMemory_Read32(p, 0x1000007C));
    CHECK(code == 0);
    ATTEMPT(code, IMemory_Read32(p, 0x10000080));
    CHECK(code == busErrorException);
    DONE();
}
'''
