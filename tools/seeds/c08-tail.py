prop = "C08"
needs = "a flash image whose RAM region cannot be allocated, followed by adding another region"
breaks = "rolling back the flash region leaves the list's tail pointing at freed memory"
edits = {"libCrashDebug/src/MemorySim.c": [("    pThis->pTailRegion = pPrev;\n    freeRegion(pCurr);", "    if (pPrev)\n        pThis->pTailRegion = pPrev;\n    freeRegion(pCurr);")]}
demo = r'''
#include "demo.h"
#include <MemorySim.h>
#include <MallocFailureInject.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    uint32_t image[4] = { 0x20001000, 1, 2, 3 };
    int code;
    MallocFailureInject_FailAllocation(5);
    ATTEMPT(code, MemorySim_CreateRegionsFromFlashImage(p, image, sizeof(image)));
    MallocFailureInject_Restore();
    CHECK(code == outOfMemoryException);
    MemorySim_CreateRegion(p, 0x100, 16);
    ATTEMPT(code, IMemory_Write32(p, 0x100, 0xDEADBEEF));
    CHECK(code == 0);
    DONE();
}
'''
