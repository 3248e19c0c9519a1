prop = "C01"
needs = "a 2- or 4-byte access whose address is within 3 bytes of 0xFFFFFFFF while a region based at 0 (or elsewhere low) exists and a region reaching the top of the address space"
breaks = "findMatchingRegion's end-of-access sum wraps at 32 bits, so an access across the top of the address space is accepted and reads past the region's buffer"
edits = {"libCrashDebug/src/MemorySim.c": [("(uint64_t)address + size <= (uint64_t)pCurr->baseAddress + pCurr->size", "address + size <= (uint64_t)pCurr->baseAddress + pCurr->size")]}
demo = r'''
#include "demo.h"
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    int code;
    MemorySim_CreateRegion(p, 0xFFFFFFF0, 15);
    ATTEMPT(code, IMemory_Read32(p, 0xFFFFFFFC));
    CHECK(code == busErrorException);
    ATTEMPT(code, IMemory_Write16(p, 0xFFFFFFFE, 0xAAAA));
    CHECK(code == busErrorException);
    ATTEMPT(code, IMemory_Read8(p, 0xFFFFFFFE));
    CHECK(code == 0);
    DONE();
}
'''
