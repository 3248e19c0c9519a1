prop = "C02"
needs = "a 1-byte simulated write to an address in read-only memory (the wider writes are still refused)"
breaks = "a byte write to a FLASH region is treated as a load, so read-only contents change"
edits = {"libCrashDebug/src/MemorySim.c": [("*(uint8_t*)getDataPointer((MemorySim*)pMemory, address, sizeof(uint8_t), WRITING, ENABLE_WATCHPOINT_CHECK) = value;",
 "*(uint8_t*)getDataPointer((MemorySim*)pMemory, address, sizeof(uint8_t), LOADING, ENABLE_WATCHPOINT_CHECK) = value;")]}
demo = r'''
#include "demo.h"
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    int code;
    MemorySim_CreateRegion(p, 0x1000, 16);
    IMemory_Write8(p, 0x1005, 0x5A);
    MemorySim_MakeRegionReadOnly(p, 0x1000);
    ATTEMPT(code, IMemory_Write8(p, 0x1005, 0xFF));
    CHECK(code == busErrorException);
    CHECK(IMemory_Read8(p, 0x1005) == 0x5A);
    DONE();
}
'''
