prop = "C03"
needs = "a region larger than 64 KiB whose upper part is read before it is written (heap memory that was used before)"
breaks = "only the first 64 KiB of a new region are zeroed; the rest shows recycled host memory"
edits = {"libCrashDebug/src/MemorySim.c": [("    memset(pvAlloc, 0, size);\n    return pvAlloc;", "    memset(pvAlloc, 0, (uint16_t)(size - 1) + 1);\n    return pvAlloc;")]}
demo = r'''
#include "demo.h"
#include <MemorySim.h>
#include <MallocFailureInject.h>
static void* dirty(size_t size) { void* p = (calloc)(1, size); if (p) memset(p, 0xA5, size); return p; }
int main(void)
{
    IMemory* p = MemorySim_Init();
    uint32_t i, bad = 0;
    hook_malloc = dirty;
    MemorySim_CreateRegion(p, 0x20000000, 0x20004);
    for (i = 0 ; i < 0x20004 ; i++) bad += IMemory_Read8(p, 0x20000000 + i) != 0;
    CHECK(bad == 0);
    DONE();
}
'''
