prop = 'C22'
needs = 'an alias in the memory that is cleaned up'
breaks = 'the buffer of an alias is not released with it'
edits = {'libCrashDebug/src/MemorySim.c': [('    free(pRegion->pData);\n    free(pRegion);', '    if (!pRegion->isAlias)\n        free(pRegion->pData);\n    free(pRegion);')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <MemorySim.h>
#include <MallocFailureInject.h>
static int live, calls, failat;
static void* cm(size_t n) { if (++calls == failat) return NULL; live++; return plain_malloc(n); }
static void* cr(void* p, size_t n) { if (++calls == failat) return NULL; if (!p) live++; return plain_realloc(p, n); }
static void cf(void* p) { if (p) live--; plain_free(p); }
static void hooks(void) { hook_malloc = cm; hook_realloc = cr; hook_free = cf; }
int main(void)
{
    IMemory* p;
    hooks();
    p = MemorySim_Init();
    MemorySim_CreateRegion(p, 0x1000, 64);
    MemorySim_CreateAlias(p, 0x2000, 0x1000, 32);
    MemorySim_Uninit(p);
    CHECK(live == 0);
    DONE();
}
'''
