prop = 'C26'
needs = 'a refused byte write by the debugger'
breaks = 'a failed byte write is not counted as a fault'
edits = {'libCrashDebug/src/mriPlatform.c': [('        IMemory_Write8(g_pMemory, (uint32_t)(unsigned long)pv, value);\n    __catch\n        g_memoryFaultEncountered++;', '        IMemory_Write8(g_pMemory, (uint32_t)(unsigned long)pv, value);\n    __catch\n        clearExceptionCode();')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <signal.h>
#include <mri.h>
#include <platforms.h>
#include <buffer.h>
#include <mriPlatform.h>
#include <CrashCatcher.h>
#include <MemorySim.h>
static RegisterContext ctx;
static IMemory* mem;
static void start(uint32_t flags) { int i; memset(&ctx, 0, sizeof(ctx)); for (i = 0 ; i < TOTAL_REG_COUNT ; i++) ctx.R[i] = 0x1000 + i; for (i = 0 ; i < 33 ; i++) ctx.FPR[i] = 0x2000 + i; ctx.flags = flags; mem = MemorySim_Init(); mriPlatform_Init(&ctx, mem); }
int main(void)
{
    start(0);
    Platform_MemWrite8((void*)0x1000, 1);
    CHECK(Platform_WasMemoryFaultEncountered());
    DONE();
}
'''
