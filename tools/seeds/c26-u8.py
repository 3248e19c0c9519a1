prop = 'C26'
needs = '256 failed accesses before the fault is asked for'
breaks = 'the faults are counted in 8 bits: 256 of them look like none'
edits = {'libCrashDebug/src/mriPlatform.c': [('static int              g_memoryFaultEncountered;', 'static uint8_t          g_memoryFaultEncountered;')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <signal.h>
#include <mri.h>
#include <platforms.h>
#include <buffer.h>
#include <mriPlatform.h>
#include <CrashCatcher.h>
#include <MemorySim.h>
static RegisterContext ctx;
static IMemory* mem;
static void start(uint32_t flags) { int i; memset(&ctx, 0, sizeof(ctx)); for (i = 0 ; i < TOTAL_REG_COUNT ; i++) ctx.R[i] = 0x1000 + i; for (i = 0 ; i < 33 ; i++) ctx.FPR[i] = 0x2000 + i; ctx.flags = flags; mem = MemorySim_Init(); mriPlatform_Init(&ctx, mem); }
int main(void)
{
    int i;
    start(0);
    for (i = 0 ; i < 256 ; i++)
        Platform_MemRead8((void*)0x1000);
    CHECK(Platform_WasMemoryFaultEncountered());
    CHECK(!Platform_WasMemoryFaultEncountered());
    DONE();
}
'''
