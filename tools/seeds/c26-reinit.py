prop = 'C26'
needs = 'a second session after one that ended with an unreported fault'
breaks = 'the fault of the previous session is reported in the new one'
edits = {'libCrashDebug/src/mriPlatform.c': [('    g_memoryFaultEncountered = FALSE;\n', '')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <signal.h>
#include <mri.h>
#include <platforms.h>
#include <buffer.h>
#include <mriPlatform.h>
#include <CrashCatcher.h>
#include <MemorySim.h>
static RegisterContext ctx;
static IMemory* mem;
static void start(uint32_t flags) { int i; memset(&ctx, 0, sizeof(ctx)); for (i = 0 ; i < TOTAL_REG_COUNT ; i++) ctx.R[i] = 0x1000 + i; for (i = 0 ; i < 33 ; i++) ctx.FPR[i] = 0x2000 + i; ctx.flags = flags; mem = MemorySim_Init(); mriPlatform_Init(&ctx, mem); }
int main(void)
{
    start(0);
    Platform_MemRead8((void*)0x1000);
    start(0);
    CHECK(!Platform_WasMemoryFaultEncountered());
    DONE();
}
'''
