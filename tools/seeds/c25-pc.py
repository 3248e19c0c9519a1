prop = 'C25'
needs = 'GDB asks to continue at another address'
breaks = 'the requested program counter is written to the crash context'
edits = {'libCrashDebug/src/mriPlatform.c': [("    /* This is just called when user tries to set new PC value from continue command which we don't really support", "    g_pContext->R[PC] = newPC;\n    /* This is just called when user tries to set new PC value from continue command which we don't really support")]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <signal.h>
#include <mri.h>
#include <platforms.h>
#include <buffer.h>
#include <mriPlatform.h>
#include <CrashCatcher.h>
#include <MemorySim.h>
static RegisterContext ctx;
static IMemory* mem;
static void start(uint32_t flags) { int i; memset(&ctx, 0, sizeof(ctx)); for (i = 0 ; i < TOTAL_REG_COUNT ; i++) ctx.R[i] = 0x1000 + i; for (i = 0 ; i < 33 ; i++) ctx.FPR[i] = 0x2000 + i; ctx.flags = flags; mem = MemorySim_Init(); mriPlatform_Init(&ctx, mem); }
int main(void)
{
    start(0);
    Platform_SetProgramCounter(0x1234);
    CHECK(ctx.R[15] == 0x100F);
    DONE();
}
'''
