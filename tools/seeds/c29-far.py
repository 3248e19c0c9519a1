prop = 'C29'
needs = 'a bus fault with a valid fault address'
breaks = 'the address register of the memory management fault is shown for bus faults'
edits = {'libCrashDebug/src/mriPlatform.c': [('IMemory_Read32(g_pMemory, BFAR);', 'IMemory_Read32(g_pMemory, BFAR - sizeof(uint32_t));')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <signal.h>
#include <mri.h>
#include <platforms.h>
#include <buffer.h>
#include <mriPlatform.h>
#include <CrashCatcher.h>
#include <MemorySim.h>
static RegisterContext ctx;
static IMemory* mem;
static void start(uint32_t flags) { int i; memset(&ctx, 0, sizeof(ctx)); for (i = 0 ; i < TOTAL_REG_COUNT ; i++) ctx.R[i] = 0x1000 + i; for (i = 0 ; i < 33 ; i++) ctx.FPR[i] = 0x2000 + i; ctx.flags = flags; mem = MemorySim_Init(); mriPlatform_Init(&ctx, mem); }
int main(void)
{
    start(0);
    MemorySim_CreateRegion(mem, 0xE000ED28, 0x14);
    IMemory_Write32(mem, 0xE000ED28, 0x8200);
    IMemory_Write32(mem, 0xE000ED38, 0x12345678);
    ctx.exceptionPSR = 5;
    Platform_DisplayFaultCauseToGdbConsole();
    CHECK(strstr(g_console, "0x12345678") != NULL);
    DONE();
}
'''
