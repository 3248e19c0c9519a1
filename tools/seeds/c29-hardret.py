prop = 'C29'
needs = 'a forced hard fault with status registers of which the bus fault ones are clear'
breaks = 'a bus fault status without bits ends the whole report, so the usage fault behind a forced hard fault is not shown'
edits = {'libCrashDebug/src/mriPlatform.c': [('        displayMemFaultCauseToGdbConsole();\n        displayBusFaultCauseToGdbConsole();\n        displayUsageFaultCauseToGdbConsole();\n    }', '        displayMemFaultCauseToGdbConsole();\n        displayBusFaultCauseToGdbConsole();\n        if (hardFaultStatusRegister & ~forcedBit)\n            return;\n        displayUsageFaultCauseToGdbConsole();\n    }')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <signal.h>
#include <mri.h>
#include <platforms.h>
#include <buffer.h>
#include <mriPlatform.h>
#include <CrashCatcher.h>
#include <MemorySim.h>
static RegisterContext ctx;
static IMemory* mem;
static void start(uint32_t flags) { int i; memset(&ctx, 0, sizeof(ctx)); for (i = 0 ; i < TOTAL_REG_COUNT ; i++) ctx.R[i] = 0x1000 + i; for (i = 0 ; i < 33 ; i++) ctx.FPR[i] = 0x2000 + i; ctx.flags = flags; mem = MemorySim_Init(); mriPlatform_Init(&ctx, mem); }
int main(void)
{
    start(0);
    MemorySim_CreateRegion(mem, 0xE000ED28, 0x14);
    IMemory_Write32(mem, 0xE000ED28, 0x00010000);
    IMemory_Write32(mem, 0xE000ED2C, 0x40000002);
    ctx.exceptionPSR = 3;
    Platform_DisplayFaultCauseToGdbConsole();
    CHECK(strstr(g_console, "Undefined Instruction") != NULL);
    DONE();
}
'''
