prop = 'C25'
needs = 'GDB sets a hardware watchpoint and then reads the watched memory'
breaks = 'watchpoints are handed to the simulated memory, where later reads of the debugger hit them'
edits = {'libCrashDebug/src/mriPlatform.c': [('__throws void Platform_SetHardwareBreakpoint(uint32_t address, uint32_t kind)\n{\n', '__throws void Platform_SetHardwareBreakpoint(uint32_t address, uint32_t kind)\n{\n    MemorySim_SetHardwareBreakpoint(g_pMemory, address, kind);\n')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <signal.h>
#include <mri.h>
#include <platforms.h>
#include <buffer.h>
#include <mriPlatform.h>
#include <CrashCatcher.h>
#include <MemorySim.h>
static RegisterContext ctx;
static IMemory* mem;
static void start(uint32_t flags) { int i; memset(&ctx, 0, sizeof(ctx)); for (i = 0 ; i < TOTAL_REG_COUNT ; i++) ctx.R[i] = 0x1000 + i; for (i = 0 ; i < 33 ; i++) ctx.FPR[i] = 0x2000 + i; ctx.flags = flags; mem = MemorySim_Init(); mriPlatform_Init(&ctx, mem); }
int main(void)
{
    int code;
    start(0);
    MemorySim_CreateRegion(mem, 0x1000, 16);
    ATTEMPT(code, Platform_SetHardwareBreakpoint(0x1000, 2));
    ATTEMPT(code, IMemory_Read16(mem, 0x1000));
    CHECK(code == 0);
    DONE();
}
'''
