prop = 'C30'
needs = 'counting the floating point registers of the description'
breaks = 'register d7 is missing from the description with floating point registers'
edits = {'libCrashDebug/src/mriPlatform.c': [('    "<reg name=\\"d7\\" bitsize=\\"64\\" type=\\"ieee_double\\"/>\\n"\n', '')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <signal.h>
#include <mri.h>
#include <platforms.h>
#include <buffer.h>
#include <mriPlatform.h>
#include <CrashCatcher.h>
#include <MemorySim.h>
static RegisterContext ctx;
static IMemory* mem;
static void start(uint32_t flags) { int i; memset(&ctx, 0, sizeof(ctx)); for (i = 0 ; i < TOTAL_REG_COUNT ; i++) ctx.R[i] = 0x1000 + i; for (i = 0 ; i < 33 ; i++) ctx.FPR[i] = 0x2000 + i; ctx.flags = flags; mem = MemorySim_Init(); mriPlatform_Init(&ctx, mem); }
int main(void)
{
    const char* p; int n = 0;
    start(1);
    for (p = Platform_GetTargetXml() ; (p = strstr(p, "bitsize=\"64\"")) != NULL ; p++) n++;
    CHECK(n == 16);
    DONE();
}
'''
