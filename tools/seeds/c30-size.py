prop = 'C30'
needs = 'a dump with floating point registers'
breaks = 'the description with floating point registers is reported one byte too long'
edits = {'libCrashDebug/src/mriPlatform.c': [('        return sizeof(g_targetFpuXML) - 1;', '        return sizeof(g_targetFpuXML);')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <signal.h>
#include <mri.h>
#include <platforms.h>
#include <buffer.h>
#include <mriPlatform.h>
#include <CrashCatcher.h>
#include <MemorySim.h>
static RegisterContext ctx;
static IMemory* mem;
static void start(uint32_t flags) { int i; memset(&ctx, 0, sizeof(ctx)); for (i = 0 ; i < TOTAL_REG_COUNT ; i++) ctx.R[i] = 0x1000 + i; for (i = 0 ; i < 33 ; i++) ctx.FPR[i] = 0x2000 + i; ctx.flags = flags; mem = MemorySim_Init(); mriPlatform_Init(&ctx, mem); }
int main(void)
{
    start(1);
    CHECK(Platform_GetTargetXmlSize() == strlen(Platform_GetTargetXml()));
    DONE();
}
'''
