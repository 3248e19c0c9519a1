prop = 'C27'
needs = 'looking at the stack pointer in the stop reply'
breaks = "the stop reply pairs the link register's number with the main stack pointer's value"
edits = {'libCrashDebug/src/mriPlatform.c': [('    sendRegisterForTResponse(pBuffer, 13, g_pContext->R[13]);', '    sendRegisterForTResponse(pBuffer, 13, g_pContext->R[MSP]);')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <signal.h>
#include <mri.h>
#include <platforms.h>
#include <buffer.h>
#include <mriPlatform.h>
#include <CrashCatcher.h>
#include <MemorySim.h>
static RegisterContext ctx;
static IMemory* mem;
static void start(uint32_t flags) { int i; memset(&ctx, 0, sizeof(ctx)); for (i = 0 ; i < TOTAL_REG_COUNT ; i++) ctx.R[i] = 0x1000 + i; for (i = 0 ; i < 33 ; i++) ctx.FPR[i] = 0x2000 + i; ctx.flags = flags; mem = MemorySim_Init(); mriPlatform_Init(&ctx, mem); }
int main(void)
{
    static char text[2000]; Buffer b;
    start(0);
    b.pStart = b.pCurrent = text; b.pEnd = text + sizeof(text) - 1;
    Platform_WriteTResponseRegistersToBuffer(&b);
    CHECK(strstr(text, "0d:0d100000;") != NULL);
    DONE();
}
'''
