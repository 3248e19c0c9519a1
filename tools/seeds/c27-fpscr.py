prop = 'C27'
needs = 'GDB writes the floating point registers'
breaks = 'the last floating point register (FPSCR) is not taken over from GDB'
edits = {'libCrashDebug/src/mriPlatform.c': [('        readBytesFromBufferAsHex(pBuffer, g_pContext->FPR, sizeof(g_pContext->FPR));', '        readBytesFromBufferAsHex(pBuffer, g_pContext->FPR, 16 * sizeof(uint64_t));')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <signal.h>
#include <mri.h>
#include <platforms.h>
#include <buffer.h>
#include <mriPlatform.h>
#include <CrashCatcher.h>
#include <MemorySim.h>
static RegisterContext ctx;
static IMemory* mem;
static void start(uint32_t flags) { int i; memset(&ctx, 0, sizeof(ctx)); for (i = 0 ; i < TOTAL_REG_COUNT ; i++) ctx.R[i] = 0x1000 + i; for (i = 0 ; i < 33 ; i++) ctx.FPR[i] = 0x2000 + i; ctx.flags = flags; mem = MemorySim_Init(); mriPlatform_Init(&ctx, mem); }
int main(void)
{
    static char text[2000]; Buffer b; int i;
    start(1);
    memset(text, '7', sizeof(text)); b.pStart = b.pCurrent = text; b.pEnd = text + sizeof(text) - 1;
    Platform_CopyContextFromBuffer(&b);
    CHECK(ctx.R[0] == 0x77777777 && ctx.FPR[0] == 0x77777777 && ctx.FPR[31] == 0x77777777);
    CHECK(ctx.FPR[32] == 0x77777777);
    DONE();
}
'''
