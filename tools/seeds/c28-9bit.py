prop = 'C28'
needs = 'an exception number above 255'
breaks = 'interrupt numbers are taken modulo 256 again when the signal is chosen'
edits = {'libCrashDebug/src/mriPlatform.c': [('    uint32_t exceptionNumber = getCurrentlyExecutingExceptionNumber();', '    uint8_t exceptionNumber = getCurrentlyExecutingExceptionNumber();')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <signal.h>
#include <mri.h>
#include <platforms.h>
#include <mriPlatform.h>
#include <MemorySim.h>
int main(void)
{
    static RegisterContext ctx;
    mriPlatform_Init(&ctx, MemorySim_Init());
    ctx.exceptionPSR = 261;
    CHECK(Platform_DetermineCauseOfException() == SIGSTOP);
    DONE();
}
'''
