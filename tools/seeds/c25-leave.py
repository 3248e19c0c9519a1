prop = 'C25'
needs = 'the session loop runs while no debugger is connected yet'
breaks = 'the session ends as soon as the debugger has left instead of when the connection asks for it'
edits = {'libCrashDebug/src/mriPlatform.c': [('    } while (!IComm_ShouldStopRun(pComm));', '    } while (!IComm_ShouldStopRun(pComm) && IComm_IsGdbConnected(pComm));')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <signal.h>
#include <mri.h>
#include <platforms.h>
#include <buffer.h>
#include <mriPlatform.h>
#include <CrashCatcher.h>
#include <MemorySim.h>
static RegisterContext ctx;
static IMemory* mem;
static void start(uint32_t flags) { int i; memset(&ctx, 0, sizeof(ctx)); for (i = 0 ; i < TOTAL_REG_COUNT ; i++) ctx.R[i] = 0x1000 + i; for (i = 0 ; i < 33 ; i++) ctx.FPR[i] = 0x2000 + i; ctx.flags = flags; mem = MemorySim_Init(); mriPlatform_Init(&ctx, mem); }
static int rounds, sessions;
void __mriDebugException(void) { sessions++; }
static int no(IComm* p) { return 0; }
static int rc(IComm* p) { return 0; }
static void sc(IComm* p, int c) { }
static int stop(IComm* p) { return ++rounds == 3; }
static ICommVTable vt = { no, rc, sc, stop, no };
static struct { ICommVTable* v; } comm = { &vt };
int main(void)
{
    start(0);
    mriPlatform_Run((IComm*)&comm);
    CHECK(sessions == 3);
    DONE();
}
'''
