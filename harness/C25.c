/* C25: run control changes nothing, and the session is served until the connection asks to stop. */
//! entry: t_any_rounds coarse -eva-partition-value stopped
#define OWN_MRI
#include "h.h"
#include "mri.h"
#include <IComm.h>

static int served, asked;
static int stop_after, counting = 1, stopped;
static void check(void);
void __mriInit(const char* p) { OBLIGE(p != NULL && *p == 0); mri_inits++; }
void __mriDebugException(void)
{
    OBLIGE(!stopped);
    if (!counting) return;
    served++;
    OBLIGE(asked == served - 1);
    check();
}
/* a connection which asks to stop after stop_after rounds */
static int has_data(IComm* p) { return any_bool(); }
static int receive(IComm* p) { OBLIGE(0); return 0; }
static void send_(IComm* p, int c) { OBLIGE(0); }
static int should_stop(IComm* p) { asked++; OBLIGE(asked == served); return served == stop_after ? 1 + (stop_after & 1) : 0; }
static int connected(IComm* p) { return any_bool(); }
static ICommVTable vt = {has_data, receive, send_, should_stop, connected};
static struct { ICommVTable* p; } comm = { &vt };

#define TAG(i) (0x01000000u * (uint32_t)((i) + 1))
static uint8_t flash[8] = {1, 2, 3, 4, 5, 6, 7, 8};
static const void* ram;
static void start(void)
{
    int i;
    platform();
    for (i = 0; i < TOTAL_REG_COUNT; i++) regs.R[i] = any_u32(TAG(i), TAG(i) + 0xFFFF);
    for (i = 0; i < TOTAL_FPREG_COUNT; i++) regs.FPR[i] = any_u32(TAG(i + 20), TAG(i + 20) + 0xFFFF);
    regs.flags = 1;
    regs.exceptionPSR = TAG(60) + 3;
    MemorySim_CreateRegion(mem, 0x20000000u, 16);
    MemorySim_CreateRegion(mem, 0x00000000u, 8);
    MemorySim_LoadFromFlashImage(mem, 0, flash, 8);
    MemorySim_MakeRegionReadOnly(mem, 0);
    for (i = 0; i < 16; i += 4) IMemory_Write32(mem, 0x20000000u + (uint32_t)i, any_u32(TAG(80 + i), TAG(80 + i) + 0xFFFF));
}
static void unchanged(void)
{
    int i;
    uint32_t v;
    for (i = 0; i < TOTAL_REG_COUNT; i++) OBLIGE(regs.R[i] >= TAG(i) && regs.R[i] <= TAG(i) + 0xFFFF);
    for (i = 0; i < TOTAL_FPREG_COUNT; i++) OBLIGE(regs.FPR[i] >= TAG(i + 20) && regs.FPR[i] <= TAG(i + 20) + 0xFFFF);
    OBLIGE(regs.flags == 1 && regs.exceptionPSR == TAG(60) + 3);
    /* reads are not trapped by break- or watchpoints either */
    for (i = 0; i < 16; i += 4) { v = IMemory_Read32(mem, 0x20000000u + (uint32_t)i); OBLIGE(v >= TAG(80 + i) && v <= TAG(80 + i) + 0xFFFF); }
    for (i = 0; i < 8; i++) OBLIGE(IMemory_Read8(mem, (uint32_t)i) == i + 1);
    for (i = 0; i < 8; i += 2) OBLIGE(IMemory_Read16(mem, (uint32_t)i) == (i + 1) + 256 * (i + 2));
    OBLIGE(!MemorySim_WasWatchpointEncountered(mem));
}
static void check(void) { unchanged(); }
static void request(int k)
{
    uint32_t a = any_u32(0, 0xFFFFFFFF), n = any_u32(0, 0xFFFFFFFF);
    if (k == 0) Platform_EnableSingleStep();
    if (k == 1) Platform_DisableSingleStep();
    if (k == 2) Platform_SetProgramCounter(a);
    if (k == 3) Platform_AdvanceProgramCounterToNextInstruction();
    if (k == 4) Platform_SetHardwareBreakpoint(a, n);
    if (k == 5) Platform_ClearHardwareBreakpoint(a, n);
    if (k == 6) Platform_SetHardwareWatchpoint(a, n, (PlatformWatchpointType)any_int(0, 2));
    if (k == 7) Platform_ClearHardwareWatchpoint(a, n, (PlatformWatchpointType)any_int(0, 2));
    if (k == 8) Platform_SetSemihostCallReturnAndErrnoValues(any_int(-0x7FFFFFFF, 0x7FFFFFFF), any_int(-0x7FFFFFFF, 0x7FFFFFFF));
    if (k == 9) OBLIGE(!Semihost_IsDebuggeeMakingSemihostCall());
    if (k == 10) OBLIGE(!Semihost_HandleSemihostRequest());
    if (k == 11) OBLIGE(Platform_TypeOfCurrentInstruction() == MRI_PLATFORM_INSTRUCTION_OTHER);
    if (k == 12) { PlatformSemihostParameters p = Platform_GetSemihostCallParameters(); OBLIGE(p.parameter1 == 0 && p.parameter2 == 0 && p.parameter3 == 0 && p.parameter4 == 0); }
    if (k == 13) Platform_EnteringDebugger();
    if (k == 14) Platform_LeavingDebugger();
    if (k == 15) Platform_CommClearInterrupt();
    if (k == 16) Platform_CommPrepareToWaitForGdbConnection();
    if (k == 17) Platform_CommWaitForReceiveDataToStop();
    if (k == 18) { Token t; Platform_Init(&t); }
    if (k == 19) (void)Platform_DetermineCauseOfException();
    if (k == 20) Platform_DisplayFaultCauseToGdbConsole();
    if (k == 21) { OBLIGE(Platform_CommCausedInterrupt() == 0); OBLIGE(Platform_CommSharingWithApplication() == 0); }
    OBLIGE(!Platform_IsSingleStepping());
    OBLIGE(Platform_WasProgramCounterModifiedByUser());
    OBLIGE(!Platform_WasMemoryFaultEncountered() || k == 20);
}
#define REQUESTS 22
/* each request with any arguments */
void t_one(void)
{
    PICK(k, REQUESTS);
    start();
    request(k);
    unchanged();
    OBLIGE(mdl_open_handles == 0);
    MARK(unchanged);
}
/* all requests in several orders */
void t_all(void)
{
    int i;
    PICK(first, REQUESTS);
    start();
    for (i = 0; i < REQUESTS; i++) request((first + i * 7) % REQUESTS);
    unchanged();
}
/* any two requests */
void t_two(void) // thorough
{
    PICK(k, REQUESTS); PICK(k2, REQUESTS);
    start();
    request(k); request(k2);
    unchanged();
}
/* addresses which hit mapped memory and the registers' own instruction */
void t_mapped(void)
{
    static const uint32_t where[4] = {0, 2, 0x20000000u, 0x2000000Cu};
    PICK(w, 4); PICK(n, 3); PICK(type, 3);
    start();
    regs.R[PC] = TAG(PC);
    Platform_SetHardwareBreakpoint(where[w], 1u << n);
    Platform_SetHardwareWatchpoint(where[w], 1u << n, (PlatformWatchpointType)type);
    Platform_EnableSingleStep();
    unchanged();
    Platform_ClearHardwareWatchpoint(where[w], 1u << n, (PlatformWatchpointType)type);
    Platform_ClearHardwareBreakpoint(where[w], 1u << n);
    unchanged();
    MARK(unchanged);
}
/* hard-coded breakpoints and semihost calls at PC are not treated as such */
void t_instructions(void)
{
    static uint8_t code[4];
    PICK(k, 4);
    platform();
    any_registers();
    code[0] = k == 0 ? 0xAB : k == 1 ? 0 : (uint8_t)any_u8(0, 255);
    code[1] = k == 2 ? (uint8_t)any_u8(0, 255) : 0xBE;
    MemorySim_CreateRegion(mem, 0, 4); MemorySim_LoadFromFlashImage(mem, 0, code, 4);
    regs.R[PC] = 0;
    OBLIGE(Platform_TypeOfCurrentInstruction() == MRI_PLATFORM_INSTRUCTION_OTHER);
    OBLIGE(!Semihost_IsDebuggeeMakingSemihostCall() && !Semihost_HandleSemihostRequest());
    Platform_AdvanceProgramCounterToNextInstruction();
    OBLIGE(regs.R[PC] == 0);
    MARK(unchanged);
}
/* the session is served until the connection asks to stop */
void t_run(void)
{
    PICK(n, 6);
    start();
    OBLIGE(mri_inits == 1);
    stop_after = n + 1;
    mriPlatform_Run((IComm*)&comm);
    OBLIGE(served == n + 1 && asked == n + 1);
    unchanged();
    MARK(served);
}
/* any number of rounds: serving ends when, and only when, the connection has asked to stop */
static int stop_sometime(IComm* p)
{
    OBLIGE(!stopped);
    stopped = any_bool();
    return stopped;
}
void t_any_rounds(void)
{
    static ICommVTable sometime = {has_data, receive, send_, stop_sometime, connected};
    platform();
    comm.p = &sometime;
    counting = 0;
    mriPlatform_Run((IComm*)&comm);
    OBLIGE(stopped);
    MARK(served);
}
