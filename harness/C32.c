/* C32: the exit status tells success from failure, unexpected failures are reported, everything is released first. */
//! sources: main/main.c libCrashDebug/src/CrashCatcherDump.c libCrashDebug/src/CrashDebugCommandLine.c libCrashDebug/src/ElfLoad.c libCrashDebug/src/GdbLogParser.c libCrashDebug/src/MemorySim.c libCrashDebug/src/mriPlatform.c libcommon/src
//! opts: -eva-partition-value __lj_active,mdl_io_failed,mdl_alloc_failed,mdl_live_allocs,mdl_open_handles
#define OWN_MRI
#include "h.h"
#include "mri.h"
#include "load.h"
#include <StandardIComm.h>

int main(int argc, const char** argv);

/* a debug session of up to three rounds which ends or fails as told */
static int rounds, comm_inits, comm_uninits;
static int fail_round, fail_code;       /* the session raises fail_code in this round (0: never) */
static int stop_round;                  /* the connection asks to stop after this round */
static int init_code;
static void (*during)(void);
static int stop_(IComm* p) { return rounds == stop_round; }
static int zero_(IComm* p) { return 0; }
static void send_(IComm* p, int c) { }
static ICommVTable vt = {zero_, zero_, send_, stop_, zero_};
static struct { ICommVTable* p; } comm = { &vt };
static int comm_code;
IComm* StandardIComm_Init() { comm_inits++; if (comm_code) __throw(comm_code); return (IComm*)&comm; }
void StandardIComm_Uninit(IComm* p) { comm_uninits++; OBLIGE(p == NULL || p == (IComm*)&comm); }
void __mriInit(const char* p) { mri_inits++; if (init_code) __throw(init_code); }
void __mriDebugException(void)
{
    rounds++;
    OBLIGE(mdl_open_handles == 0);
    OBLIGE(mdl_live_allocs > 0);        /* the memory is there while the session runs */
    if (during) during();
    if (rounds == fail_round) __throw(fail_code);
}
static const char* argv_[20];
static int run(void)
{
    int i;
    argv_[0] = "CrashDebug";
    for (i = 0; i < argn; i++) argv_[i + 1] = args[i];
    argv_[argn + 1] = NULL;
    return main(argn + 1, argv_);
}
static void released(void) { OBLIGE(mdl_live_allocs == 0 && mdl_open_handles == 0); OBLIGE(g_pExceptionHandlers == NULL); }
static void failed(int status) { OBLIGE((status & 255) != 0); released(); }
/* the number appears in the last message */
static int reported(int code)
{
    int i = 0, v, digits;
    if (!mdl_err_lines) return 0;
    while (mdl_err_text[i]) {
        v = digits = 0;
        while (mdl_err_text[i] >= '0' && mdl_err_text[i] <= '9') { v = v * 10 + (mdl_err_text[i] - '0'); digits = 1; i++; }
        if (digits && v == code) return 1;
        if (mdl_err_text[i]) i++;
    }
    return 0;
}
static int is_quiet(int code) { return code == fileException || code == elfFormatException || code == invalidArgumentException; }

/* nothing fails: zero */
void t_success(void)
{
    PICK(image, 2); PICK(kind, 3); PICK(n, 3);
    setup(image, kind, 1);
    stop_round = n + 1;
    OBLIGE(run() == 0);
    OBLIGE(rounds == n + 1 && mdl_err_lines == 0);
    OBLIGE(comm_inits == 1 && comm_uninits == 1 && mri_inits == 1);
    released();
    MARK(succeeded);
}
/* every code, in the first or a later round */
void t_session_fails(void)
{
    PICK(k, stackOverflowException); PICK(n, 3);
    int status;
    setup(BIN, LOG, 1); alias();
    mdl_keep_err_text = 1;
    stop_round = 3; fail_round = n + 1; fail_code = k + 1;
    status = run();
    failed(status);
    OBLIGE(rounds == n + 1);
    if (!is_quiet(fail_code)) { OBLIGE(reported(fail_code)); MARK(told); }
    else OBLIGE(!reported(fail_code));
    MARK(failed);
}
/* the session cannot be set up */
void t_start_of_session_fails(void)
{
    PICK(k, stackOverflowException); PICK(which, 2);
    int status;
    setup(ELF, BINARY, 1);
    mdl_keep_err_text = 1;
    stop_round = 1;
    if (which) init_code = k + 1; else comm_code = k + 1;
    status = run();
    failed(status);
    OBLIGE(rounds == 0);
    if (!is_quiet(k + 1)) OBLIGE(reported(k + 1));
    else OBLIGE(!reported(k + 1));
    MARK(failed);
}
/* failures of the start-up: no session is served, an error is shown */
static void no_session(int status)
{
    failed(status);
    OBLIGE(rounds == 0 && mri_inits == 0);
    OBLIGE(mdl_saw_error == 1 && mdl_saw_usage == 1);
}
/* each open failing in turn */
void t_open(void)
{
    PICK(image, 2); PICK(kind, 3);
    int status;
    setup(image, kind, 1); alias();
    stop_round = 1;
    { PICK(nth, 4); mdl_fopen_fail_at = nth + 1; }
    status = run();
    if (mdl_io_failed) { no_session(status); MARK(failed); }
    else { OBLIGE(status == 0); released(); MARK(succeeded); }
}
/* each read failing in turn */
void t_read(void)
{
    PICK(image, 2);
    int status;
    setup(image, BINARY, 1);
    stop_round = 1;
    { PICK(nth, 20); mdl_fread_fail_at = nth + 1; }
    status = run();
    if (mdl_io_failed) { no_session(status); MARK(failed); }
    else { OBLIGE(status == 0); released(); MARK(succeeded); }
}
/* each allocation failing in turn */
void t_alloc(void)
{
    PICK(image, 2);
    int status;
    setup(image, LOG, 1); alias();
    mdl_keep_err_text = 1;
    stop_round = 1;
    { PICK(nth, 24); mdl_alloc_fail_at = nth + 1; }
    status = run();
    if (mdl_alloc_failed) { no_session(status); OBLIGE(reported(outOfMemoryException)); MARK(failed); }
    else { OBLIGE(status == 0); released(); MARK(succeeded); }
}
/* bad command lines */
void t_arguments(void)
{
    PICK(k, 8);
    setup(BIN, LOG, 1);
    stop_round = 1;
    if (k == 0) argn = 0;
    if (k == 1) argn--;
    if (k == 2) arg("--foo");
    if (k == 3) arg("--dump");
    if (k == 4) { arg("--alias"); arg("0x30000000"); arg("4"); }
    if (k == 5) args[4] = "nowhere";
    if (k == 6) args[argn - 1] = "nothing";
    if (k == 7) argn -= 2;
    no_session(run());
    MARK(failed);
}
/* broken inputs */
void t_formats(void)
{
    PICK(k, 4);
    int i;
    setup(k < 2 ? ELF : BIN, BINARY, 1);
    stop_round = 1;
    if (k == 0) elf[0] = 0;
    if (k == 1) mdl_files[1].size = 118;
    if (k == 2) mdl_files[2].size--;
    if (k == 3) for (i = 4; i < 7; i++) dump[i] = 0x77;
    if (k == 3) mdl_files[2].size = 6;
    no_session(run());
    MARK(failed);
}
/* memory faults of the debugger are contained: the session goes on */
static void faulting(void)
{
    if (rounds == 1) OBLIGE(Platform_MemRead32((void*)0x90000000ul) == 0);
}
/* faulting accesses within the session are no failure of the session */
void t_contained(void)
{
    setup(BIN, LOG, 1);
    stop_round = 2;
    during = faulting;
    run();
    OBLIGE(rounds == 2);
    released();
    MARK(served);
}
