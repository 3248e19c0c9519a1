/* C24: exceptions reach the innermost handler with their code and message; handlers nest and unwind in balance. */
//! opts: -eva-partition-value __lj_active,mdl_io_failed,mdl_alloc_failed,mdl_live_allocs,mdl_open_handles,g_exceptionCode -eva-unroll-recursive-calls 6
//! entry: t_start_hex -eva-split-return full
#include "h.h"
#include "load.h"
#include <mriPlatform.h>
#include <ElfLoad.h>

#define CODES 32        /* mri's and the program's own codes */
static int trace[24], traced;
static void note(int n) { trace[traced++] = n; }
static int traced_as(const char* want)
{
    int i;
    for (i = 0; want[i]; i++) if (i >= traced || trace[i] != want[i]) return 0;
    return traced == i;
}
static void raise_(int code) { __throw(code); }
static void raise_deep(int code, int depth) { if (depth == 0) raise_(code); else raise_deep(code, depth - 1); note('!'); }
#define OUTSIDE() OBLIGE(g_pExceptionHandlers == NULL)

/* every code, from any call depth */
void t_every_code(void)
{
    PICK(k, CODES); PICK(depth, 4);
    int caught = 0;
    __try { note('a'); raise_deep(k + 1, depth); note('b'); }
    __catch { note('c'); caught = getExceptionCode(); clearExceptionCode(); }
    note('d');
    OBLIGE(caught == k + 1 && traced_as("acd"));
    OBLIGE(getExceptionCode() == noException);
    OUTSIDE();
    MARK(caught);
}
/* no two exceptions share a code, none of them is "no exception" and none is one of mri's */
void t_distinct(void)
{
    static const int all[16] = {undefinedException, unpredictableException, outOfMemoryException, busErrorException, alignmentException,
        bkptException, badResponseException, serialException, hardwareBreakpointException, hardwareWatchpointException, socketException,
        fileException, coverageException, elfFormatException, fileFormatException, stackOverflowException};
    int i, j;
    for (i = 0; i < 16; i++) {
        OBLIGE(all[i] > mriMaxException && all[i] != noException);
        for (j = 0; j < i; j++) OBLIGE(all[i] != all[j]);
    }
}
/* raised outside of any handler: the program ends at once, with a failure status */
void t_no_handler(void)
{
    PICK(k, CODES); PICK(before, 3);
    int x = 0;
    if (before == 1) { __try { x = 1; } __catch { x = 2; } }
    if (before == 2) { __try { raise_(3); } __catch { x = 2; } }
    mdl_exit_expected = 1;
    if (k + 1 < CODES) { raise_(k + 1); OBLIGE(0); }
}
/* without an exception the handler is skipped, whatever code was left over */
void t_no_exception(void)
{
    PICK(stale, 3);
    if (stale) setExceptionCode(stale == 1 ? 1 : 31);   /* a code left over from before does not count */
    __try { note('a'); OBLIGE(getExceptionCode() == noException && g_pExceptionHandlers != NULL); note('b'); }
    __catch { note('c'); }
    note('d');
    OBLIGE(traced_as("abd") && getExceptionCode() == noException);
    OUTSIDE();
    MARK(passed);
}
/* inner handler first; the outer one sees nothing unless it is raised again */
void t_nested(void)
{
    PICK(k, CODES); PICK(again, 3);
    int outer = 0;
    __try
    {
        note('a');
        __try { note('b'); raise_deep(k + 1, 1); note('c'); }
        __catch { note('d'); OBLIGE(getExceptionCode() == k + 1); if (again == 1) __rethrow; clearExceptionCode(); if (again == 2) raise_(33 - k); }
        note('e');
        OBLIGE(getExceptionCode() == noException);
    }
    __catch { note('f'); outer = getExceptionCode(); clearExceptionCode(); }
    note('g');
    OBLIGE(outer == (again == 1 ? k + 1 : again == 2 ? 33 - k : 0));
    OBLIGE(again ? traced_as("abdfg") : traced_as("abdeg"));
    OUTSIDE();
    MARK(unwound);
}
/* raised while another one is still pending: the higher code wins */
void t_pending(void)
{
    PICK(a, CODES); PICK(b, CODES);
    int outer = 0;
    __try
    {
        __try { raise_(a + 1); }
        __catch { raise_(b + 1); }
        note('x');
    }
    __catch { outer = getExceptionCode(); clearExceptionCode(); }
    OBLIGE(outer == (a > b ? a : b) + 1 && traced == 0);
    OUTSIDE();
    MARK(unwound);
}
/* one after the other, and in a loop */
void t_in_turn(void)
{
    int i, caught = 0, passed = 0;
    for (i = 0; i < 5; i++) {
        PICK(fails, 2);
        __try { if (fails) raise_deep(i + 1, 1); passed++; }
        __catch { OBLIGE(fails && getExceptionCode() == i + 1); caught++; clearExceptionCode(); }
        OUTSIDE();
        OBLIGE(caught + passed == i + 1 && getExceptionCode() == noException);
    }
    MARK(passed);
}
/* handlers of calls: the nearest caller with a handler gets it */
static int level(int n, int catches, int code)
{
    int got = 0;
    if (n == 0) { raise_(code); note('!'); }
    if (catches & (1 << (n - 1))) {
        ExceptionHandler* before = g_pExceptionHandlers;
        __try { got = level(n - 1, catches, code); }
        __catch { got = 100 * n + getExceptionCode(); clearExceptionCode(); }
        OBLIGE(g_pExceptionHandlers == before);
        return got;
    }
    return level(n - 1, catches, code);
}
/* handlers at several levels of calls and recursion */
void t_levels(void)
{
    PICK(catches, 16); PICK(k, 4);
    int got = 0, code = 1 + 9 * k, n;
    __try { got = level(4, catches, code); }
    __catch { got = getExceptionCode(); clearExceptionCode(); }
    for (n = 1; n <= 4 && !(catches & (1 << (n - 1))); n++) { }
    OBLIGE(got == (n <= 4 ? 100 * n + code : code));
    OBLIGE(traced == 0);
    OUTSIDE();
    MARK(unwound);
}
/* a handler left by the shorthand macros clears the code */
static void nothrow_void(int code) { __try { raise_(code); } __catch { __nothrow; } note('!'); }
static int nothrow_value(int code) { __try { raise_(code); } __catch { __nothrow_and_return(77); } return 1; }
static int nothrow_passes(void) { __try { note('p'); } __catch { __nothrow_and_return(77); } return 1; }
void t_nothrow(void)
{
    PICK(k, CODES);
    nothrow_void(k + 1);
    OBLIGE(getExceptionCode() == noException && traced == 0);
    OBLIGE(nothrow_value(k + 1) == 77 && getExceptionCode() == noException);
    OBLIGE(nothrow_passes() == 1);
    OUTSIDE();
    MARK(passed);
}
/* messages arrive whole, or cut to their buffer; an exception without one has an empty message */
void t_messages(void)
{
    static char s[1100];
    PICK(k, 5);
    static const int lengths[5] = {0, 1, 1022, 1023, 1090};
    int i, n = lengths[k];
    for (i = 0; i < n; i++) s[i] = 'a' + i % 26;
    s[n] = 0;
    __try { __throw_msg(fileException, "%s", s); }
    __catch
    {
        const char* m = getExceptionMessage();
        OBLIGE(getExceptionCode() == fileException);
        for (i = 0; i < n && i < 1023; i++) OBLIGE(m[i] == 'a' + i % 26);
        OBLIGE(m[i] == 0);
        clearExceptionCode();
    }
    __try { raise_(fileException); }
    __catch { OBLIGE(getExceptionMessage()[0] == 0); clearExceptionCode(); }
    OUTSIDE();
    MARK(told);
}
/* the message of a nested exception */
void t_message_nested(void)
{
    int code = 0;
    __try
    {
        __try { __throw_msg(busErrorException, "at %d", 12); }
        __catch { OBLIGE(getExceptionMessage()[3] == '1'); __rethrow; }
    }
    __catch
    {
        const char* m = getExceptionMessage();
        code = getExceptionCode();
        OBLIGE(m[0] == 'a' && m[1] == 't' && m[2] == ' ' && m[3] == '1' && m[4] == '2' && m[5] == 0);
        clearExceptionCode();
    }
    OBLIGE(code == busErrorException);
    OUTSIDE();
    MARK(told);
}
/* the program's own protected blocks: handlers are balanced after every start-up, whichever call fails */
static void balanced(void)
{
    ExceptionHandler* before;
    int code = 0, again = 0;
    __try
    {
        before = g_pExceptionHandlers;
        __try { CrashDebugCommandLine_Init(&cl, argn, args); }
        __catch { code = getExceptionCode(); }
        OBLIGE(g_pExceptionHandlers == before);
        CrashDebugCommandLine_Uninit(&cl);
        OBLIGE(g_pExceptionHandlers == before);
        if (code) __rethrow;
    }
    __catch { again = getExceptionCode(); clearExceptionCode(); }
    OBLIGE(again == code);
    OUTSIDE();
}
/* start-up with each call failing in turn leaves no handler behind */
void t_start(void)
{
    PICK(image, 2); PICK(kind, 2); PICK(what, 5);
    setup(image, kind ? BINARY : LOG, 1); alias();
    if (what == 0) { PICK(nth, 4); mdl_fopen_fail_at = nth + 1; }
    if (what == 1) { PICK(nth, 20); mdl_fread_fail_at = nth + 1; }
    if (what == 2) { PICK(nth, 6); mdl_fseek_fail_at = nth + 1; }
    if (what == 3) { PICK(nth, 24); mdl_alloc_fail_at = nth + 1; }
    if (what == 4) { PICK(nth, 4); mdl_ftell_fail_at = nth + 1; }
    balanced();
    MARK(balanced);
}
/* the same with a hexadecimal dump */
void t_start_hex(void)
{
    PICK(what, 2);
    setup(BIN, HEX, 1);
    if (what == 0) mdl_fread_fail_at = any_int(1, 60);
    if (what == 1) { PICK(nth, 24); mdl_alloc_fail_at = nth + 1; }
    balanced();
    MARK(balanced);
}
/* ...and after every memory access of the debugger */
void t_accesses(void)
{
    static RegisterContext regs;
    IMemory* m = MemorySim_Init();
    PICK(k, 6);
    uint32_t a = any_u32(0, 0xFFFFFFFF);
    MemorySim_CreateRegion(m, 0x20000000u, 16);
    mriPlatform_Init(&regs, m);
    __try
    {
        ExceptionHandler* before = g_pExceptionHandlers;
        void* p = (void*)(unsigned long)a;
        if (k == 0) Platform_MemRead8(p);
        if (k == 1) Platform_MemRead16(p);
        if (k == 2) Platform_MemRead32(p);
        if (k == 3) Platform_MemWrite8(p, 1);
        if (k == 4) Platform_MemWrite16(p, 1);
        if (k == 5) Platform_MemWrite32(p, 1);
        OBLIGE(g_pExceptionHandlers == before);
    }
    __catch { OBLIGE(0); }
    OUTSIDE();
    MARK(balanced);
}
void __mriInit(const char* p) { }
void __mriDebugException(void) { }
