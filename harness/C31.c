/* C31: the console connection delivers characters unchanged, one at a time, and never raises from its queries. */
#define OWN_MRI
#include "h.h"
#include "mri.h"
#include <StandardIComm.h>
#include <Console.h>

/* the console: a queue of characters to read, a record of what was written */
static int in[4], in_count, in_next;
static int out[8], out_count;
static int pending;             /* answer of the pending-data query (1 or any other non-zero value: data) */
static int queries;
static int throw_on_query, throw_on_read, throw_on_write;   /* exception code, 0: none */
int Console_HasStdInDataToRead() { queries++; if (throw_on_query) __throw(throw_on_query); return pending; }
int Console_ReadStdIn() { if (throw_on_read) __throw(throw_on_read); OBLIGE(in_next < in_count); return in[in_next++]; }
void Console_WriteStdOut(int c) { if (throw_on_write) __throw(throw_on_write); out[out_count++] = c; }

static IComm* comm;
static void (*session)(void);
void __mriInit(const char* p) { mri_inits++; }
void __mriDebugException(void) { debug_exceptions++; if (session) session(); }

static const int codes[] = {mriMaxException, busErrorException, fileException, outOfMemoryException, stackOverflowException, invalidArgumentException};
#define CODES 6
static void start(void) { comm = StandardIComm_Init(); OBLIGE(comm != NULL); }

/* any character arrives as it is, and connects */
void t_receive(void)
{
    PICK(k, 256);
    int c, signed_char = k - 128;
    start();
    in_count = 1; in[0] = signed_char;
    c = IComm_ReceiveChar(comm);
    OBLIGE((uint8_t)(c - signed_char) == 0);
    OBLIGE(in_next == 1 && out_count == 0);
    OBLIGE(IComm_IsGdbConnected(comm));
    MARK(received);
}
/* each character value by itself, in order, none skipped */
void t_receive_order(void)
{
    PICK(high, 16);
    int i, low;
    start();
    for (low = 0; low < 16; low += 4) {
        in_count = 4; in_next = 0;
        for (i = 0; i < 4; i++) in[i] = (signed char)(high * 16 + low + i);
        for (i = 0; i < 4; i++) {
            OBLIGE((uint8_t)IComm_ReceiveChar(comm) == high * 16 + low + i);
            OBLIGE(in_next == i + 1);
        }
    }
    OBLIGE(out_count == 0);
    MARK(received);
}
/* any character is sent as it is */
void t_send(void)
{
    PICK(v, 384);
    int c = v - 128;                /* as signed or as unsigned character */
    start();
    IComm_SendChar(comm, c);
    OBLIGE(out_count == 1 && (uint8_t)out[0] == (uint8_t)c);
    IComm_SendChar(comm, 'x');
    OBLIGE(out_count == 2 && (uint8_t)out[0] == (uint8_t)c && out[1] == 'x');
    OBLIGE(in_next == 0);
    OBLIGE(!IComm_IsGdbConnected(comm));    /* sending connects nobody */
    MARK(sent);
}
/* pending data is reported, and connects */
void t_pending(void)
{
    PICK(k, 5);
    static const int answers[] = {0, 1, 2, 255, -5};
    start();
    pending = answers[k];
    OBLIGE(!!IComm_HasReceiveData(comm) == !!pending);
    OBLIGE(!!IComm_IsGdbConnected(comm) == !!pending);
    pending = !pending;
    OBLIGE(!!IComm_HasReceiveData(comm) == pending);
    OBLIGE(!!IComm_IsGdbConnected(comm) == pending);    /* pending data which is never received does not connect for good */
    OBLIGE(in_next == 0 && out_count == 0);
    OBLIGE(!IComm_ShouldStopRun(comm));
    MARK(asked);
}
/* a failing query is no data: nothing is raised, whatever the failure */
void t_query_fails(void)
{
    PICK(k, CODES); PICK(connected, 2);
    int code = 0;
    start();
    pending = 1;
    if (connected) { in_count = 1; in[0] = '+'; IComm_ReceiveChar(comm); }
    throw_on_query = codes[k];
    CATCHING(code, OBLIGE(!IComm_HasReceiveData(comm)));
    OBLIGE(code == 0);
    CATCHING(code, OBLIGE(!!IComm_IsGdbConnected(comm) == connected));
    OBLIGE(code == 0);
    /* also outside of any protected block */
    OBLIGE(!IComm_HasReceiveData(comm));
    OBLIGE(getExceptionCode() == noException);
    OBLIGE(!!IComm_IsGdbConnected(comm) == connected);
    OBLIGE(getExceptionCode() == noException);
    OBLIGE(!IComm_ShouldStopRun(comm));
    throw_on_query = 0;
    OBLIGE(IComm_HasReceiveData(comm) && IComm_IsGdbConnected(comm));
    MARK(contained);
}
/* a failing read or write reaches the caller with its code, and a failed read connects nobody */
void t_transfer_fails(void)
{
    PICK(k, CODES); PICK(writing, 2);
    int code = 0;
    start();
    if (writing) throw_on_write = codes[k]; else throw_on_read = codes[k];
    if (writing) CATCHING(code, IComm_SendChar(comm, any_int(0, 255)));
    else CATCHING(code, IComm_ReceiveChar(comm));
    OBLIGE(code == codes[k]);
    OBLIGE(out_count == 0 && in_next == 0);
    OBLIGE(!IComm_IsGdbConnected(comm));
    throw_on_read = throw_on_write = 0;
    in_count = 1; in[0] = 'A';
    OBLIGE(IComm_ReceiveChar(comm) == 'A');
    OBLIGE(IComm_IsGdbConnected(comm));
    IComm_SendChar(comm, 'B');
    OBLIGE(out_count == 1 && out[0] == 'B');
    MARK(raised);
}
/* every sequence of six steps */
void t_history(void)
{
    int i, connected = 0, received = 0, sent = 0;
    start();
    in_count = 4;
    for (i = 0; i < 4; i++) in[i] = 'a' + i;
    for (i = 0; i < 5; i++) {
        PICK(op, 5);
        if (op == 0) pending = !pending;
        if (op == 1 && received < 4) { OBLIGE(IComm_ReceiveChar(comm) == 'a' + received); received++; connected = 1; }
        if (op == 2) { IComm_SendChar(comm, '0' + sent); sent++; }
        if (op == 3) { int code = 0; throw_on_read = fileException; CATCHING(code, IComm_ReceiveChar(comm)); OBLIGE(code == fileException); throw_on_read = 0; }
        if (op == 4) { comm = StandardIComm_Init(); connected = 0; }     /* a new session starts unconnected */
        OBLIGE(!!IComm_HasReceiveData(comm) == pending);
        OBLIGE(!!IComm_IsGdbConnected(comm) == (connected || pending));
        OBLIGE(!IComm_ShouldStopRun(comm));
        OBLIGE(in_next == received && out_count == sent);
    }
    for (i = 0; i < sent; i++) OBLIGE(out[i] == '0' + i);
    StandardIComm_Uninit(comm);
    MARK(followed);
}
/* the debugger core reaches the console through the platform layer */
static int want_pending, want_char;
static void through_platform(void)
{
    pending = want_pending;
    OBLIGE(!!Platform_CommHasReceiveData() == want_pending);
    OBLIGE(!!Platform_CommIsWaitingForGdbToConnect() == !want_pending);
    in_count = 1; in[0] = (signed char)want_char;
    OBLIGE((uint8_t)Platform_CommReceiveChar() == want_char);
    pending = 0;
    OBLIGE(!Platform_CommIsWaitingForGdbToConnect());
    OBLIGE(!Platform_CommHasReceiveData());
    Platform_CommSendChar(want_char);
    OBLIGE(out_count == 1 && (uint8_t)out[0] == want_char);
    throw_on_query = fileException;
    OBLIGE(!Platform_CommHasReceiveData());
    throw_on_query = 0;
    MARK(session);
    __throw(fileException);     /* the only way out of a console session */
}
/* the same through the platform hooks of the monitor */
void t_platform(void)
{
    PICK(c, 256); PICK(p, 2);
    int code = 0;
    platform();
    start();
    want_char = c; want_pending = p;
    session = through_platform;
    CATCHING(code, mriPlatform_Run(comm));
    OBLIGE(code == fileException && debug_exceptions == 1);
}
