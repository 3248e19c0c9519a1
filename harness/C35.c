/* C35: the output spy records the latest output of a stream without touching memory outside of its buffers. */
//! sources: libmocks/src/printfSpy.c
//! models: mdl.c
//! defs: -DHEAP_MODEL
//! opts: -eva-partition-value mdl_live_allocs
//! entry: t_wide narrow -eva-partition-value=-mdl_live_allocs
//! entry: t_any_number coarse -eva-mlevel 8 -eva-partition-value=-mdl_live_allocs,turn
#include "h.h"
#include <printfSpy.h>
#undef malloc
#undef free
#undef realloc
void* mdl_malloc(size_t size); void* mdl_realloc(void* p, size_t size); void mdl_free(void* p);
void* real_malloc(size_t size) { return mdl_malloc(size); }
void* real_realloc(void* p, size_t size) { return mdl_realloc(p, size); }
void* real_calloc(size_t n, size_t size) { void* p = mdl_malloc(n * size); if (p) memset(p, 0, n * size); return p; }
void  real_free(void* p) { mdl_free(p); }

static int same(const char* p, const char* want, int n)  /* exactly the first n characters of want */
{
    int i;
    OBLIGE(p != NULL);
    for (i = 0; i < n; i++) if (p[i] != want[i]) return 0;
    return p[n] == 0;
}
static int err_;        /* which stream */
#define SAY(...) (err_ ? hook_fprintf(stderr, __VA_ARGS__) : hook_printf(__VA_ARGS__))
static const char* last(int n) { return err_ ? printfSpy_GetNthErrorOutput((size_t)n) : printfSpy_GetNthOutput((size_t)n); }
static const char* other(int n) { return err_ ? printfSpy_GetNthOutput((size_t)n) : printfSpy_GetNthErrorOutput((size_t)n); }
static int none(const char* p) { return p == NULL || p[0] == 0; }
static const char letters[] = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
static int shown(int length, int size) { return length < size ? length : size; }

/* every output length against every buffer size */
void t_lengths(void)
{
    int i, n;
    char s[40];
    PICK(err, 2); PICK(size, 12); PICK(length, 16);
    err_ = err;
    for (i = 0; i < length; i++) s[i] = letters[i];
    s[length] = 0;
    printfSpy_Hook((size_t)size);
    OBLIGE(printfSpy_GetCallCount() == 0);
    n = SAY("%s", s);
    OBLIGE(n == length);
    OBLIGE(same(last(1), letters, shown(length, size)));
    OBLIGE(printfSpy_GetCallCount() == 1);
    OBLIGE(mdl_out_lines == 0 && mdl_err_lines == 0);     /* nothing is really shown */
    printfSpy_Unhook();
    OBLIGE(mdl_live_allocs == 0);
    SAY("real");
    OBLIGE(mdl_out_lines == !err && mdl_err_lines == err);
    OBLIGE(mdl_live_allocs == 0);
    MARK(recorded);
}
/* outputs much longer than any buffer */
void t_long(void)
{
    int i;
    char s[300];
    PICK(err, 2); PICK(k, 3); PICK(j, 3);
    int size = k == 0 ? 255 : k == 1 ? 256 : 64, length = size - 1 + j;
    err_ = err;
    for (i = 0; i < length; i++) s[i] = letters[i % 62];
    s[length] = 0;
    printfSpy_Hook((size_t)size);
    OBLIGE(SAY("%s", s) == length);
    for (i = 0; i < shown(length, size); i++) OBLIGE(last(1)[i] == letters[i % 62]);
    OBLIGE(last(1)[shown(length, size)] == 0);
    printfSpy_Unhook();
    OBLIGE(mdl_live_allocs == 0);
    MARK(recorded);
}
/* the format's arguments reach the recording */
void t_formats(void)
{
    PICK(err, 2); PICK(k, 5);
    err_ = err;
    printfSpy_Hook(20);
    if (k == 0) { SAY("plain\n"); OBLIGE(same(last(1), "plain\n", 6)); }
    if (k == 1) { SAY("%d%c%d", -12, ':', 345); OBLIGE(same(last(1), "-12:345", 7)); }
    if (k == 2) { SAY("%08x %X", 0xabcu, 0xabcu); OBLIGE(same(last(1), "00000abc ABC", 12)); }
    if (k == 3) { SAY("%s%s%s", "a", "", "bc"); OBLIGE(same(last(1), "abc", 3)); }
    if (k == 4) { SAY("%%%lu", 123456789012ul); OBLIGE(same(last(1), "%123456789012", 13)); }
    OBLIGE(err ? printfSpy_GetLastErrorOutput() == last(1) : printfSpy_GetLastOutput() == last(1));
    printfSpy_Unhook();
    OBLIGE(mdl_live_allocs == 0);
    MARK(recorded);
}
/* the latest four, whatever the number of outputs */
static const char* numbers[12] = {"0", "one", "two2", "t3", "four44", "5", "si6", "seven777", "e", "ni", "10tentenX", ""};
static const int number_len[12] = {1, 3, 4, 2, 6, 1, 3, 8, 1, 2, 9, 0};
void t_latest(void)
{
    int i;
    PICK(err, 2); PICK(count, 13); PICK(k, 3);
    int size = k == 0 ? 3 : k == 1 ? 8 : 30;
    err_ = err;
    printfSpy_Hook((size_t)size);
    for (i = 0; i < count; i++) OBLIGE(SAY("%s", numbers[i]) == number_len[i]);
    for (i = 1; i <= 4 && i <= count; i++)
        OBLIGE(same(last(i), numbers[count - i], shown(number_len[count - i], size)));
    if (count >= 1) OBLIGE((err ? printfSpy_GetLastErrorOutput() : printfSpy_GetLastOutput()) == last(1));
    if (count >= 2) OBLIGE((err ? printfSpy_GetPreviousErrorOutput() : printfSpy_GetPreviousOutput()) == last(2));
    for (i = count + 1; i <= 4; i++) OBLIGE(none(last(i)));       /* no such output yet */
    for (i = 1; i <= 4; i++) OBLIGE(none(other(i)));              /* nor on the other stream */
    OBLIGE(printfSpy_GetCallCount() == (size_t)count);
    OBLIGE(mdl_out_lines == 0 && mdl_err_lines == 0);
    printfSpy_Unhook();
    OBLIGE(mdl_live_allocs == 0);
    MARK(recorded);
}
/* standard output through fprintf as well */
void t_stdout(void)
{
    printfSpy_Hook(10);
    hook_fprintf(stdout, "a%d", 1);
    hook_printf("b%d", 2);
    OBLIGE(same(printfSpy_GetLastOutput(), "b2", 2) && same(printfSpy_GetPreviousOutput(), "a1", 2));
    OBLIGE(none(printfSpy_GetLastErrorOutput()) && printfSpy_GetCallCount() == 2);
    printfSpy_Unhook();
    OBLIGE(mdl_live_allocs == 0);
    MARK(recorded);
}
/* hook, unhook and output in any order, with any mix of streams and buffer sizes */
void t_history(void)
{
    int i, hooked = 0, count = 0, shown_out = 0, shown_err = 0, size = 0;
    for (i = 0; i < 5; i++) {
        PICK(op, 5);
        if (op == 0) { printfSpy_Hook(2); hooked = 1; count = 0; size = 2; }
        if (op == 1) { printfSpy_Hook(9); hooked = 1; count = 0; size = 9; }
        if (op == 2) { printfSpy_Unhook(); hooked = 0; OBLIGE(mdl_live_allocs == 0); }
        if (op == 3) { hook_printf("%s", "hello"); if (hooked) { count++; OBLIGE(same(printfSpy_GetLastOutput(), "hello", shown(5, size))); } else shown_out++; }
        if (op == 4) { hook_fprintf(stderr, "%s", "sorry"); if (hooked) { count++; OBLIGE(same(printfSpy_GetLastErrorOutput(), "sorry", shown(5, size))); } else shown_err++; }
        OBLIGE(mdl_out_lines == shown_out && mdl_err_lines == shown_err);
        if (hooked) OBLIGE(printfSpy_GetCallCount() == (size_t)count);
    }
    printfSpy_Unhook();
    OBLIGE(mdl_live_allocs == 0);
    MARK(followed);
}
/* a new recording starts empty, whatever the former one held and however far it got */
void t_again(void)
{
    int i;
    PICK(err, 2); PICK(count, 7); PICK(unhook, 2); PICK(err2, 2); PICK(count2, 4); PICK(grow, 2);
    err_ = err;
    printfSpy_Hook(grow ? 2 : 6);
    for (i = 0; i < count; i++) SAY("%s", numbers[i]);
    if (unhook) printfSpy_Unhook();
    err_ = err2;
    printfSpy_Hook(grow ? 6 : 2);
    OBLIGE(printfSpy_GetCallCount() == 0);
    for (i = 1; i <= 4; i++) OBLIGE(none(last(i)) && none(other(i)));
    for (i = 0; i < count2; i++) SAY("%s", numbers[i + 4]);
    for (i = 1; i <= count2; i++)
        OBLIGE(same(last(i), numbers[count2 - i + 4], shown(number_len[count2 - i + 4], grow ? 6 : 2)));
    OBLIGE(printfSpy_GetCallCount() == (size_t)count2);
    printfSpy_Unhook();
    printfSpy_Unhook();
    OBLIGE(mdl_live_allocs == 0);
    MARK(recorded);
}
/* buffers of any size, any number of outputs: no size or count is cut to fewer bits */
void t_wide(void)
{
    printfSpy_Hook(Frama_C_unsigned_long_interval(0, 0xFFFFFFFFul));
    while (any_bool()) { err_ = any_bool(); SAY("%s", "some text"); }
    printfSpy_GetCallCount();
    printfSpy_Unhook();
}
/* any number of outputs on either stream: the last ones are there */
static unsigned turn;
void t_any_number(void)
{
    int i;
    PICK(err, 2);
    printfSpy_Hook(12);
    for (i = 0; i < 8; i++) { err_ = i < 4; SAY("%d", 0); }
    while (any_bool()) {
        err_ = any_bool();
        SAY("%s", "other text");
        turn = (turn + 1) & 3;
    }
    err_ = err;
    SAY("%s", "first"); turn = (turn + 1) & 3;
    SAY("%d.", 77); turn = (turn + 1) & 3;
    OBLIGE(same(last(1), "77.", 3));
    OBLIGE(same(last(2), "first", 5));
    printfSpy_Unhook();
    MARK(recorded);
}
