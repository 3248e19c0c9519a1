/* C34: each file-operation mock fails exactly its operation, exactly when asked. */
//! sources: libmocks/src/FileFailureInject.c
//! models: mdl.c
//! defs: -DFILE_MODEL
//! entry: t_wide narrow
#include "h.h"
#undef fopen
#undef fclose
#undef fseek
#undef ftell
#undef fwrite
#undef fread
#undef fgets
#include <FileFailureInject.h>

/* the real operations: record the call, return a value of their own */
enum { FOPEN, FCLOSE, FSEEK, FTELL, FWRITE, FREAD, FGETS, OPS };
static int real_op, real_calls;
static FILE handle, failure_handle;
static char buf[8];
static long L = 0x123456789L;
static const char* name_ = "n"; static const char* mode_ = "m";
#define REAL(op, ok) do { real_op = (op); real_calls++; OBLIGE(ok); } while (0)
FILE* real_fopen(const char* f, const char* m) { REAL(FOPEN, f == name_ && m == mode_); return &handle; }
int real_fclose(FILE* s) { REAL(FCLOSE, s == &handle); return 101; }
int real_fseek(FILE* s, long o, int w) { REAL(FSEEK, s == &handle && o == L && w == 2); return 102; }
long real_ftell(FILE* s) { REAL(FTELL, s == &handle); return L; }
size_t real_fwrite(const void* p, size_t n, size_t k, FILE* s) { REAL(FWRITE, p == buf && n == 3 && k == 5 && s == &handle); return 104; }
size_t real_fread(void* p, size_t n, size_t k, FILE* s) { REAL(FREAD, p == buf && n == 3 && k == 5 && s == &handle); return 105; }
char* real_fgets(char* p, int n, FILE* s) { REAL(FGETS, p == buf && n == 8 && s == &handle); return &buf[1]; }

static FILE* fail_file;
static long fail_value;
/* performs one operation; tells whether the real one ran, and checks the result either way */
static int is_real(int op)
{
    int before = real_calls, real;
    long got = 0, want_real = 0;
    FILE* f = NULL; char* s = NULL;
    if (op == FOPEN) f = hook_fopen(name_, mode_);
    if (op == FCLOSE) got = hook_fclose(&handle), want_real = 101;
    if (op == FSEEK) got = hook_fseek(&handle, L, 2), want_real = 102;
    if (op == FTELL) got = hook_ftell(&handle), want_real = L;
    if (op == FWRITE) got = (long)hook_fwrite(buf, 3, 5, &handle), want_real = 104;
    if (op == FREAD) got = (long)hook_fread(buf, 3, 5, &handle), want_real = 105;
    if (op == FGETS) s = hook_fgets(buf, 8, &handle);
    real = real_calls != before;
    if (real) {
        OBLIGE(real_calls == before + 1 && real_op == op);
        if (op == FOPEN) OBLIGE(f == &handle);
        else if (op == FGETS) OBLIGE(s == &buf[1]);
        else OBLIGE(got == want_real);
    }
    else {
        if (op == FOPEN) OBLIGE(f == fail_file);
        else if (op == FGETS) OBLIGE(s == NULL || s == buf);
        else OBLIGE(got == (op == FCLOSE ? 0 : op == FSEEK ? (long)(int)fail_value : fail_value));
    }
    return real;
}
static void restore(int op)
{
    if (op == FOPEN) fopenRestore();
    if (op == FCLOSE) fcloseRestore();
    if (op == FSEEK) fseekRestore();
    if (op == FTELL) ftellRestore();
    if (op == FWRITE) fwriteRestore();
    if (op == FREAD) freadRestore();
    if (op == FGETS) fgetsRestore();
}
static const char* lines[4] = {"ab\n", "", "0123456789", "xyz"};
static void fail(int op)
{
    if (op == FOPEN) fopenSetReturn(fail_file);
    if (op == FCLOSE) fcloseIgnore();
    if (op == FSEEK) fseekSetReturn((int)fail_value);
    if (op == FTELL) ftellFail(fail_value);
    if (op == FWRITE) fwriteFail((size_t)fail_value);
    if (op == FREAD) freadFail((size_t)fail_value);
    if (op == FGETS) fgetsSetData(lines, 4);
}
static const long values[] = {-1, 0, 1, 7, 0x7FFFFFFF, -0x7FFFFFFF - 1};
#define PICK_FAILURE(n) PICK(v##n, 6); PICK(null##n, 2); fail_value = values[v##n]; fail_file = null##n ? NULL : &failure_handle
/* nothing configured: everything is real */
void t_default(void)
{
    int op;
    for (op = 0; op < OPS; op++) { OBLIGE(is_real(op)); restore(op); OBLIGE(is_real(op)); }
    MARK(real);
}
/* one operation failing leaves the others real, and restoring the others leaves it failing */
void t_one(void)
{
    int i;
    PICK(op, OPS);
    PICK_FAILURE(1);
    fail(op);
    for (i = 0; i < OPS; i++) OBLIGE(is_real(i) == (i != op));
    OBLIGE(!is_real(op));
    for (i = 0; i < OPS; i++) if (i != op) restore(i);
    for (i = 0; i < OPS; i++) OBLIGE(is_real(i) == (i != op));
    restore(op);
    for (i = 0; i < OPS; i++) OBLIGE(is_real(i));
    OBLIGE(is_real(op));
    MARK(struck);
}
/* any two operations failing at once */
void t_two(void)
{
    int i;
    PICK(op, OPS); PICK(op2, OPS);
    fail_value = -5; fail_file = NULL;
    fail(op); fail(op2);
    for (i = 0; i < OPS; i++) OBLIGE(is_real(i) == (i != op && i != op2));
    restore(op);
    for (i = 0; i < OPS; i++) OBLIGE(is_real(i) == (i != op2 || op == op2));
    restore(op2);
    for (i = 0; i < OPS; i++) OBLIGE(is_real(i));
    MARK(struck);
}
/* the configured value can be changed, and is not kept */
void t_value(void)
{
    int i;
    PICK(op, OPS);
    PICK_FAILURE(1);
    if (op != FGETS) {
        fail(op);
        for (i = 0; i < 5; i++) OBLIGE(!is_real(op));
        PICK_FAILURE(2);
        fail(op);
        for (i = 0; i < 5; i++) OBLIGE(!is_real(op));
        restore(op);
        OBLIGE(is_real(op));
        PICK_FAILURE(3);
        fail(op);
        OBLIGE(!is_real(op));
    }
    MARK(struck);
}
/* the whole range of return values */
void t_any_value(void)
{
    int v = any_int(-0x7FFFFFFF, 0x7FFFFFFF);
    int r; long l; size_t z;
    fseekSetReturn(any_int(1000, 2000)); r = hook_fseek(&handle, L, 2); OBLIGE(r >= 1000 && r <= 2000);
    ftellFail((long)any_int(1000, 2000) * 0x100000000L); l = hook_ftell(&handle); OBLIGE(l >= 1000 * 0x100000000L && l <= 2000 * 0x100000000L);
    fwriteFail((size_t)any_u32(1000, 2000) * 0x100000000ul); z = hook_fwrite(buf, 3, 5, &handle); OBLIGE(z >= 1000 * 0x100000000ul && z <= 2000 * 0x100000000ul);
    freadFail((size_t)any_u32(1000, 2000) * 0x100000000ul); z = hook_fread(buf, 3, 5, &handle); OBLIGE(z >= 1000 * 0x100000000ul && z <= 2000 * 0x100000000ul);
    OBLIGE(real_calls == 0);
    MARK(struck);
}
/* seeks: the requested number of calls pass first, in either order of configuration */
void t_seek(void)
{
    int i;
    PICK(n, 20); PICK(first, 2);
    PICK_FAILURE(1);
    if (first) { fseekSetCallsBeforeFailure(n); fail(FSEEK); }
    else { fail(FSEEK); fseekSetCallsBeforeFailure(n); }
    for (i = 0; i < n; i++) { OBLIGE(is_real(FSEEK)); OBLIGE(is_real(FTELL)); }
    for (i = 0; i < 4; i++) OBLIGE(!is_real(FSEEK));
    fseekRestore();
    OBLIGE(is_real(FSEEK));
    MARK(struck);
}
/* restored with calls still to pass: nothing is left over */
void t_seek_reuse(void)
{
    int i;
    PICK(n, 6); PICK(made, 6); PICK(n2, 4); PICK(set2, 2);
    fail_value = -1;
    fail(FSEEK); fseekSetCallsBeforeFailure(n);
    for (i = 0; i < made; i++) OBLIGE(is_real(FSEEK) == (i < n));
    fseekRestore();
    for (i = 0; i < 8; i++) OBLIGE(is_real(FSEEK));
    fail(FSEEK);
    if (set2) fseekSetCallsBeforeFailure(n2);
    for (i = 0; i < 6; i++) OBLIGE(is_real(FSEEK) == (set2 && i < n2));
    fseekRestore();
    OBLIGE(is_real(FSEEK));
    MARK(struck);
}
/* reads: exactly the n-th fails */
void t_read(void)
{
    int i;
    PICK(k, 20);
    int n = k + 1;
    PICK_FAILURE(1);
    fail(FREAD); freadToFail(n);
    for (i = 1; i <= n + 4; i++) { OBLIGE(is_real(FREAD) == (i != n)); OBLIGE(is_real(FSEEK)); }
    MARK(struck);
}
/* reads restored with calls still to pass: nothing is left over */
void t_read_reuse(void)
{
    int i;
    PICK(k, 5); PICK(made, 6); PICK(restored, 2); PICK(n2, 4);
    fail_value = 0;
    fail(FREAD); freadToFail(k + 1);
    for (i = 1; i <= made; i++) OBLIGE(is_real(FREAD) == (i != k + 1));
    if (restored) { freadRestore(); for (i = 0; i < 7; i++) OBLIGE(is_real(FREAD)); }
    fail_value = 9;
    fail(FREAD);                            /* without a position every read fails again */
    if (n2 == 0) for (i = 0; i < 7; i++) OBLIGE(!is_real(FREAD));
    else { freadToFail(n2); for (i = 1; i <= 6; i++) OBLIGE(is_real(FREAD) == (i != n2)); }
    freadRestore();
    OBLIGE(is_real(FREAD));
    MARK(struck);
}
/* lines: each in turn, cut to the caller's buffer, end of file once, then from the start again */
static int length(const char* s) { int n = 0; while (s[n]) n++; return n; }
void t_gets(void)
{
    static const char* text[4] = {"ab\n", "", "0123456789\n", "\xff\x80z"};
    static char out[16];
    int i, j, round, n;
    PICK(count, 5); PICK(k, 14);
    int size = k + 1;
    fgetsSetData(text, (size_t)count);
    for (round = 0; round < 3; round++) {
        for (i = 0; i < count; i++) {
            for (j = 0; j < 16; j++) out[j] = '#';
            OBLIGE(hook_fgets(out, size, &handle) == out);
            n = length(text[i]) < size - 1 ? length(text[i]) : size - 1;
            for (j = 0; j < n; j++) OBLIGE(out[j] == text[i][j]);
            OBLIGE(out[n] == 0);
            for (j = size; j < 16; j++) OBLIGE(out[j] == '#');
        }
        OBLIGE(hook_fgets(out, size, &handle) == NULL);
    }
    OBLIGE(real_calls == 0);
    fgetsRestore();
    OBLIGE(is_real(FGETS));
    MARK(told);
}
/* new lines, or restoring, in the middle of a text */
void t_gets_reuse(void)
{
    static const char* one[3] = {"a", "b", "c"};
    static const char* two[2] = {"x", "y"};
    int i;
    PICK(made, 5); PICK(restored, 2);
    fgetsSetData(one, 3);
    for (i = 0; i < made; i++) {
        OBLIGE(hook_fgets(buf, 8, &handle) == (i == 3 ? NULL : buf));
        if (i != 3) OBLIGE(buf[0] == "abc?a"[i] && buf[1] == 0);
    }
    if (restored) { fgetsRestore(); OBLIGE(is_real(FGETS)); }
    fgetsSetData(two, 2);
    OBLIGE(hook_fgets(buf, 8, &handle) == buf && buf[0] == 'x');
    OBLIGE(hook_fgets(buf, 8, &handle) == buf && buf[0] == 'y');
    OBLIGE(hook_fgets(buf, 8, &handle) == NULL);
    OBLIGE(hook_fgets(buf, 8, &handle) == buf && buf[0] == 'x');
    MARK(told);
}
/* any return values and counts: none is cut to fewer bits */
void t_wide(void)
{
    fail_value = Frama_C_long_interval(-0x7FFFFFFFl - 1, 0x7FFFFFFFl);
    fseekSetReturn((int)fail_value);
    ftellFail(fail_value);
    fwriteFail((size_t)fail_value);
    freadFail((size_t)fail_value);
    freadToFail(any_int(1, 0x7FFFFFFF));
    fseekSetCallsBeforeFailure(any_int(0, 0x7FFFFFFF));
    while (any_bool()) { hook_fseek(&handle, L, 2); hook_fread(buf, 3, 5, &handle); }
    hook_ftell(&handle);
    hook_fwrite(buf, 3, 5, &handle);
}
