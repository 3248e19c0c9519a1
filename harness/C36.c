/* C36: the console moves exactly one character per call or raises the file exception; production hooks are the real functions. */
//! sources: main/MockDefaults.c libcommon/src/try_catch.c
//! models: mdl.c
//! defs: -DHEAP_MODEL -DFILE_MODEL -DPOSIX_MODEL
#include "h.h"
#undef fopen
#undef fclose
#undef fseek
#undef ftell
#undef fread
#undef fgets
#undef malloc
#undef realloc
#undef free
#include <Console.h>
#include <FileFailureInject.h>
#include <MallocFailureInject.h>
extern int (*hook_printf)(const char* pFormat, ...);
extern int (*hook_fprintf)(FILE* pFile, const char* pFormat, ...);

/* the operating system */
static int reads, writes, selects;
static long read_result, write_result; static int select_result;
static unsigned char next_char, written;
static unsigned long bits;      /* model of the one descriptor set in use */
ssize_t real_read(int fd, void* p, size_t n)
{
    reads++;
    OBLIGE(fd == 0);
    OBLIGE(n == 1);             /* taking more would lose characters */
    if (read_result == 1) *(unsigned char*)p = next_char;
    return read_result;
}
ssize_t real_write(int fd, const void* p, size_t n)
{
    writes++;
    OBLIGE(fd == 1);
    OBLIGE(n == 1);
    written = *(const unsigned char*)p;
    return write_result;
}
void mdl_fd_zero(fd_set* s) { bits = 0; }
void mdl_fd_set(int fd, fd_set* s) { bits |= 1ul << fd; }
void mdl_fd_clr(int fd, fd_set* s) { bits &= ~(1ul << fd); }
int  mdl_fd_isset(int fd, fd_set* s) { return (bits >> fd) & 1; }
int real_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t)
{
    selects++;
    OBLIGE(r != NULL && w == NULL && e == NULL);
    OBLIGE(n == 1 && bits == 1);                            /* just standard input */
    OBLIGE(t != NULL && t->tv_sec == 0 && t->tv_usec == 0); /* and without waiting */
    if (select_result == 0) bits = 0;
    return select_result;
}
/* the C library: each function recognisable */
static int called;
void* real_malloc(size_t size) { called = 1; OBLIGE(size == 5); return &called; }
void* real_realloc(void* p, size_t size) { called = 2; OBLIGE(p == &called && size == 6); return &called; }
void* real_calloc(size_t n, size_t size) { called = 99; return NULL; }
void  real_free(void* p) { called = 3; OBLIGE(p == &called); }
static FILE handle; static char buf[4];
FILE* real_fopen(const char* f, const char* m) { called = 4; OBLIGE(f[0] == 'n' && m[0] == 'r'); return &handle; }
int real_fclose(FILE* s) { called = 5; OBLIGE(s == &handle); return -7; }
int real_fseek(FILE* s, long o, int w) { called = 6; OBLIGE(s == &handle && o == 11 && w == 1); return -8; }
long real_ftell(FILE* s) { called = 7; OBLIGE(s == &handle); return 12; }
size_t real_fwrite(const void* p, size_t n, size_t k, FILE* s) { called = 8; return 0; }
size_t real_fread(void* p, size_t n, size_t k, FILE* s) { called = 9; OBLIGE(p == buf && n == 2 && k == 3 && s == &handle); return 2; }
char* real_fgets(char* p, int n, FILE* s) { called = 10; OBLIGE(p == buf && n == 4 && s == &handle); return buf; }

/* any byte read is delivered */
void t_read(void)
{
    PICK(c, 256);
    int got = 0, code = 0;
    read_result = 1; next_char = (unsigned char)c;
    CATCHING(code, got = Console_ReadStdIn());
    OBLIGE(code == 0);
    OBLIGE((uint8_t)got == c && reads == 1);
    OBLIGE(writes == 0 && selects == 0);
    MARK(read);
}
/* end of input, failure */
void t_read_fails(void)
{
    PICK(k, 2); PICK(before, 2);
    int code = 0;
    next_char = 'x';
    if (before) { read_result = 1; CATCHING(code, OBLIGE(Console_ReadStdIn() == 'x')); OBLIGE(code == 0); }
    read_result = k ? -1 : 0;
    CATCHING(code, (Console_ReadStdIn(), OBLIGE(0)));
    OBLIGE(code == fileException);
    /* and again */
    code = 0;
    CATCHING(code, (Console_ReadStdIn(), OBLIGE(0)));
    OBLIGE(code == fileException);
    read_result = 1;
    CATCHING(code, OBLIGE(Console_ReadStdIn() == 'x'));
    MARK(raised);
}
/* any character is written once */
void t_write(void)
{
    PICK(v, 384);
    int code = 0, c = v - 128;
    write_result = 1;
    CATCHING(code, Console_WriteStdOut(c));
    OBLIGE(code == 0 && writes == 1 && written == (uint8_t)c);
    OBLIGE(reads == 0 && selects == 0);
    MARK(written);
}
/* failures and short writes */
void t_write_fails(void)
{
    PICK(k, 2);
    int code = 0;
    write_result = k ? -1 : 0;
    CATCHING(code, (Console_WriteStdOut('q'), OBLIGE(0)));
    OBLIGE(code == fileException);
    code = 0; write_result = 1;
    CATCHING(code, Console_WriteStdOut('w'));
    OBLIGE(code == 0 && written == 'w');
    MARK(raised);
}
/* true exactly when a read would not block */
void t_pending(void)
{
    PICK(k, 2);
    int code = 0, has = 0, i;
    for (i = 0; i < 3; i++) {
        select_result = i == 1 ? !k : k;
        bits = 0xF0;    /* left over from another use */
        CATCHING(code, has = Console_HasStdInDataToRead());
        OBLIGE(code == 0 && !!has == select_result && selects == i + 1);
    }
    OBLIGE(reads == 0 && writes == 0);      /* asking consumes nothing */
    MARK(asked);
}
/* a failing query raises the file exception */
void t_query_fails(void)
{
    int code = 0;
    select_result = -1;
    CATCHING(code, (Console_HasStdInDataToRead(), OBLIGE(0)));
    OBLIGE(code == fileException);
    OBLIGE(reads == 0 && writes == 0);
    MARK(raised);
}
/* each hook of the program is the C library's function */
void t_hooks(void)
{
    OBLIGE(hook_malloc(5) == &called && called == 1);
    OBLIGE(hook_realloc(&called, 6) == &called); OBLIGE(called == 2);
    hook_free(&called); OBLIGE(called == 3);
    OBLIGE(hook_fopen("n", "r") == &handle && called == 4);
    OBLIGE(hook_fclose(&handle) == -7 && called == 5);
    OBLIGE(hook_fseek(&handle, 11, 1) == -8 && called == 6);
    OBLIGE(hook_ftell(&handle) == 12 && called == 7);
    OBLIGE(hook_fread(buf, 2, 3, &handle) == 2 && called == 9);
    OBLIGE(hook_fgets(buf, 4, &handle) == buf && called == 10);
    mdl_keep_err_text = 1;
    hook_printf("x%d", 1); OBLIGE(mdl_out_lines == 1 && mdl_err_lines == 0);
    hook_fprintf(stderr, "e%d%s", 12, "z"); OBLIGE(mdl_out_lines == 1 && mdl_err_lines == 1);
    OBLIGE(mdl_err_text[0] == 'e' && mdl_err_text[1] == '1' && mdl_err_text[2] == '2' && mdl_err_text[3] == 'z' && mdl_err_text[4] == 0);
    hook_fprintf(stdout, "o"); OBLIGE(mdl_out_lines == 2 && mdl_err_lines == 1);
    MARK(real);
}
