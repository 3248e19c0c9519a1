/* Executable models of the environment: heap, stdio, libc string functions. */
#include "mdl.h"
#undef memmove
#undef memcpy
#undef memset
#undef malloc
#undef realloc
#undef calloc
#undef free

int   __lj_active;
void* __lj_target;
int   __lj_value;
size_t __ret_off;
int __num_count, __line_len;
size_t Frama_C_offset(const void* p);

void mdl_uncaught(void)
{
    /* a throw with no handler installed would trap / exit the program */
    OBLIGE(mdl_exit_expected);
}

int mdl_exit_expected;
#undef exit
void mdl_exit(int status)
{
    OBLIGE((status & 255) != 0);        /* nothing in this program exits early because all is well */
    exit(status);
}
#define exit mdl_exit

/* ------------------------------------------------------------------ heap */
int mdl_live_allocs, mdl_alloc_count, mdl_alloc_fail_at, mdl_alloc_failed;
size_t mdl_alloc_max = 0x40000000;

static int mdl_fail_this_alloc(size_t size)
{
    mdl_alloc_count++;
    if (mdl_alloc_count == mdl_alloc_fail_at || size > mdl_alloc_max) {
        mdl_alloc_failed++;
        return 1;
    }
    return 0;
}
void* mdl_malloc(size_t size)
{
    void* p;
    if (mdl_fail_this_alloc(size))
        return NULL;
    p = malloc(size);
    mdl_live_allocs++;
    return p;
}
void* mdl_realloc(void* ptr, size_t size)
{
    void* p;
    if (mdl_fail_this_alloc(size))
        return NULL;
    if (!ptr) {
        mdl_live_allocs++;
        return malloc(size);
    }
    p = realloc(ptr, size);
    return p;
}
void mdl_free(void* ptr)
{
    if (ptr)
        mdl_live_allocs--;
    free(ptr);
}

int mdl_strcmp(const char* a, const char* b);
/* ----------------------------------------------------------------- files */
MdlFile mdl_files[MDL_FILES];
int mdl_file_count;
int mdl_open_handles;
int mdl_fopen_calls, mdl_fread_calls, mdl_fseek_calls, mdl_ftell_calls, mdl_fgets_calls, mdl_fclose_calls;
int mdl_fopen_fail_at, mdl_fread_fail_at, mdl_fseek_fail_at, mdl_ftell_fail_at, mdl_fgets_fail_at;
int mdl_fread_fail_partial;
int mdl_io_failed;
int mdl_stream_eof, mdl_stream_err;
long mdl_ftell_fail_value = -1;
const char* mdl_last_open_name;

static FILE mdl_handle_mem[MDL_HANDLES];
static struct { int open; int file; long pos; int err, eof; } mdl_h[MDL_HANDLES];
static int mdl_next_handle;

static int mdl_handle(FILE* f)
{
    int i;
    for (i = 0; i < MDL_HANDLES; i++)
        if (f == &mdl_handle_mem[i])
            return i;
    OBLIGE(0);              /* not a handle returned by fopen */
    return 0;
}
FILE* mdl_fopen(const char* filename, const char* mode)
{
    int i, h;
    mdl_fopen_calls++;
    OBLIGE(mode[0] == 'r' && mode[1] != '+' && (mode[1] == 0 || mode[2] != '+'));  /* inputs are never opened for writing */
    mdl_last_open_name = filename;
    if (mdl_fopen_calls == mdl_fopen_fail_at) {
        mdl_io_failed++;
        return NULL;
    }
    for (i = 0; i < mdl_file_count; i++) {
        if (mdl_files[i].name != NULL && mdl_strcmp(mdl_files[i].name, filename) != 0)
            continue;
        if (mdl_files[i].missing)
            return NULL;
        OBLIGE(mdl_next_handle < MDL_HANDLES);
        h = mdl_next_handle++;
        mdl_h[h].open = 1;
        mdl_h[h].file = i;
        mdl_h[h].pos = 0;
        mdl_h[h].err = 0;
        mdl_h[h].eof = 0;
        mdl_open_handles++;
        return &mdl_handle_mem[h];
    }
    return NULL;
}
int mdl_fclose(FILE* f)
{
    int h = mdl_handle(f);
    mdl_fclose_calls++;
    OBLIGE(mdl_h[h].open);      /* closed exactly once */
    mdl_h[h].open = 0;
    mdl_open_handles--;
    return 0;
}
size_t mdl_fread(void* ptr, size_t size, size_t nitems, FILE* f)
{
    int h = mdl_handle(f);
    size_t want = size * nitems, avail, n;
    mdl_fread_calls++;
    OBLIGE(mdl_h[h].open);
    if (mdl_fread_calls == mdl_fread_fail_at) {
        mdl_io_failed++;
        mdl_h[h].err = 1;
        if (!mdl_fread_fail_partial)
            return 0;
        want /= 2;      /* some of the data arrives, then the read fails */
    }
    if (mdl_files[mdl_h[h].file].size < 0) {        /* a file of any length with any contents */
        if (want == 0) return 0;
        n = (size_t)Frama_C_unsigned_long_interval(0, want);
        Frama_C_make_unknown((char*)ptr, want);
        return size == 1 ? n : n / size;
    }
    avail = (size_t)(mdl_files[mdl_h[h].file].size - mdl_h[h].pos);
    n = want < avail ? want : avail;
    if (want > avail) mdl_h[h].eof = 1;
    if (n == 0 || size == 0)
        return 0;
    memcpy(ptr, mdl_files[mdl_h[h].file].data + mdl_h[h].pos, n);
    mdl_h[h].pos += (long)n;
    return size == 1 ? n : n / size;
}
int mdl_fseek(FILE* f, long offset, int whence)
{
    int h = mdl_handle(f);
    long base;
    mdl_fseek_calls++;
    OBLIGE(mdl_h[h].open);
    if (mdl_fseek_calls == mdl_fseek_fail_at) {
        mdl_io_failed++;
        return -1;
    }
    if (whence == SEEK_SET)
        base = 0;
    else if (whence == SEEK_CUR)
        base = mdl_h[h].pos;
    else if (whence == SEEK_END)
        base = mdl_files[mdl_h[h].file].size;
    else
        return -1;
    if (base + offset < 0)
        return -1;
    mdl_h[h].pos = base + offset;
    mdl_h[h].eof = 0;
    return 0;
}
long mdl_ftell(FILE* f)
{
    int h = mdl_handle(f);
    mdl_ftell_calls++;
    OBLIGE(mdl_h[h].open);
    if (mdl_ftell_calls == mdl_ftell_fail_at) {
        mdl_io_failed++;
        return mdl_ftell_fail_value;
    }
    return mdl_h[h].pos;
}
void mdl_rewind(FILE* f)
{
    int h = mdl_handle(f);
    OBLIGE(mdl_h[h].open);
    mdl_h[h].pos = 0;
    mdl_h[h].err = 0;
    mdl_h[h].eof = 0;
}
int mdl_feof(FILE* f) { int h = mdl_handle(f); OBLIGE(mdl_h[h].open); return mdl_h[h].eof || mdl_stream_eof; }
int mdl_fgetc(FILE* f)
{
    int h = mdl_handle(f);
    OBLIGE(mdl_h[h].open);
    mdl_fread_calls++;
    if (mdl_fread_calls == mdl_fread_fail_at) { mdl_io_failed++; mdl_h[h].err = 1; return EOF; }
    if (mdl_h[h].pos >= mdl_files[mdl_h[h].file].size) { mdl_h[h].eof = 1; return EOF; }
    return mdl_files[mdl_h[h].file].data[mdl_h[h].pos++];
}
int mdl_ferror(FILE* f) { int h = mdl_handle(f); OBLIGE(mdl_h[h].open); return mdl_h[h].err || mdl_stream_err; }
void mdl_clearerr(FILE* f) { int h = mdl_handle(f); mdl_h[h].err = 0; }
char* mdl_fgets(char* str, int size, FILE* f)
{
    int h = mdl_handle(f), n = 0;
    const uint8_t* data = mdl_files[mdl_h[h].file].data;
    long len = mdl_files[mdl_h[h].file].size;
    long pos = mdl_h[h].pos;
    mdl_fgets_calls++;
    OBLIGE(mdl_h[h].open);
    if (mdl_fgets_calls == mdl_fgets_fail_at) {
        mdl_io_failed++;
        mdl_h[h].err = 1;
        return NULL;
    }
    if (pos >= len || size <= 1) {
        if (pos >= len) mdl_h[h].eof = 1;
        return NULL;
    }
    while (n < size - 1 && pos < len) {
        char c = (char)data[pos++];
        str[n++] = c;
        if (c == '\n')
            break;
    }
    str[n] = 0;
    __line_len = n;
    if (n < size - 1 && str[n - 1] != '\n') mdl_h[h].eof = 1;
    mdl_h[h].pos = pos;
    return str;
}

/* ---------------------------------------------------------------- output */
FILE mdl_std_file[3];
int mdl_err_lines, mdl_out_lines, mdl_saw_error, mdl_saw_usage;
char mdl_err_text[1200];
int mdl_keep_err_text;

static int mdl_starts(const char* p, const char* prefix)
{
    int i;
    for (i = 0; prefix[i]; i++)
        if (p[i] != prefix[i])
            return 0;
    return 1;
}
int mdl_vsnprintf(char* pBuf, size_t size, const char* pFmt, va_list args)
{
    size_t out = 0;
    int i = 0;
#define PUT(c) do { if (out + 1 < size) pBuf[out] = (c); out++; } while (0)
    while (pFmt[i]) {
        char c = pFmt[i++];
        int zero = 0, width = 0, longs = 0, left = 0, plus = 0, alt = 0, prec = -1;
        if (c != '%') { PUT(c); continue; }
        for (;; i++) {
            if (pFmt[i] == '0') zero = 1;
            else if (pFmt[i] == '-') left = 1;
            else if (pFmt[i] == '+') plus = '+';
            else if (pFmt[i] == ' ') plus = plus ? plus : ' ';
            else if (pFmt[i] == '#') alt = 1;
            else break;
        }
        if (pFmt[i] == '*') { width = va_arg(args, int); i++; if (width < 0) { left = 1; width = -width; } }
        while (pFmt[i] >= '0' && pFmt[i] <= '9') { width = width * 10 + (pFmt[i] - '0'); i++; }
        if (pFmt[i] == '.') {
            i++; prec = 0;
            if (pFmt[i] == '*') { prec = va_arg(args, int); i++; }
            while (pFmt[i] >= '0' && pFmt[i] <= '9') { prec = prec * 10 + (pFmt[i] - '0'); i++; }
        }
        while (pFmt[i] == 'l' || pFmt[i] == 'z' || pFmt[i] == 'h' || pFmt[i] == 't' || pFmt[i] == 'j') { if (pFmt[i] != 'h') longs++; i++; }
        c = pFmt[i];
        OBLIGE(c == '%' || c == 's' || c == 'c' || c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'p' || c == 'o'); /* format understood */
        i++;
        if (c == '%') { PUT('%'); }
        else if (c == 'c') {
            int v = va_arg(args, int), pad = width - 1;
            if (!left) while (pad-- > 0) PUT(' ');
            PUT((char)v);
            if (left) while (pad-- > 0) PUT(' ');
        }
        else if (c == 's') {
            const char* s = va_arg(args, const char*);
            int k, n = 0;
            if (width) { while ((prec < 0 || n < prec) && s[n]) n++; }
            n = width - n;
            if (!left) while (n-- > 0) PUT(' ');
            for (k = 0; (prec < 0 || k < prec) && s[k]; k++) PUT(s[k]);
            if (left) while (n-- > 0) PUT(' ');
        }
        else {
            unsigned long v;
            int neg = 0, nd = 0, upper = (c == 'X'), sign = 0, pad;
            unsigned base = (c == 'x' || c == 'X' || c == 'p') ? 16 : c == 'o' ? 8 : 10;
            char digits[24];
            if (c == 'p') { v = 0; (void)va_arg(args, void*); }
            else if (c == 'd' || c == 'i') {
                long sv = longs ? va_arg(args, long) : (long)va_arg(args, int);
                if (sv < 0) { neg = 1; v = 0ul - (unsigned long)sv; } else v = (unsigned long)sv;
                sign = neg ? '-' : plus;
            }
            else v = longs ? va_arg(args, unsigned long) : (unsigned long)va_arg(args, unsigned int);
            alt = alt && base == 16 && v != 0;
            do {
                unsigned d = (unsigned)(v % base);
                digits[nd++] = (upper ? "0123456789ABCDEF" : "0123456789abcdef")[d];
                v /= base;
            } while (v != 0 && nd < 24);
            if (prec >= 0) zero = 0;
            pad = width - (nd > prec ? nd : prec) - (sign != 0) - 2 * alt;
            if (!left && !zero) while (pad-- > 0) PUT(' ');
            if (sign) PUT((char)sign);
            if (alt) { PUT('0'); PUT(upper ? 'X' : 'x'); }
            if (!left && zero) while (pad-- > 0) PUT('0');
            { int k = prec - nd; while (k-- > 0) PUT('0'); }
            while (nd > 0) { nd--; PUT(digits[nd]); }
            if (left) while (pad-- > 0) PUT(' ');
        }
    }
    if (size > 0)
        pBuf[out < size ? out : size - 1] = 0;
    return (int)out;
#undef PUT
}
int mdl_snprintf(char* pBuf, size_t size, const char* pFmt, ...)
{
    va_list args;
    int n;
    va_start(args, pFmt);
    n = mdl_vsnprintf(pBuf, size, pFmt, args);
    va_end(args);
    return n;
}
/* what the user sees on standard error: counts the lines that start with ERROR / Usage */
static void mdl_note_err(const char* p)
{
    int i, start = 1;
    mdl_err_lines++;
    for (i = 0; p[i]; i++) {
        if (start && p[i] == 'E' && mdl_starts(p + i, "ERROR"))
            mdl_saw_error++;
        if (start && p[i] == 'U' && mdl_starts(p + i, "Usage"))
            mdl_saw_usage++;
        start = p[i] == '\n';
    }
}
int mdl_printf(const char* pFmt, ...)
{
    mdl_out_lines++;
    return 0;
}
int mdl_fprintf(FILE* f, const char* pFmt, ...)
{
    if (f == stderr) {
        if (mdl_starts(pFmt, "%s")) {
            va_list args;
            va_start(args, pFmt);
            mdl_note_err(va_arg(args, const char*));
            va_end(args);
        }
        else
            mdl_note_err(pFmt);
        if (mdl_starts(pFmt, "ERROR") || mdl_keep_err_text) {
            va_list args;
            va_start(args, pFmt);
            mdl_vsnprintf(mdl_err_text, sizeof(mdl_err_text), pFmt, args);
            va_end(args);
        }
    }
    else
        mdl_out_lines++;
    return 0;
}
int mdl_fputs(const char* s, FILE* f)
{
    if (f == stderr) mdl_note_err(s); else mdl_out_lines++;
    return 0;
}
int mdl_fputc(int c, FILE* f)
{
    if (f == stderr) mdl_err_lines++; else mdl_out_lines++;
    return c;
}
size_t mdl_fwrite(const void* p, size_t size, size_t n, FILE* f)
{
    if (f == stderr) mdl_err_lines++; else mdl_out_lines++;
    return n;
}
int mdl_fflush(FILE* f) { return 0; }

/* ------------------------------------------------------------------ libc */
int mdl_isspace(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
int mdl_isdigit(int c) { return c >= '0' && c <= '9'; }
int mdl_isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int mdl_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int mdl_isalnum(int c) { return mdl_isalpha(c) || mdl_isdigit(c); }
int mdl_tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int mdl_toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
/* zero-length calls never touch the buffers (one-past-the-end and null pointers are accepted there) */
void* mdl_memmove(void* d, const void* s, size_t n) { if (n) memmove(d, s, n); return d; }
void* mdl_memcpy(void* d, const void* s, size_t n) { if (n) memcpy(d, s, n); return d; }
void* mdl_memset(void* d, int c, size_t n) { if (n) memset(d, c, n); return d; }
char* mdl_strncpy(char* d, const char* s, size_t n)
{
    size_t i = 0;
    while (i < n && s[i]) { d[i] = s[i]; i++; }
    while (i < n) d[i++] = 0;
    return d;
}
char* mdl_strcpy(char* d, const char* s)
{
    size_t i = 0;
    while (s[i]) { d[i] = s[i]; i++; }
    d[i] = 0;
    return d;
}
#ifdef RETSPLIT
size_t mdl_strlen(const char* p)
{
    size_t n = 0;
    while (p[n]) n++;
    __ret_off = n;
    return n;
}
#endif
int mdl_memcmp(const void* a, const void* b, size_t n)
{
    const unsigned char* x = a; const unsigned char* y = b;
    size_t i;
    for (i = 0; i < n; i++)
        if (x[i] != y[i])
            return x[i] < y[i] ? -1 : 1;
    return 0;
}
int mdl_strncmp(const char* a, const char* b, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) {
        unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
        if (x != y)
            return x < y ? -1 : 1;
        if (x == 0)
            return 0;
    }
    return 0;
}
int mdl_strcmp(const char* a, const char* b)
{
    size_t i;
    for (i = 0; ; i++) {
        unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
        if (x != y)
            return x < y ? -1 : 1;
        if (x == 0)
            return 0;
    }
}
int mdl_strcasecmp(const char* a, const char* b)
{
    size_t i;
    for (i = 0; ; i++) {
        int x = mdl_tolower((unsigned char)a[i]), y = mdl_tolower((unsigned char)b[i]);
        if (x != y)
            return x < y ? -1 : 1;
        if (x == 0)
            return 0;
    }
}
int mdl_strncasecmp(const char* a, const char* b, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) {
        int x = mdl_tolower((unsigned char)a[i]), y = mdl_tolower((unsigned char)b[i]);
        if (x != y)
            return x < y ? -1 : 1;
        if (x == 0)
            return 0;
    }
    return 0;
}
unsigned long mdl_strtoul(const char* p, char** ppEnd, int base)
{
    const char* s = p;
    unsigned long v = 0;
    int neg = 0, any = 0;
    while (mdl_isspace(*s)) s++;
    if (*s == '+') s++;
    else if (*s == '-') { neg = 1; s++; }
    if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && mdl_isxdigit(s[2])) { s += 2; base = 16; }
    else if (base == 0) base = (*s == '0') ? 8 : 10;
    for (;;) {
        int d;
        char c = *s;
        if (c >= '0' && c <= '9') d = c - '0';
        else if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
        else if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
        else break;
        if (d >= base) break;
        any = 1;
        if (v > (0xFFFFFFFFFFFFFFFFul - (unsigned long)d) / (unsigned long)base) v = 0xFFFFFFFFFFFFFFFFul;
        else v = v * (unsigned long)base + (unsigned long)d;
        s++;
    }
    if (!any) s = p;
    if (ppEnd) *ppEnd = (char*)s;
#ifdef RETSPLIT
    __ret_off = Frama_C_offset(s);
    __num_count += any;
#endif
    return neg ? 0ul - v : v;
}
long mdl_strtol(const char* p, char** ppEnd, int base)
{
    return (long)mdl_strtoul(p, ppEnd, base);
}

/* ------------------------------------- the rest of libc that may come up */
#define ADV(N) do { size_t adv_ = (N); __ret_off = adv_; } while (0)
char* mdl_strchr(const char* s, int c)
{
    size_t i;
    for (i = 0; ; i++) {
        if (s[i] == (char)c) { ADV(i); return (char*)s + i; }
        if (!s[i]) return NULL;
    }
}
char* mdl_strrchr(const char* s, int c)
{
    size_t i; char* r = NULL;
    for (i = 0; ; i++) {
        if (s[i] == (char)c) r = (char*)s + i;
        if (!s[i]) return r;
    }
}
char* mdl_strstr(const char* s, const char* t)
{
    size_t i, k;
    for (i = 0; ; i++) {
        for (k = 0; t[k] && s[i + k] == t[k]; k++) { }
        if (!t[k]) return (char*)s + i;
        if (!s[i]) return NULL;
    }
}
static int mdl_in_set(char c, const char* set)
{
    size_t k;
    for (k = 0; set[k]; k++) if (set[k] == c) return 1;
    return 0;
}
size_t mdl_strspn(const char* s, const char* set) { size_t n = 0; while (s[n] && mdl_in_set(s[n], set)) n++; ADV(n); return n; }
size_t mdl_strcspn(const char* s, const char* set) { size_t n = 0; while (s[n] && !mdl_in_set(s[n], set)) n++; ADV(n); return n; }
char* mdl_strpbrk(const char* s, const char* set) { size_t n = 0; while (s[n] && !mdl_in_set(s[n], set)) n++; return s[n] ? (char*)s + n : NULL; }
char* mdl_strcat(char* d, const char* s)
{
    size_t n = 0, i = 0;
    while (d[n]) n++;
    while (s[i]) { d[n + i] = s[i]; i++; }
    d[n + i] = 0;
    return d;
}
char* mdl_strncat(char* d, const char* s, size_t m)
{
    size_t n = 0, i = 0;
    while (d[n]) n++;
    while (i < m && s[i]) { d[n + i] = s[i]; i++; }
    d[n + i] = 0;
    return d;
}
char* mdl_stpcpy(char* d, const char* s)
{
    size_t i = 0;
    while (s[i]) { d[i] = s[i]; i++; }
    d[i] = 0;
    return d + i;
}
char* mdl_strdup(const char* s)
{
    size_t n = 0, i; char* d;
    while (s[n]) n++;
    d = mdl_malloc(n + 1);
    if (!d) return NULL;
    for (i = 0; i <= n; i++) d[i] = s[i];
    return d;
}
char* mdl_strtok_r(char* s, const char* set, char** ppSave)
{
    char* r;
    if (!s) s = *ppSave;
    if (!s) return NULL;
    while (*s && mdl_in_set(*s, set)) s++;
    if (!*s) { *ppSave = NULL; return NULL; }
    r = s;
    while (*s && !mdl_in_set(*s, set)) s++;
    if (*s) { *s = 0; *ppSave = s + 1; } else *ppSave = NULL;
    return r;
}
static char* mdl_strtok_save;
char* mdl_strtok(char* s, const char* set) { return mdl_strtok_r(s, set, &mdl_strtok_save); }
size_t mdl_strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; ADV(i); return i; }
void* mdl_memchr(const void* s, int c, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) if (((const unsigned char*)s)[i] == (unsigned char)c) { ADV(i); return (char*)s + i; }
    return NULL;
}
int mdl_isprint(int c) { return c >= ' ' && c <= '~'; }
int mdl_isgraph(int c) { return c > ' ' && c <= '~'; }
int mdl_iscntrl(int c) { return (c >= 0 && c < ' ') || c == 127; }
int mdl_isblank(int c) { return c == ' ' || c == '\t'; }
int mdl_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int mdl_islower(int c) { return c >= 'a' && c <= 'z'; }
int mdl_ispunct(int c) { return mdl_isgraph(c) && !mdl_isalnum(c); }
int mdl_abs(int v) { return v < 0 ? -v : v; }
long mdl_labs(long v) { return v < 0 ? -v : v; }
void* mdl_calloc(size_t n, size_t size)
{
    void* p = (size && n > mdl_alloc_max / size) ? mdl_malloc(mdl_alloc_max + 1) : mdl_malloc(n * size);
    if (p && n * size) memset(p, 0, n * size);
    return p;
}
int mdl_vsprintf(char* pBuf, const char* pFmt, va_list args) { return mdl_vsnprintf(pBuf, 0x7FFFFFFF, pFmt, args); }
int mdl_sprintf(char* pBuf, const char* pFmt, ...)
{
    va_list args; int n;
    va_start(args, pFmt);
    n = mdl_vsnprintf(pBuf, 0x7FFFFFFF, pFmt, args);
    va_end(args);
    return n;
}
int mdl_vfprintf(FILE* f, const char* pFmt, va_list args)
{
    if (f == stderr) {
        if (mdl_starts(pFmt, "%s")) {
            va_list copy;
            va_copy(copy, args);
            mdl_note_err(va_arg(copy, const char*));
            va_end(copy);
        }
        else
            mdl_note_err(pFmt);
        if (mdl_starts(pFmt, "ERROR") || mdl_keep_err_text)
            mdl_vsnprintf(mdl_err_text, sizeof(mdl_err_text), pFmt, args);
    }
    else
        mdl_out_lines++;
    return 0;
}
int mdl_vprintf(const char* pFmt, va_list args) { mdl_out_lines++; return 0; }
void mdl_perror(const char* s) { mdl_err_lines++; }
char* mdl_strerror(int e) { return "error"; }
/* integers, characters and words; enough for parsing numbers out of a line */
int mdl_sscanf(const char* s, const char* pFmt, ...)
{
    va_list args;
    const char* p = s;
    int i = 0, done = 0;
    va_start(args, pFmt);
    while (pFmt[i]) {
        char c = pFmt[i++];
        int width = 0, longs = 0, skip = 0, halves = 0;
        if (mdl_isspace(c)) { while (mdl_isspace(*p)) p++; continue; }
        if (c != '%') { if (*p != c) break; p++; continue; }
        if (pFmt[i] == '*') { skip = 1; i++; }
        while (pFmt[i] >= '0' && pFmt[i] <= '9') { width = width * 10 + (pFmt[i] - '0'); i++; }
        while (pFmt[i] == 'l' || pFmt[i] == 'z' || pFmt[i] == 'h') { if (pFmt[i] == 'h') halves++; else longs++; i++; }
        c = pFmt[i++];
        OBLIGE(c == '%' || c == 's' || c == 'c' || c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'n');
        if (c == 'n') { *va_arg(args, int*) = (int)(p - s); continue; }
        if (c == 'c') {
            char* d = skip ? NULL : va_arg(args, char*);
            int n = width ? width : 1, k;
            for (k = 0; k < n && p[k]; k++) if (d) d[k] = p[k];
            if (k < n) { if (!k && !done && !*p) done = EOF; break; }
            p += n;
            if (!skip) done++;
            continue;
        }
        while (mdl_isspace(*p)) p++;
        if (!*p) { if (!done) done = EOF; break; }
        if (c == '%') { if (*p != '%') break; p++; continue; }
        if (c == 's') {
            char* d = skip ? NULL : va_arg(args, char*);
            int k = 0;
            while (p[k] && !mdl_isspace(p[k]) && (!width || k < width)) { if (d) d[k] = p[k]; k++; }
            if (d) d[k] = 0;
            p += k;
            if (!skip) done++;
            continue;
        }
        {
            char text[32]; char* end = text; int k = 0; unsigned long v;
            int base = c == 'x' || c == 'X' ? 16 : c == 'i' ? 0 : 10;
            while (k < 31 && p[k] && (!width || k < width)) { text[k] = p[k]; k++; }
            text[k] = 0;
            v = mdl_strtoul(text, &end, base);
            if (end == text) break;
            p += end - text;
            if (!skip) {
                if (longs) *va_arg(args, unsigned long*) = v;
                else if (halves == 1) *va_arg(args, unsigned short*) = (unsigned short)v;
                else if (halves == 2) *va_arg(args, unsigned char*) = (unsigned char)v;
                else *va_arg(args, unsigned int*) = (unsigned int)v;
                done++;
            }
        }
    }
    va_end(args);
    return done;
}
