/* Shared by the demonstrations of the planted changes: exception-safe calls, checks, file helpers. */
#ifndef DEMO_H
#define DEMO_H
#include <assert.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <try_catch.h>
/* the C library's own functions, whatever the hook headers included later redirect */
static inline void* plain_malloc(size_t n) { return malloc(n); }
static inline void* plain_realloc(void* p, size_t n) { return realloc(p, n); }
static inline void plain_free(void* p) { free(p); }
static inline FILE* plain_fopen(const char* n, const char* m) { return fopen(n, m); }
static inline int plain_fclose(FILE* f) { return fclose(f); }
static inline size_t plain_fread(void* p, size_t s, size_t n, FILE* f) { return fread(p, s, n, f); }
static inline int plain_fseek(FILE* f, long o, int w) { return fseek(f, o, w); }
static inline long plain_ftell(FILE* f) { return ftell(f); }
static inline char* plain_fgets(char* p, int n, FILE* f) { return fgets(p, n, f); }
static int g_failures;
#define CHECK(X) do { if (!(X)) { printf("FAILED line %d: %s\n", __LINE__, #X); g_failures++; } } while (0)
/* Runs STMT; CODE becomes the exception it raised, or 0. */
#define ATTEMPT(CODE, STMT) do { volatile int c_ = 0; __try { STMT; } __catch { c_ = getExceptionCode(); clearExceptionCode(); } (CODE) = c_; } while (0)
static inline void putFile(const char* pName, const void* pData, size_t size)
{
    FILE* p = (fopen)(pName, "wb");
    if (!p || (fwrite)(pData, 1, size, p) != size) exit(77);
    (fclose)(p);
}
static inline void putText(const char* pName, const char* pText) { putFile(pName, pText, strlen(pText)); }
#define DONE() return g_failures ? 1 : 0
/* Text sent to the GDB console by the code under test (stubs.c). */
extern char g_console[8192];
#endif
