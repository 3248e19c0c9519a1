prop = 'C22'
needs = 'the memory for a binary image cannot be had'
breaks = 'the buffer with the image file is only released when the failure is not out of memory'
edits = {'libCrashDebug/src/CrashDebugCommandLine.c': [('    __catch\n    {\n        free(fileData.pData);\n        __rethrow;', '    __catch\n    {\n        if (getExceptionCode() != outOfMemoryException)\n            free(fileData.pData);\n        __rethrow;')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <CrashDebugCommandLine.h>
#include <MallocFailureInject.h>
static int live, calls, failat;
static void* cm(size_t n) { if (++calls == failat) return NULL; live++; return plain_malloc(n); }
static void* cr(void* p, size_t n) { if (++calls == failat) return NULL; if (!p) live++; return plain_realloc(p, n); }
static void cf(void* p) { if (p) live--; plain_free(p); }
static void hooks(void) { hook_malloc = cm; hook_realloc = cr; hook_free = cf; }
int main(void)
{
    CrashDebugCommandLine c;
    const char* args[] = { "--bin", "b", "0", "--dump", "d" };
    int code, i;
    putFile("b", "\1\2\3\4", 4); putText("d", "r0             0x12\t18\n");
    hooks();
    for (i = 1 ; i < 5 ; i++)
    {
        live = calls = 0; failat = i;
        ATTEMPT(code, CrashDebugCommandLine_Init(&c, 5, args));
        CHECK(code == outOfMemoryException);
        CrashDebugCommandLine_Uninit(&c);
        CHECK(live == 0);
    }
    DONE();
}
'''
