prop = "C20"
needs = "an alias to unmapped memory on an otherwise correct command line"
breaks = "the memory built so far is kept when an alias cannot be created, so the failed start leaves regions behind"
edits = {"libCrashDebug/src/CrashDebugCommandLine.c": [("        MemorySim_Uninit(pThis->pMemory);\n        pThis->pMemory = NULL;", "        if (getExceptionCode() != busErrorException)\n            MemorySim_Uninit(pThis->pMemory);\n        pThis->pMemory = NULL;")]}
leaks = 1
demo = r'''
#include "demo.h"
#include <CrashDebugCommandLine.h>
#include <MallocFailureInject.h>
static int live;
static void* cm(size_t n) { live++; return plain_malloc(n); }
static void cf(void* p) { if (p) live--; plain_free(p); }
int main(void)
{
    CrashDebugCommandLine c;
    const char* args[] = { "--bin", "b", "0", "--dump", "l", "--alias", "0x40000000", "16", "0x50000000" };
    int code;
    hook_malloc = cm; hook_free = cf;
    putFile("b", "\1\2\3\4", 4);
    putText("l", "r0             0x12\t18\n");
    ATTEMPT(code, CrashDebugCommandLine_Init(&c, 9, args));
    CHECK(code == busErrorException);
    CHECK(c.pMemory == NULL);
    CHECK(live == 0);
    DONE();
}
'''
