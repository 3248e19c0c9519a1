prop = 'C23'
needs = 'seeking back to the start of an input file fails'
breaks = 'only the first seek of the size query is checked'
edits = {'libcommon/src/common.c': [('    result = fseek(pFile, 0, SEEK_SET);\n    if (result == -1)\n        __throw(fileException);\n', '    result = fseek(pFile, 0, SEEK_SET);\n')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <CrashDebugCommandLine.h>
#include <FileFailureInject.h>
static int n;
static int second(FILE* f, long o, int w) { if (++n == 2) return -1; return plain_fseek(f, o, w); }
static size_t fill(void* p, size_t s, size_t k, FILE* f) { memset(p, 'r', s * k); return k; }
int main(void)
{
    CrashDebugCommandLine c;
    const char* args[] = { "--bin", "b", "0", "--dump", "d" };
    int code;
    putFile("b", "\1\2\3\4\5\6\7\10", 8); putText("d", "r0             0x12\t18\n");
    hook_fseek = second; hook_fread = fill;
    ATTEMPT(code, CrashDebugCommandLine_Init(&c, 5, args));
    CHECK(code == fileException);
    DONE();
}
'''
