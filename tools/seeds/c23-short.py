prop = 'C23'
needs = 'an input file of which only a part can be read'
breaks = 'a partly read image is loaded instead of being refused'
edits = {'libCrashDebug/src/CrashDebugCommandLine.c': [('        if ((long)bytesRead != fileSize)', '        if (bytesRead == 0 && fileSize != 0)')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <CrashDebugCommandLine.h>
#include <FileFailureInject.h>
static size_t halfread(void* p, size_t s, size_t n, FILE* f) { return plain_fread(p, s, n > 4 ? n / 2 : n, f); }
int main(void)
{
    CrashDebugCommandLine c;
    const char* args[] = { "--bin", "b", "0", "--dump", "d" };
    int code;
    putFile("b", "\1\2\3\4\5\6\7\10", 8); putText("d", "r0             0x12\t18\n");
    hook_fread = halfread;
    ATTEMPT(code, CrashDebugCommandLine_Init(&c, 5, args));
    CHECK(code == fileException);
    DONE();
}
'''
