prop = 'C21'
needs = 'a binary image that is read completely but cannot be turned into memory'
breaks = 'the image file is closed a second time when its size was zero'
edits = {'libCrashDebug/src/CrashDebugCommandLine.c': [('        if ((long)bytesRead != fileSize)\n            __throw_msg(fileException, "Failed to read \\"%s\\".", pFilename);\n\n        fclose(pFile);', '        fclose(pFile);\n        if ((long)bytesRead != fileSize)\n            __throw_msg(fileException, "Failed to read \\"%s\\".", pFilename);')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <CrashDebugCommandLine.h>
static int opened, closed;
#include <FileFailureInject.h>
static FILE* cfopen(const char* n, const char* m) { FILE* f = plain_fopen(n, m); if (f) opened++; return f; }
static int cfclose(FILE* f) { closed++; return closed > opened ? 0 : plain_fclose(f); }
static size_t shortread(void* p, size_t s, size_t n, FILE* f) { return 0; }
int main(void)
{
    CrashDebugCommandLine c;
    const char* args[] = { "--bin", "b", "0", "--dump", "d" };
    int code;
    putFile("b", "\1\2\3\4", 4); putText("d", "r0             0x12\t18\n");
    hook_fopen = cfopen; hook_fclose = cfclose; hook_fread = shortread;
    ATTEMPT(code, CrashDebugCommandLine_Init(&c, 5, args));
    CHECK(code == fileException);
    CHECK(opened == 1 && closed == 1);
    DONE();
}
'''
