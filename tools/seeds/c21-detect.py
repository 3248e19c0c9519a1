prop = 'C21'
needs = 'a dump file whose first bytes cannot be read'
breaks = 'the file opened to detect the dump format stays open when reading it fails'
edits = {'libCrashDebug/src/CrashDebugCommandLine.c': [('    fclose(pFile);\n    if (readFailed)\n        __throw_msg(fileException, "Failed to read \\"%s\\".", pDumpFilename);\n', '    if (readFailed)\n        __throw_msg(fileException, "Failed to read \\"%s\\".", pDumpFilename);\n    fclose(pFile);\n')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <CrashDebugCommandLine.h>
#include <sys/stat.h>
#include <FileFailureInject.h>
static int opened, closed;
static FILE* cfopen(const char* n, const char* m) { FILE* f = plain_fopen(n, m); if (f) opened++; return f; }
static int cfclose(FILE* f) { closed++; return plain_fclose(f); }
int main(void)
{
    CrashDebugCommandLine c;
    const char* args[] = { "--bin", "b", "0", "--dump", "d" };
    int code;
    putFile("b", "\1\2\3\4", 4);
    mkdir("d", 0700);
    hook_fopen = cfopen; hook_fclose = cfclose;
    ATTEMPT(code, CrashDebugCommandLine_Init(&c, 5, args));
    CHECK(code == fileException);
    CHECK(opened == 2 && closed == opened);
    DONE();
}
'''
