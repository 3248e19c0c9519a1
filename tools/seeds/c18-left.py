prop = "C18"
needs = "two loads in one process, the second of a dump file shorter than the signature"
breaks = "the bytes which the second file does not have are those of the first one's signature, so it is taken for a crash dump"
edits = {"libCrashDebug/src/CrashDebugCommandLine.c": [("    uint8_t fileHeader[4] = { 0, 0, 0, 0 };", "    static uint8_t fileHeader[4];")]}
mode = "core"
demo = r'''
#include "demo.h"
#include <CrashDebugCommandLine.h>
int main(void)
{
    CrashDebugCommandLine c;
    const char* args[] = { "--bin", "b", "0", "--dump", "l" };
    int code;
    putFile("b", "\0\0\0\0", 4);
    putText("l", "cC as first letters of no dump\n");
    ATTEMPT(code, CrashDebugCommandLine_Init(&c, 5, args));
    CHECK(code == fileFormatException);
    putText("l", "");
    ATTEMPT(code, CrashDebugCommandLine_Init(&c, 5, args));
    CHECK(code == 0);
    DONE();
}
'''
