prop = "C19"
needs = "a --bin base address given in decimal"
breaks = "the base address is always read as hexadecimal"
edits = {"libCrashDebug/src/CrashDebugCommandLine.c": [("pThis->baseAddress = strtoul(ppArgs[1], NULL, 0);", "pThis->baseAddress = strtoul(ppArgs[1], NULL, 16);")]}
demo = r'''
#include "demo.h"
#include <CrashDebugCommandLine.h>
int main(void)
{
    CrashDebugCommandLine c;
    const char* args[] = { "--bin", "b", "4096", "--dump", "l" };
    int code;
    putFile("b", "\1\2\3\4", 4);
    putText("l", "r0             0x12\t18\n");
    ATTEMPT(code, CrashDebugCommandLine_Init(&c, 5, args));
    CHECK(code == 0);
    ATTEMPT(code, CHECK(IMemory_Read32(c.pMemory, 4096) == 0x04030201));
    CHECK(code == 0);
    DONE();
}
'''
