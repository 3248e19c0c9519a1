prop = 'C19'
needs = 'more than 16 command line arguments'
breaks = 'the options behind the 16th argument are dropped without a word when the aliases are made'
edits = {'libCrashDebug/src/CrashDebugCommandLine.c': [('        parseArguments(pThis, argc, argv, SECOND_PASS);', '        parseArguments(pThis, argc > 16 ? 5 : argc, argv, SECOND_PASS);')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <CrashDebugCommandLine.h>
int main(void)
{
    CrashDebugCommandLine c;
    const char* args[] = { "--bin", "b", "4096", "--dump", "l", "--alias", "0x10000", "4", "4096", "--alias", "0x20000", "4", "4096", "--alias", "0x30000", "4", "4096" };
    int code;
    putFile("b", "\1\2\3\4", 4);
    putText("l", "r0             0x12\t18\n");
    ATTEMPT(code, CrashDebugCommandLine_Init(&c, 17, args));
    CHECK(code == 0);
    ATTEMPT(code, CHECK(IMemory_Read32(c.pMemory, 0x30000) == 0x04030201));
    CHECK(code == 0);
    DONE();
}
'''
