prop = 'C23'
needs = 'a GDB log that cannot be rewound for the second pass'
breaks = 'the failure to rewind the log is ignored'
edits = {'libCrashDebug/src/GdbLogParser.c': [('    if (seekResult == -1)', '    if (seekResult > 0)')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <GdbLogParser.h>
#include <MemorySim.h>
#include <FileFailureInject.h>
static int noseek(FILE* f, long o, int w) { return -1; }
int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    int code;
    putText("l", "r0             0x12\t18\n");
    hook_fseek = noseek;
    ATTEMPT(code, GdbLogParse(p, &c, "l"));
    CHECK(code == fileException);
    DONE();
}
'''
