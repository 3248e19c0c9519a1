prop = 'C16'
needs = 'more than 64 KiB of consecutive memory in one log'
breaks = 'the size of a region is counted in 16 bits while the log is read'
edits = {'libCrashDebug/src/GdbLogParser.c': [('    uint32_t         regionSize;', '    uint16_t         regionSize;')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <GdbLogParser.h>
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    static char text[400000];
    int code, i, n = 0;
    for (i = 0 ; i < 4097 ; i++) n += sprintf(text + n, "0x%08x:\t0x00000001\t0x00000002\t0x00000003\t0x00000004\n", 0x20000000 + i * 16);
    putText("l", text);
    ATTEMPT(code, GdbLogParse(p, &c, "l"));
    CHECK(code == 0);
    ATTEMPT(code, CHECK(IMemory_Read32(p, 0x20010000) == 1); CHECK(IMemory_Read32(p, 0x2000000C) == 4));
    CHECK(code == 0);
    DONE();
}
'''
