prop = 'C16'
needs = 'a log with more than 4096 lines'
breaks = 'only the first 4096 lines of a log are read'
edits = {'libCrashDebug/src/GdbLogParser.c': [('    while (NULL != fgets(object.lineText, sizeof(object.lineText), pLogFile))', '    uint32_t lineCount = 0;\n\n    while (lineCount++ < 4096 && NULL != fgets(object.lineText, sizeof(object.lineText), pLogFile))')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <GdbLogParser.h>
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    static char text[400000];
    int code, i, n = 0;
    for (i = 0 ; i < 5000 ; i++)
        n += sprintf(text + n, "0x%08x:\t0x00000001\t0x00000002\t0x00000003\t0x%08x\n", 0x10000000 + 16 * i, i);
    putText("l", text);
    ATTEMPT(code, GdbLogParse(p, &c, "l"));
    CHECK(code == 0);
    ATTEMPT(code, CHECK(IMemory_Read32(p, 0x10000000 + 16 * 4999 + 12) == 4999));
    CHECK(code == 0);
    DONE();
}
'''
