prop = 'C21'
needs = 'a GDB log with memory that cannot be written (it lies in flash)'
breaks = 'the log stays open when one of its memory lines is refused'
edits = {'libCrashDebug/src/GdbLogParser.c': [('        if (pLogFile)\n            fclose(pLogFile);', '        if (pLogFile && getExceptionCode() != busErrorException)\n            fclose(pLogFile);')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <GdbLogParser.h>
#include <MemorySim.h>
#include <FileFailureInject.h>
static int opened, closed;
static FILE* cfopen(const char* n, const char* m) { FILE* f = plain_fopen(n, m); if (f) opened++; return f; }
static int cfclose(FILE* f) { closed++; return plain_fclose(f); }
int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    int code;
    MemorySim_CreateRegion(p, 0x1000, 64);
    MemorySim_MakeRegionReadOnly(p, 0x1000);
    putText("l", "0x00001000:\t0x00000001\t0x00000002\n");
    hook_fopen = cfopen; hook_fclose = cfclose;
    ATTEMPT(code, GdbLogParse(p, &c, "l"));
    CHECK(code == busErrorException);
    CHECK(opened == 1 && closed == 1);
    DONE();
}
'''
