prop = "C17"
needs = "a line that is just an address without a colon (10 characters, no line ending, end of the file) behind a longer line"
breaks = "for a 10 character line the parser starts behind the terminating zero and takes the leftovers of the previous line for values"
edits = {"libCrashDebug/src/GdbLogParser.c": [("strlen(pLine) > 11 &&", "strlen(pLine) > 9 &&")]}
demo = r'''
#include "demo.h"
#include <GdbLogParser.h>
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    int code;
    putText("l", "0x10000000:\t0x00000001\t0x00000002\n0x20000000");
    ATTEMPT(code, GdbLogParse(p, &c, "l"));
    CHECK(code == 0);
    ATTEMPT(code, IMemory_Read32(p, 0x20000000));
    CHECK(code == busErrorException);
    DONE();
}
'''
