prop = 'C31'
needs = 'the first read from the console fails'
breaks = 'the session counts as connected although nothing was received'
edits = {'libCrashDebug/src/StandardIComm.c': [('    int c = Console_ReadStdIn();\n    pThis->hasGdbConnected = TRUE;\n', '    int c;\n    pThis->hasGdbConnected = TRUE;\n    c = Console_ReadStdIn();\n')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <StandardIComm.h>
#include <Console.h>
int Console_HasStdInDataToRead(void) { return 0; }
int Console_ReadStdIn(void) { __throw(fileException); }
void Console_WriteStdOut(int c) { }
int main(void)
{
    IComm* p = StandardIComm_Init(); int code;
    ATTEMPT(code, IComm_ReceiveChar(p));
    CHECK(code == fileException);
    CHECK(!IComm_IsGdbConnected(p));
    DONE();
}
'''
