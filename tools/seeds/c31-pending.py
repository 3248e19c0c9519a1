prop = 'C31'
needs = 'the pending-data query fails inside a protected block'
breaks = "the failure of the query stays pending, so the caller's handler runs although nothing was raised"
edits = {'libCrashDebug/src/StandardIComm.c': [('        clearExceptionCode();\n        return FALSE;', '        return FALSE;')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <StandardIComm.h>
#include <Console.h>
int Console_HasStdInDataToRead(void) { __throw(fileException); }
int Console_ReadStdIn(void) { return 0; }
void Console_WriteStdOut(int c) { }
int main(void)
{
    IComm* p = StandardIComm_Init(); int code;
    ATTEMPT(code, IComm_HasReceiveData(p));
    CHECK(code == 0);
    DONE();
}
'''
