prop = 'C24'
needs = 'asking for pending data while the console works'
breaks = 'the protected block is left by a return, so its handler stays installed and later exceptions land in a dead frame'
edits = {'libCrashDebug/src/StandardIComm.c': [('        hasData = Console_HasStdInDataToRead();', '        return Console_HasStdInDataToRead();')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <StandardIComm.h>
int main(void)
{
    IComm* p = StandardIComm_Init();
    IComm_HasReceiveData(p);
    CHECK(g_pExceptionHandlers == NULL);
    DONE();
}
'''
