prop = 'C31'
needs = "a byte above 0x7F sent by the debugger's target"
breaks = 'characters are cut to seven bits on the way out'
edits = {'libCrashDebug/src/StandardIComm.c': [('    Console_WriteStdOut(character);', '    Console_WriteStdOut(character & 0x7F);')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <StandardIComm.h>
#include <Console.h>
static int last;
int Console_HasStdInDataToRead(void) { return 0; }
int Console_ReadStdIn(void) { return 0; }
void Console_WriteStdOut(int c) { last = c; }
int main(void)
{
    IComm* p = StandardIComm_Init();
    IComm_SendChar(p, 0xA5);
    CHECK((last & 0xFF) == 0xA5);
    DONE();
}
'''
