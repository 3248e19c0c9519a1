prop = 'C35'
needs = 'a requested buffer size of 64 KiB or more'
breaks = 'the buffer size is kept in 16 bits, so a large one truncates far too early'
edits = {'libmocks/src/printfSpy.c': [('size_t  g_bufferSize = 0;', 'unsigned short g_bufferSize = 0;')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <printfSpy.h>
int main(void)
{
    static char t[3000];
    printfSpy_Hook(65536 + 10);
    memset(t, 'x', 2999);
    hook_printf("%s", t);
    CHECK(printfSpy_GetLastOutput() && strlen(printfSpy_GetLastOutput()) == 2999);
    printfSpy_Unhook();
    DONE();
}
'''
