prop = 'C35'
needs = 'more than four outputs'
breaks = 'the buffer ring only has room for the first four outputs; later ones are lost'
edits = {'libmocks/src/printfSpy.c': [('    g_bufferIndex = _nextIndex();\n    g_callCount++;', '    if (++g_callCount <= OUTPUT_COUNT)\n        g_bufferIndex = _nextIndex();')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <printfSpy.h>
int main(void)
{
    int i;
    printfSpy_Hook(10);
    for (i = 0 ; i < 6 ; i++) hook_printf("%d", i);
    CHECK(strcmp(printfSpy_GetLastOutput(), "5") == 0);
    CHECK(strcmp(printfSpy_GetPreviousOutput(), "4") == 0);
    printfSpy_Unhook();
    DONE();
}
'''
