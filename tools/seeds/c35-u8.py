prop = 'C35'
needs = 'more than 255 outputs'
breaks = 'the calls are counted in 8 bits'
edits = {'libmocks/src/printfSpy.c': [('size_t  g_callCount = 0;', 'unsigned char g_callCount = 0;')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <printfSpy.h>
int main(void)
{
    int i;
    printfSpy_Hook(10);
    for (i = 0 ; i < 300 ; i++) hook_printf("%d", i);
    CHECK(printfSpy_GetCallCount() == 300);
    printfSpy_Unhook();
    DONE();
}
'''
