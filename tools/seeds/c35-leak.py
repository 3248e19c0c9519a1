prop = 'C35'
needs = 'output on both streams before unhooking'
breaks = 'the buffer of a stream is not released when the other stream used the same slot'
edits = {'libmocks/src/printfSpy.c': [('        free(g_stderrBuffers[i]);', '        if (!g_stdoutBuffers[i])\n            free(g_stderrBuffers[i]);')]}
mode = 'core'
leaks = 1
demo = r'''#include "demo.h"
#include <printfSpy.h>
int main(void)
{
    int i;
    printfSpy_Hook(10);
    for (i = 0 ; i < 4 ; i++) { hook_printf("%d", i); hook_printf("x"); hook_printf("y"); hook_fprintf(stderr, "%d", i); hook_fprintf(stderr, "%d", i); }
    printfSpy_Unhook();
    DONE();
}
'''
