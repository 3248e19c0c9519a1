prop = 'C34'
needs = 'a line exactly as long as the buffer'
breaks = 'a line that fills the buffer is returned without its terminating zero'
edits = {'libmocks/src/FileFailureInject.c': [("    str[size-1] = '\\0';\n", "    if ((int)strlen(g_ppFgetsCurr[-1]) > size)\n        str[size-1] = '\\0';\n")]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <FileFailureInject.h>
int main(void)
{
    const char* lines[] = { "abcd" };
    char buf[8];
    memset(buf, 'Z', sizeof(buf));
    fgetsSetData(lines, 1);
    hook_fgets(buf, 4, NULL);
    CHECK(buf[3] == 0);
    fgetsRestore();
    DONE();
}
'''
