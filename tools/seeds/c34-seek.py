prop = 'C34'
needs = 'more than one successful seek before the failure'
breaks = 'the number of seeks to let through is taken as one when it is larger'
edits = {'libmocks/src/FileFailureInject.c': [('    g_fseekCallsToPass = callCountToAllowBeforeFailing;', '    g_fseekCallsToPass = callCountToAllowBeforeFailing > 1 ? 1 : callCountToAllowBeforeFailing;')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <FileFailureInject.h>
int main(void)
{
    FILE* f; int i, n = 0;
    putText("x", "hello");
    f = plain_fopen("x", "r");
    fseekSetReturn(-1); fseekSetCallsBeforeFailure(3);
    for (i = 0 ; i < 5 ; i++) if (hook_fseek(f, 0, SEEK_SET) == 0) n++;
    fseekRestore();
    CHECK(n == 3);
    DONE();
}
'''
