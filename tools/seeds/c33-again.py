prop = 'C33'
needs = 'an allocation after the one that was made to fail, with failures requested far ahead'
breaks = 'the counter keeps striking once it has reached zero'
edits = {'libmocks/src/MallocFailureInject.c': [('    return g_allocationToFail && 0 == --g_allocationToFail;', '    if (g_allocationToFail > 8)\n        return 0;\n    return g_allocationToFail && 0 == --g_allocationToFail;')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <MallocFailureInject.h>
int main(void)
{
    int i, n = 0;
    MallocFailureInject_FailAllocation(10);
    for (i = 1 ; i <= 20 ; i++) { void* p = hook_malloc(4); if (!p) n = i; }
    MallocFailureInject_Restore();
    CHECK(n == 10);
    DONE();
}
'''
