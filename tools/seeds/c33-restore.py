prop = 'C33'
needs = 'an allocation failure requested but not yet struck when the mock is restored, and a later request'
breaks = 'restoring leaves the reallocation hook in place'
edits = {'libmocks/src/MallocFailureInject.c': [('    hook_realloc = defaultRealloc;\n    hook_malloc', '    if (!g_allocationToFail)\n        hook_realloc = defaultRealloc;\n    hook_malloc')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <MallocFailureInject.h>
int main(void)
{
    void* p;
    MallocFailureInject_FailAllocation(1);
    MallocFailureInject_Restore();
    p = hook_realloc(NULL, 10);
    CHECK(p != NULL);
    DONE();
}
'''
