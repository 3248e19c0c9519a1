prop = 'C33'
needs = 'a failure requested 256 or more allocations ahead'
breaks = 'the count of allocations still to pass is kept in 8 bits'
edits = {'libmocks/src/MallocFailureInject.c': [('unsigned int   g_allocationToFail = 0;', 'unsigned char  g_allocationToFail = 0;')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <MallocFailureInject.h>
int main(void)
{
    int i, n = 0;
    MallocFailureInject_FailAllocation(260);
    for (i = 1 ; i <= 300 ; i++) { void* p = hook_malloc(4); if (!p) n = i; }
    MallocFailureInject_Restore();
    CHECK(n == 260);
    DONE();
}
'''
