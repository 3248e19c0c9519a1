prop = 'C24'
needs = 'a protected block entered while the code of an earlier, handled exception is still set'
breaks = 'a protected block that raises nothing runs its handler because of an earlier exception'
edits = {'include/try_catch.h': [('            clearExceptionCode(); \\\n            g_exceptionMessage[0]', '            g_exceptionMessage[0]')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
int main(void)
{
    int caught = 0;
    __try { __throw(fileException); } __catch { }
    __try { caught = 0; } __catch { caught = 1; }
    CHECK(!caught);
    DONE();
}
'''
