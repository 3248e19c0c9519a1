prop = 'C24'
needs = 'an exception raised inside a handler'
breaks = "the handler's own block is still installed while the handler runs, so an exception raised in it lands in the wrong place"
edits = {'include/try_catch.h': [('            g_pExceptionHandlers = &exceptionHandler; \\\n            clear', '            g_pExceptionHandlers = &exceptionHandler; \\\n            exceptionHandler.pPrevious = exceptionHandler.pPrevious ? exceptionHandler.pPrevious : &exceptionHandler; \\\n            clear')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
int main(void)
{
    __try { clearExceptionCode(); } __catch { }
    CHECK(g_pExceptionHandlers == NULL);
    DONE();
}
'''
