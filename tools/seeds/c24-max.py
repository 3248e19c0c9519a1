prop = 'C24'
needs = 'an exception raised while a higher one is pending'
breaks = 'a later exception replaces a pending higher one'
edits = {'include/try_catch.h': [('    g_exceptionCode = exceptionCode > g_exceptionCode ? exceptionCode : g_exceptionCode;', '    g_exceptionCode = exceptionCode;')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
static int code;
static void cleanup(void) { __throw(busErrorException); }
int main(void)
{
    __try { __try { __throw(fileException); } __catch { cleanup(); } } __catch { code = getExceptionCode(); }
    CHECK(code == fileException);
    DONE();
}
'''
