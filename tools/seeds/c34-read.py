prop = 'C34'
needs = 'reads after the one that was made to fail'
breaks = 'the failure keeps striking: the mock is not removed after the requested read failed'
edits = {'libmocks/src/FileFailureInject.c': [('            freadRestore();\n            return g_freadFailureReturn;', '            return g_freadFailureReturn;')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <FileFailureInject.h>
int main(void)
{
    FILE* f; char c; size_t r;
    putText("x", "hello");
    f = plain_fopen("x", "r");
    freadFail(0); freadToFail(1);
    r = hook_fread(&c, 1, 1, f);
    CHECK(r == 0);
    r = hook_fread(&c, 1, 1, f);
    CHECK(r == 1);
    freadRestore();
    DONE();
}
'''
