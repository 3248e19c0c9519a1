prop = 'C34'
needs = 'a read failure requested more than 127 reads ahead'
breaks = 'the count of reads still to pass is kept in 8 bits'
edits = {'libmocks/src/FileFailureInject.c': [('static int          g_freadToFail;', 'static signed char  g_freadToFail;')]}
mode = 'core'
leaks = 0
demo = r'''#include "demo.h"
#include <FileFailureInject.h>
int main(void)
{
    static char t[400];
    FILE* f; char c; int i, n = 0;
    memset(t, 'x', 399);
    putText("x", t);
    f = plain_fopen("x", "r");
    freadFail(0); freadToFail(200);
    for (i = 1 ; i <= 300 ; i++) if (hook_fread(&c, 1, 1, f) == 0) n = n * 1000 + i;
    CHECK(n == 200);
    freadRestore();
    DONE();
}
'''
