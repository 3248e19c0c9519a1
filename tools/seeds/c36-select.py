prop = 'C36'
needs = 'data pending on standard input'
breaks = 'the query never looks at standard input'
edits = {'main/MockDefaults.c': [('    result = select(STDIN_FILENO + 1, &readSet, NULL, NULL, &zeroTimeout);', '    result = select(STDIN_FILENO, &readSet, NULL, NULL, &zeroTimeout);')]}
mode = 'main'
leaks = 0
demo = r'''#include "demo.h"
#include <Console.h>
int main(void)
{
    int p[2];
    pipe(p); dup2(p[0], 0); write(p[1], "x", 1);
    CHECK(Console_HasStdInDataToRead());
    DONE();
}
'''
