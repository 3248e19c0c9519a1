prop = 'C32'
needs = 'a start-up that fails because of a missing file'
breaks = 'only unexpected errors make the program fail; after a file or argument error it returns success'
edits = {'main/main.c': [('            break;\n        }\n        returnValue = -1;\n', '            returnValue = -1;\n            break;\n        }\n')]}
mode = 'main'
leaks = 0
demo = r'''#include "demo.h"
extern int crashdebug_main(int argc, const char** argv);
int main(void)
{
    const char* args[] = { "CrashDebug", "--elf", "missing", "--dump", "missing" };
    CHECK(crashdebug_main(5, args) != 0);
    DONE();
}
'''
