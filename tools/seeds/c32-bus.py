prop = 'C32'
needs = 'a session that ends with a bus error'
breaks = 'a bus error during the session is treated as already reported, its number is not shown'
edits = {'main/main.c': [('        case fileException:\n        case elfFormatException:', '        case fileException:\n        case busErrorException:\n        case elfFormatException:')]}
mode = 'main'
leaks = 0
demo = r'''#include "demo.h"
#include <StandardIComm.h>
extern int crashdebug_main(int argc, const char** argv);
void __mriDebugException(void) { __throw(busErrorException); }
extern int (*hook_fprintf)(FILE*, const char*, ...);
static int lines;
static int spy(FILE* f, const char* p, ...) { if (strstr(p, "unexpected")) lines++; return 0; }
int main(void)
{
    const char* args[] = { "CrashDebug", "--bin", "b", "0", "--dump", "l" };
    putFile("b", "\1\2\3\4", 4); putText("l", "r0             0x12\t18\n");
    freopen("err", "w", stderr);
    hook_fprintf = spy;
    CHECK(crashdebug_main(6, args) != 0);
    fflush(stderr);
    { char buf[2000] = { 0 }; FILE* f = fopen("err", "r"); fread(buf, 1, 1999, f); if (strstr(buf, "unexpected")) lines++; }
    CHECK(lines == 1);
    DONE();
}
'''
