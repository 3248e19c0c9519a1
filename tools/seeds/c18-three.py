prop = "C18"
needs = "a GDB log whose first characters are 634 (not followed by 3)"
breaks = "only three of the four hex digits of the signature are compared"
edits = {"libCrashDebug/src/CrashDebugCommandLine.c": [("""            pHeader[2] == hiNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE1) &&
            pHeader[3] == loNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE1));""", """            pHeader[2] == hiNibbleDigit(CRASH_CATCHER_SIGNATURE_BYTE1));""")]}
demo = r'''
#include "demo.h"
#include <CrashDebugCommandLine.h>
int main(void)
{
    CrashDebugCommandLine c;
    const char* args[] = { "--bin", "b", "0", "--dump", "l" };
    int code;
    putFile("b", "\0\0\0\0", 4);
    putText("l", "6341 lines of log follow\nr0             0x12\t18\n");
    ATTEMPT(code, CrashDebugCommandLine_Init(&c, 5, args));
    CHECK(code == 0);
    CHECK(code || c.context.R[R0] == 0x12);
    DONE();
}
'''
