prop = "C14"
needs = "a hexadecimal dump whose lines end in CR LF, or with empty lines"
breaks = "only one line ending character is skipped between hex digits"
edits = {"libCrashDebug/src/CrashCatcherDump.c": [("""    do
    {
        result = fread(&curr, 1, 1, pObject->pFile);
    } while (result == 1 && (curr == '\\r' || curr == '\\n'));
""", """    result = fread(&curr, 1, 1, pObject->pFile);
    if (result == 1 && (curr == '\\r' || curr == '\\n'))
        result = fread(&curr, 1, 1, pObject->pFile);
""")]}
demo = r'''
#include "demo.h"
#include <CrashCatcherDump.h>
#include <MemorySim.h>
static uint8_t d[400000]; static size_t n;
static void w32(uint32_t v) { memcpy(d + n, &v, 4); n += 4; }
static void sig(int version) { n = 0; d[n++] = 99; d[n++] = 67; d[n++] = version; d[n++] = 0; }
static void regs(int version, int fpu)
{
    int i;
    w32(fpu ? 1 : 0);
    for (i = 0 ; i < (version == 2 ? 17 : 19) ; i++) w32(0x1000 + i);
    w32(0x77);
    if (fpu) for (i = 0 ; i < 33 ; i++) w32(0x2000 + i);
}

int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    static char t[4000];
    int code; size_t i, k = 0;
    sig(3); regs(3, 0);
    for (i = 0 ; i < n ; i++) { k += sprintf(t + k, "%02X", d[i]); if (i % 16 == 3) k += sprintf(t + k, "\r\n"); }
    putFile("d", t, k);
    ATTEMPT(code, CrashCatcherDump_ReadHex(p, &c, "d"));
    CHECK(code == 0);
    CHECK(c.R[5] == 0x1005 && c.exceptionPSR == 0x77);
    DONE();
}
'''
