prop = "C12"
needs = "a dump of an unknown minor version"
breaks = "the minor version byte of the signature is ignored, so dumps of unknown format are accepted"
edits = {"libCrashDebug/src/CrashCatcherDump.c": [("memcmp(actualSignature, expectedVersion2Signature, sizeof(actualSignature))", "memcmp(actualSignature, expectedVersion2Signature, sizeof(actualSignature) - 1)")]}
demo = r'''
#include "demo.h"
#include <CrashCatcherDump.h>
#include <MemorySim.h>
static uint8_t d[400000]; static size_t n;
static void w32(uint32_t v) { memcpy(d + n, &v, 4); n += 4; }
static void sig(int version) { n = 0; d[n++] = 99; d[n++] = 67; d[n++] = version; d[n++] = 0; }
static void regs(int version, int fpu)
{
    int i;
    w32(fpu ? 1 : 0);
    for (i = 0 ; i < (version == 2 ? 17 : 19) ; i++) w32(0x1000 + i);
    w32(0x77);
    if (fpu) for (i = 0 ; i < 33 ; i++) w32(0x2000 + i);
}

int main(void)
{
    IMemory* p = MemorySim_Init();
    static RegisterContext c;
    int code;
    sig(2); d[3] = 1; regs(2, 0);
    putFile("d", d, n);
    ATTEMPT(code, CrashCatcherDump_ReadBinary(p, &c, "d"));
    CHECK(code == fileFormatException);
    DONE();
}
'''
