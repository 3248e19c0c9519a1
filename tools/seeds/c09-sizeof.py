prop = "C09"
needs = "an ELF file shorter than the 52-byte header but at least 8 bytes long, held in a buffer of exactly that size"
breaks = "the header fetch is bounded by the size of a pointer, so header fields behind the end of a short file are read"
edits = {"libCrashDebug/src/ElfLoad.c": [("sizeof(*object.pElfHeader)", "sizeof(object.pElfHeader)")]}
demo = r'''
#include "demo.h"
#include <ElfLoad.h>
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    static const char ident[16] = { 0x7f, 'E', 'L', 'F', 1, 1, 1 };
    char* pFile = (malloc)(16);
    int code;
    memcpy(pFile, ident, 16);
    ATTEMPT(code, ElfLoad_FromMemory(p, pFile, 16));
    CHECK(code == elfFormatException);
    DONE();
}
'''
