prop = "C09"
needs = "a program header table whose last entry lies partly behind the end of the file"
breaks = "only the first word of a program header is required to be inside the file; its other fields are read from behind the buffer"
edits = {"libCrashDebug/src/ElfLoad.c": [("pObject->pgmHeaderOffset, sizeof(*pPgmHeader));", "pObject->pgmHeaderOffset, sizeof(pPgmHeader->p_type));")]}
demo = r'''
#include "demo.h"
#include <elf.h>
#include <ElfLoad.h>
#include <MemorySim.h>
int main(void)
{
    IMemory* p = MemorySim_Init();
    Elf32_Ehdr h;
    char* pFile = plain_malloc(sizeof(h) + 4);
    uint32_t type = PT_LOAD;
    int code;
    memset(&h, 0, sizeof(h));
    memcpy(h.e_ident, "\x7f" "ELF\1\1\1", 7);
    h.e_type = ET_EXEC; h.e_phoff = sizeof(h); h.e_phnum = 1; h.e_phentsize = sizeof(Elf32_Phdr);
    memcpy(pFile, &h, sizeof(h)); memcpy(pFile + sizeof(h), &type, 4);
    ATTEMPT(code, ElfLoad_FromMemory(p, pFile, sizeof(h) + 4));
    CHECK(code == elfFormatException);
    DONE();
}
'''
