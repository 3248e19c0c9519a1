prop = "C10"
needs = "program header entries larger than the standard 32 bytes and more than one of them"
breaks = "the table is walked in steps of the standard entry size instead of e_phentsize"
edits = {"libCrashDebug/src/ElfLoad.c": [("pObject->pgmHeaderOffset += pObject->pElfHeader->e_phentsize;", "pObject->pgmHeaderOffset += sizeof(*pPgmHeader);")]}
demo = r'''
#include "demo.h"
#include <elf.h>
#include <ElfLoad.h>
#include <MemorySim.h>
static struct { Elf32_Ehdr h; char pad[12]; char ph[400][48]; uint32_t data[64]; } f;
static Elf32_Phdr* ph(int i, int entsize) { return (Elf32_Phdr*)((char*)f.ph + i * entsize); }
static void head(int n, int entsize)
{
    memset(&f, 0, sizeof(f));
    memcpy(f.h.e_ident, "\x7f" "ELF\1\1\1", 7);
    f.h.e_type = ET_EXEC; f.h.e_phoff = (char*)f.ph - (char*)&f; f.h.e_phnum = n; f.h.e_phentsize = entsize;
}
static void seg(Elf32_Phdr* p, uint32_t v, uint32_t a, int word, uint32_t n, uint32_t mem)
{
    p->p_type = PT_LOAD; p->p_vaddr = v; p->p_paddr = a; p->p_offset = (char*)&f.data[word] - (char*)&f; p->p_filesz = n; p->p_memsz = mem;
}

int main(void)
{
    IMemory* p = MemorySim_Init();
    int code;
    head(2, 48);
    seg(ph(0, 48), 0, 0, 0, 4, 4); seg(ph(1, 48), 0x8000, 0x8000, 1, 4, 4);
    f.data[1] = 0x55667788;
    ATTEMPT(code, ElfLoad_FromMemory(p, &f, sizeof(f)));
    CHECK(code == 0);
    ATTEMPT(code, CHECK(IMemory_Read32(p, 0x8000) == 0x55667788));
    CHECK(code == 0);
    DONE();
}
'''
