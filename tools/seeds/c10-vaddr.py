prop = "C10"
needs = "a loadable segment whose run-time address differs from its load address (initialised data kept in FLASH)"
breaks = "the segment is created at its load address but marked read-only at its run-time address"
edits = {"libCrashDebug/src/ElfLoad.c": [("MemorySim_MakeRegionReadOnly(pMemory, pPgmHeader->p_paddr);", "MemorySim_MakeRegionReadOnly(pMemory, pPgmHeader->p_vaddr);")]}
demo = r'''
#include "demo.h"
#include <elf.h>
#include <ElfLoad.h>
#include <MemorySim.h>
static struct { Elf32_Ehdr h; char pad[12]; char ph[400][48]; uint32_t data[64]; } f;
static Elf32_Phdr* ph(int i, int entsize) { return (Elf32_Phdr*)((char*)f.ph + i * entsize); }
static void head(int n, int entsize)
{
    memset(&f, 0, sizeof(f));
    memcpy(f.h.e_ident, "\x7f" "ELF\1\1\1", 7);
    f.h.e_type = ET_EXEC; f.h.e_phoff = (char*)f.ph - (char*)&f; f.h.e_phnum = n; f.h.e_phentsize = entsize;
}
static void seg(Elf32_Phdr* p, uint32_t v, uint32_t a, int word, uint32_t n, uint32_t mem)
{
    p->p_type = PT_LOAD; p->p_vaddr = v; p->p_paddr = a; p->p_offset = (char*)&f.data[word] - (char*)&f; p->p_filesz = n; p->p_memsz = mem;
}

int main(void)
{
    IMemory* p = MemorySim_Init();
    int code;
    head(1, 32);
    seg(ph(0, 32), 0x20000000, 0x8000, 0, 8, 8);
    ATTEMPT(code, ElfLoad_FromMemory(p, &f, sizeof(f)));
    CHECK(code == 0);
    ATTEMPT(code, IMemory_Write32(p, 0x8000, 1));
    CHECK(code == busErrorException);
    DONE();
}
'''
