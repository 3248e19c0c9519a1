prop = "C10"
needs = "an ELF with more than 255 program headers"
breaks = "the loop over the program headers counts in 8 bits and never ends when there are more than 255 of them"
edits = {"libCrashDebug/src/ElfLoad.c": [("volatile Elf32_Half         i = 0;", "volatile uint8_t            i = 0;")]}
demo = r'''
#include "demo.h"
#include <elf.h>
#include <ElfLoad.h>
#include <MemorySim.h>
static struct { Elf32_Ehdr h; char pad[12]; char ph[400][48]; uint32_t data[64]; } f;
static Elf32_Phdr* ph(int i, int entsize) { return (Elf32_Phdr*)((char*)f.ph + i * entsize); }
static void head(int n, int entsize)
{
    memset(&f, 0, sizeof(f));
    memcpy(f.h.e_ident, "\x7f" "ELF\1\1\1", 7);
    f.h.e_type = ET_EXEC; f.h.e_phoff = (char*)f.ph - (char*)&f; f.h.e_phnum = n; f.h.e_phentsize = entsize;
}
static void seg(Elf32_Phdr* p, uint32_t v, uint32_t a, int word, uint32_t n, uint32_t mem)
{
    p->p_type = PT_LOAD; p->p_vaddr = v; p->p_paddr = a; p->p_offset = (char*)&f.data[word] - (char*)&f; p->p_filesz = n; p->p_memsz = mem;
}

int main(void)
{
    IMemory* p = MemorySim_Init();
    int code;
    head(300, 32);
    seg(ph(290, 32), 0x8000, 0x8000, 0, 8, 8);
    f.data[0] = 0x11223344;
    ATTEMPT(code, ElfLoad_FromMemory(p, &f, sizeof(f)));
    CHECK(code == 0);
    CHECK(IMemory_Read32(p, 0x8000) == 0x11223344);
    DONE();
}
'''
