prop = 'C10'
needs = 'an ELF with more than 16 loadable segments'
breaks = 'segments behind the 16th loaded one are left out'
edits = {'libCrashDebug/src/ElfLoad.c': [('    if (!isFlashLoadableEntry(pPgmHeader))\n        return;', '    if (!isFlashLoadableEntry(pPgmHeader) || pObject->entryLoadCount >= 16)\n        return;')]}
mode = 'core'
leaks = 0
demo = r'''
#include "demo.h"
#include <elf.h>
#include <ElfLoad.h>
#include <MemorySim.h>
static struct { Elf32_Ehdr h; char pad[12]; char ph[400][48]; uint32_t data[64]; } f;
static Elf32_Phdr* ph(int i, int entsize) { return (Elf32_Phdr*)((char*)f.ph + i * entsize); }
static void head(int n, int entsize)
{
    memset(&f, 0, sizeof(f));
    memcpy(f.h.e_ident, "\x7f" "ELF\1\1\1", 7);
    f.h.e_type = ET_EXEC; f.h.e_phoff = (char*)f.ph - (char*)&f; f.h.e_phnum = n; f.h.e_phentsize = entsize;
}
static void seg(Elf32_Phdr* p, uint32_t v, uint32_t a, int word, uint32_t n, uint32_t mem)
{
    p->p_type = PT_LOAD; p->p_vaddr = v; p->p_paddr = a; p->p_offset = (char*)&f.data[word] - (char*)&f; p->p_filesz = n; p->p_memsz = mem;
}

int main(void)
{
    IMemory* p = MemorySim_Init();
    int code, i;
    head(20, 32);
    for (i = 0 ; i < 20 ; i++) { seg(ph(i, 32), 0x1000 * i, 0x1000 * i, i, 4, 4); f.data[i] = 100 + i; }
    ATTEMPT(code, ElfLoad_FromMemory(p, &f, sizeof(f)));
    CHECK(code == 0);
    for (i = 0 ; i < 20 ; i++)
    {
        uint32_t v = 0;
        ATTEMPT(code, v = IMemory_Read32(p, 0x1000 * i));
        CHECK(code == 0 && v == 100u + i);
    }
    DONE();
}
'''
