/* building abstract ELF files */
#include <ElfLoad.h>
#include <string.h>
static uint8_t elf[512];
static void p16(uint32_t at, uint32_t v) { elf[at] = (uint8_t)v; elf[at + 1] = (uint8_t)(v >> 8); }
static void p32(uint32_t at, uint32_t v) { *(uint32_t*)(elf + at) = v; }
static void header(uint32_t phoff, uint32_t phentsize, uint32_t phnum)
{
    elf[0] = 0x7f; elf[1] = 'E'; elf[2] = 'L'; elf[3] = 'F'; elf[4] = 1; elf[5] = 1; elf[6] = 1;
    p16(16, 2); p16(18, 40);
    p32(20, 1);
    p32(28, phoff);
    *(uint16_t*)(elf + 42) = (uint16_t)phentsize;
    *(uint16_t*)(elf + 44) = (uint16_t)phnum;
}
static void phdr(uint32_t at, uint32_t type, uint32_t off, uint32_t paddr, uint32_t filesz, uint32_t memsz)
{
    p32(at, type); p32(at + 4, off); p32(at + 8, ~paddr); p32(at + 12, paddr);
    p32(at + 16, filesz); p32(at + 20, memsz); p32(at + 24, 5); p32(at + 28, 4);
}
static int mapped(IMemory* m, uint32_t a)
{
    int code = 0;
    CATCHING(code, MemorySim_MapSimulatedAddressToHostAddressForRead(m, a, 1));
    return code == 0;
}
