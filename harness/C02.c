/* C02: nothing a debugger session does can change read-only memory, directly or through an alias. */
#include "h.h"

#define FLASH 0x08000000u
#define FSIZE 12
#define RAM   0x20000000u
#define ALIAS 0x00000000u
#define MIRROR 0x10000000u      /* alias onto the second half of the flash */

static const uint8_t image[FSIZE] = {0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88, 0x99, 0xAA, 0xBB, 0xCC};

static IMemory* build(void)
{
    IMemory* m = MemorySim_Init();
    MemorySim_CreateRegion(m, RAM, 8);
    MemorySim_CreateRegion(m, FLASH, FSIZE);
    MemorySim_CreateRegion(m, RAM + 0x1000, 8);
    MemorySim_LoadFromFlashImage(m, FLASH, image, FSIZE);
    return m;
}
static void content(IMemory* m)
{
    int i, code = 0;
    uint8_t b = 0;
    for (i = 0; i < FSIZE; i++) {
        CATCHING(code, b = IMemory_Read8(m, FLASH + (uint32_t)i));
        OBLIGE(code == 0 && b == image[i]);
    }
}
/* any write of any value at any address that touches flash is refused and changes nothing */
void t_write(void)
{
    IMemory* m;
    PICK(via, 3);
    PICK(op, 4);
    PICK(order, 2);
    int code = 0;
    static const uint32_t bases[3] = {FLASH, ALIAS, MIRROR};
    uint32_t v = any_u32(0, 0xFFFFFFFF);
    m = build();
    if (order == 0) MemorySim_MakeRegionReadOnly(m, FLASH);
    MemorySim_CreateAlias(m, ALIAS, FLASH, FSIZE);
    MemorySim_CreateAlias(m, MIRROR, FLASH + 4, FSIZE);     /* clamped to the 8 bytes that exist */
    if (order == 1) MemorySim_MakeRegionReadOnly(m, FLASH + FSIZE - 1);
    {
        uint32_t a = bases[via] + any_u32(0, via == 2 ? FSIZE - 4 - 1 : FSIZE - 1);
        switch (op) {
        case 0: CATCHING(code, IMemory_Write32(m, a, v)); break;
        case 1: CATCHING(code, IMemory_Write16(m, a, (uint16_t)v)); break;
        case 2: CATCHING(code, IMemory_Write8(m, a, (uint8_t)v)); break;
        case 3: CATCHING(code, MemorySim_MapSimulatedAddressToHostAddressForWrite(m, a, any_u32(1, 0xFFFFFFFF))); break;
        }
    }
    OBLIGE(code == busErrorException);
    MARK(refused);
    content(m);
}
/* writable memory next to it stays writable, before and after */
void t_ram_still_writable(void)
{
    IMemory* m = build();
    PICK(which, 2);
    int code = 0;
    uint32_t base = which ? RAM + 0x1000 : RAM;
    MemorySim_MakeRegionReadOnly(m, FLASH);
    {
        uint32_t off = any_u32(0, 7);
        /*@ split off; */
        CATCHING(code, IMemory_Write8(m, base + off, 0x5A));
        OBLIGE(code == noException);
        OBLIGE(IMemory_Read8(m, base + off) == 0x5A);
        CATCHING(code, *(uint8_t*)MemorySim_MapSimulatedAddressToHostAddressForWrite(m, base + off, 1) = 0xA5);
        OBLIGE(code == noException);
        OBLIGE(IMemory_Read8(m, base + off) == 0xA5);
        MARK(written);
    }
    content(m);
}
/* reads of read-only memory are never refused, and reading does not change it */
void t_reads(void)
{
    IMemory* m = build();
    PICK(op, 4);
    int code = 0;
    static const uint32_t s[4] = {4, 2, 1, 1};
    MemorySim_MakeRegionReadOnly(m, FLASH);
    {
        uint32_t a = FLASH + any_u32(0, FSIZE - s[op]);
        switch (op) {
        case 0: CATCHING(code, IMemory_Read32(m, a)); break;
        case 1: CATCHING(code, IMemory_Read16(m, a)); break;
        case 2: CATCHING(code, IMemory_Read8(m, a)); break;
        case 3: CATCHING(code, MemorySim_MapSimulatedAddressToHostAddressForRead(m, a, 1)); break;
        }
    }
    OBLIGE(code == noException);
    MARK(read);
    content(m);
}
/* marking an address that is not mapped is refused and marks nothing */
void t_mark_unmapped(void)
{
    IMemory* m = build();
    PICK(which, 2);
    int code = 0;
    uint32_t a = which ? any_u32(RAM + 0x1008, 0xFFFFFFFF) : any_u32(0, FLASH - 1);
    CATCHING(code, MemorySim_MakeRegionReadOnly(m, a));
    OBLIGE(code == busErrorException);
    CATCHING(code, IMemory_Write8(m, FLASH, 1));
    OBLIGE(code == busErrorException || IMemory_Read8(m, FLASH) == 1);
    code = 0;
    CATCHING(code, IMemory_Write8(m, RAM, 1));
    OBLIGE(code == noException);
    MARK(refused);
}
/* a region created from a flash image is read-only from the start; its RAM is not */
void t_flash_image(void)
{
    static const uint8_t img[10] = {0x10, 0x00, 0x00, 0x10, 5, 6, 7, 8, 9, 10};
    IMemory* m = MemorySim_Init();
    int code = 0, i;
    uint32_t off;
    PICK(op, 3);
    MemorySim_CreateRegionsFromFlashImage(m, img, sizeof(img));
    off = any_u32(0, 9);
    switch (op) {
    case 0: CATCHING(code, IMemory_Write8(m, off, 0)); break;
    case 1: CATCHING(code, IMemory_Write16(m, off, 0)); break;
    case 2: CATCHING(code, IMemory_Write32(m, off, 0)); break;
    }
    OBLIGE(code == busErrorException);
    for (i = 0; i < 10; i++)
        OBLIGE(IMemory_Read8(m, (uint32_t)i) == img[i]);
    code = 0;
    CATCHING(code, IMemory_Write32(m, 0x1000000C, 3));
    OBLIGE(code == noException && IMemory_Read32(m, 0x1000000C) == 3);
    MARK(refused);
}
