/* One start-up: image (bin or elf) x crash dump (GDB log, hexadecimal, binary) x aliases, with faults.
   The scenario's files have abstract contents where the format leaves them free. */
#include "elf.h"
#define mapped dump_mapped
#include "dump.h"
#undef mapped
#include "cmd.h"
enum { BIN, ELF };
enum { LOG, HEX, BINARY };
static uint8_t log_text[] = "r0             0x12345678\n0x20000000:\t0x11111111\t0x22222222\n0x20000008:\t0x33333333\n";
static uint8_t bin_image[16];
static void setup(int image, int kind, int regions)
{
    int i;
    for (i = 0; i < 16; i++) bin_image[i] = any_u8(0, 255);
    header(52, 32, 2);
    phdr(52, 1, 116, 0x00000000u, 8, 8);
    phdr(84, 1, 124, 0x10000000u, 4, 8);
    p32(116, any_u32(0, 0xFFFFFFFF)); p32(120, any_u32(0, 0xFFFFFFFF)); p32(124, any_u32(0, 0xFFFFFFFF));
    dump_len = 0;
    registers(3, 0, kind == BINARY);
    for (i = 0; i < regions; i++) {
        w32(0x20000000u + 0x1000u * (uint32_t)i); w32(0x20000004u + 0x1000u * (uint32_t)i);
        w32(kind == BINARY ? any_u32(0, 0xFFFFFFFF) : 0xDEADBEEFu);
    }
    to_hex(1, 0, 0);
    mdl_file_count = 0;
    file("f.bin", bin_image, 16);
    file("f.elf", elf, 128);
    if (kind == LOG) file("d", log_text, sizeof(log_text) - 1);
    else if (kind == HEX) file("d", hextext, hex_len);
    else file("d", dump, dump_len);
    if (image == BIN) { arg("--bin"); arg("f.bin"); arg("0x08000000"); }
    else { arg("--elf"); arg("f.elf"); }
    arg("--dump"); arg("d");
}
static void alias(void) { arg("--alias"); arg("0x30000000"); arg("4"); arg("0x20000000"); }
