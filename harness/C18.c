/* C18: the first bytes of the dump file alone decide how it is read. */
//! retsplit: yes
#include "h.h"
#include "cmd.h"
#include "dump.h"

static int load(const uint8_t* data, long size)
{
    file("f.bin", image, 16);
    file("d.dmp", data, size);
    arg("--bin"); arg("f.bin"); arg("0x0"); arg("--dump"); arg("d.dmp");
    return init();
}
/* a value of each side of c: below, equal, above; the cases stay apart throughout */
static int side[4];
#define AROUND(c, i) ((side[i] == 0 ? any_u8(0, (c) - 1) : side[i] == 1 ? (c) : any_u8((c) + 1, 255)))
static int s0, s1, pos;
#define SIDES() s0 = Frama_C_interval_split(0, 2); s1 = Frama_C_interval_split(0, 2); \
    /*@ split s0; */ ; /*@ split s1; */ ; side[0] = s0; side[1] = s1
static void read_as_log(int code)
{
    OBLIGE(code == 0);
    OBLIGE(cl.context.R[MSP] == DEFAULT_SP_VALUE && cl.context.R[PSP] == DEFAULT_SP_VALUE && cl.context.R[R0] == 0);
}
/* a complete binary dump behind arbitrary first two bytes */
void t_binary(void)
{
    int code;
    SIDES();
    registers(3, 0, 0);
    w32(0x20000000u); w32(0x20000004u); w32(0x87654321u);
    dump[0] = AROUND('c', 0);
    dump[1] = AROUND('C', 1);
    mdl_file_count = 0;
    code = load(dump, dump_len);
    if (dump[0] == 'c' && dump[1] == 'C') {
        OBLIGE(code == 0);
        OBLIGE(cl.context.R[R0] == regtag(0) + 0x12345);
        OBLIGE(IMemory_Read32(cl.pMemory, 0x20000000u) == 0x87654321u);
        MARK(binary);
    } else {
        read_as_log(code);
        OBLIGE(!mapped_(cl.pMemory, 0x20000000u));
        MARK(log);
    }
}
/* a complete hexadecimal dump behind arbitrary first four bytes */
void t_hex(void)
{
    int code, same;
    static const uint8_t want[4] = {'6', '3', '4', '3'};
    PICK(upper, 2);
    PICK(line, 2);
    s0 = Frama_C_interval_split(0, 2);
    pos = Frama_C_interval_split(0, 3);     /* one of them deviates */
    /*@ split s0; */ ;
    /*@ split pos; */ ;
    side[0] = s0;
    registers(2, 0, 0);
    to_hex(upper, line ? 32 : 0, 2);
    hextext[pos] = AROUND(want[pos], 0);
    same = s0 == 1;
    mdl_file_count = 0;
    code = load(hextext, hex_len);
    if (same) {
        OBLIGE(code == 0);
        OBLIGE(cl.context.R[R0] == regtag(0) + 0x12345);
        MARK(hex);
    } else {
        read_as_log(code);
        MARK(log);
    }
}
/* a GDB log whose first line has arbitrary first bytes */
void t_log(void)
{
    static uint8_t text[64] = "?? log\nr0             0x12345678\n";
    int code;
    SIDES();
    text[0] = AROUND('c', 0); text[1] = AROUND('C', 1);
    code = load(text, 33);
    if (text[0] == 'c' && text[1] == 'C') { OBLIGE(code == fileFormatException); MARK(binary); }
    else { OBLIGE(code == 0 && cl.context.R[R0] == 0x12345678u); MARK(log); }
}
/* files too short to hold a signature */
void t_short(void)
{
    static const char* const text[3] = {"6343", "cC\3\0", "\xFF\0c6"};
    int code;
    PICK(k, 3);
    PICK(n, 5);
    code = load((const uint8_t*)text[k], n);
    if ((k == 1 && n >= 2) || (k == 0 && n == 4)) { OBLIGE(code == fileFormatException); MARK(dump); }
    else { read_as_log(code); MARK(log); }
}
/* one load after another: the second file's first bytes count, not what is left of the first's */
void t_next(void)
{
    static const char* const text[4] = {"", "\3\1", "3", "43"};
    static const int length[4] = {0, 2, 1, 2};
    int code;
    PICK(first, 3);
    PICK(second, 4);
    registers(3, 0, 0);
    to_hex(1, 0, 2);
    code = first == 0 ? load(dump, dump_len) : first == 1 ? load(hextext, hex_len) : load((const uint8_t*)"cc4x log\n", 9);
    OBLIGE(code == 0);
    CrashDebugCommandLine_Uninit(&cl);
    argn = 0; mdl_file_count = 0;
    code = load((const uint8_t*)text[second], length[second]);
    read_as_log(code);
    MARK(log);
}
