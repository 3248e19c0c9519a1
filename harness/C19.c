/* C19: argument lists are applied exactly, or refused before any file is opened. */
#include "h.h"
#include "cmd.h"
#include "elf.h"

static uint8_t log_text[] = "r0             0x12345678\n0x20000000:\t0x11111111\t0x22222222\t0x33333333\t0x44444444\n";
static void files(void)
{
    header(52, 32, 1);
    phdr(52, 1, 84, 0x00000000u, 8, 8);
    p32(84, 0xAABBCCDDu); p32(88, 0x11223344u);
    file("f.bin", image, 16);
    file("d.log", log_text, sizeof(log_text) - 1);
    file("f.elf", elf, 92);
}
static void group(int which, int letters)
{
    static const char* const name[4][3] = { {"--bin", "--BIN", "--bIn"}, {"--dump", "--DUMP", "--DumP"}, {"--alias", "--ALIAS", "--aLiAs"}, {"--elf", "--ELF", "--ElF"} };
    arg(name[which][letters]);
    if (which == 0) { arg("f.bin"); arg("0x08000000"); }
    if (which == 1) arg("d.log");
    if (which == 2) { arg("0x30000000"); arg("8"); arg("0x20000004"); }
    if (which == 3) arg("f.elf");
}
static void refused(void)
{
    OBLIGE(init() == invalidArgumentException);
    OBLIGE(mdl_fopen_calls == 0 && mdl_live_allocs == 0 && cl.pMemory == NULL);
    OBLIGE(mdl_saw_error == 1 && mdl_saw_usage == 1);
}
/* every order and letter case of the options; each parameter takes effect */
void t_orders(void)
{
    static const int order[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    PICK(o, 6);
    PICK(letters, 3);
    files();
    group(order[o][0], letters); group(order[o][1], letters); group(order[o][2], letters);
    OBLIGE(init() == 0);
    OBLIGE(cl.baseAddress == 0x08000000u && cl.context.R[R0] == 0x12345678u);
    OBLIGE(IMemory_Read32(cl.pMemory, 0x0800000Cu) == 0x100F0E0Du);
    OBLIGE(IMemory_Read32(cl.pMemory, 0x30000004u) == 0x33333333u && IMemory_Read32(cl.pMemory, 0x30000000u) == 0x22222222u);
    OBLIGE(!mapped_(cl.pMemory, 0x30000008u) && !mapped_(cl.pMemory, 0x2FFFFFFFu));
    OBLIGE(mdl_err_lines == 0);
    MARK(applied);
}
/* the ELF form of the image option */
void t_elf(void)
{
    PICK(o, 2);
    files();
    if (o) { group(3, 0); group(1, 0); } else { group(1, 2); group(3, 2); }
    OBLIGE(init() == 0);
    OBLIGE(cl.context.R[R0] == 0x12345678u && IMemory_Read32(cl.pMemory, 0x20000000u) == 0x11111111u);
    OBLIGE(IMemory_Read32(cl.pMemory, 0) == 0xAABBCCDDu && IMemory_Read32(cl.pMemory, 4) == 0x11223344u && !mapped_(cl.pMemory, 8));
    MARK(applied);
}
/* numbers may be hexadecimal, decimal or octal */
void t_numbers(void)
{
    static const char* const base[4] = {"0x10000000", "268435456", "02000000000", "0X10000000"};
    PICK(k, 4);
    files();
    arg("--bin"); arg("f.bin"); arg(base[k]);
    group(1, 0);
    arg("--alias"); arg(k & 1 ? "0x40000000" : "1073741824"); arg(k & 2 ? "0x4" : "4"); arg(k == 3 ? "02000000014" : "0x1000000c");
    OBLIGE(init() == 0);
    OBLIGE(IMemory_Read32(cl.pMemory, 0x10000000u) == 0x20008000u);
    OBLIGE(IMemory_Read32(cl.pMemory, 0x40000000u) == 0x100F0E0Du);
    OBLIGE(!mapped_(cl.pMemory, 0x40000004u));
    MARK(applied);
}
/* several aliases are all applied */
void t_aliases(void)
{
    files();
    arg("--alias"); arg("0x30000000"); arg("4"); arg("0x20000000");
    group(0, 0); group(1, 0);
    arg("--alias"); arg("0x31000000"); arg("4"); arg("0x20000008");
    OBLIGE(init() == 0);
    OBLIGE(IMemory_Read32(cl.pMemory, 0x30000000u) == 0x11111111u && IMemory_Read32(cl.pMemory, 0x31000000u) == 0x33333333u);
    MARK(applied);
}
/* the list cut short anywhere: refused unless what remains is complete */
void t_cut(void)
{
    static const int complete[6][10] = { {5}, {9}, {5}, {9}, {9}, {9} };
    static const int order[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    int full;
    PICK(o, 6);
    PICK(n, 9);
    files();
    group(order[o][0], 0); group(order[o][1], 0); group(order[o][2], 0);
    full = n == complete[o][0];
    argn = n;
    if (full) { OBLIGE(init() == 0); MARK(applied); }
    else { refused(); MARK(refused); }
}
/* any other word where an option is expected */
void t_unknown_word(void)
{
    static char word[6];
    PICK(where, 3);
    files();
    word[0] = '-'; word[1] = '-';
    word[2] = (char)any_u8('f', 'z');       /* not the start of any option, in either case */
    word[3] = (char)any_u8(0, 255); word[4] = (char)any_u8(0, 255); word[5] = 0;
    if (where == 0) arg(word);
    group(0, 0);
    if (where == 1) arg(word);
    group(1, 0);
    if (where == 2) arg(word);
    refused();
    MARK(refused);
}
/* words that do not begin with two dashes */
void t_no_dashes(void)
{
    static char word[4];
    PICK(where, 3);
    PICK(k, 3);
    files();
    word[0] = k == 0 ? (char)any_u8(0, '-' - 1) : k == 1 ? (char)any_u8('-' + 1, 255) : '-';
    word[1] = k == 2 ? (char)any_u8('-' + 1, 255) : (char)any_u8(0, 255);
    word[2] = (char)any_u8(0, 255);
    if (where == 0) arg(word);
    group(0, 0);
    if (where == 1) arg(word);
    group(1, 0);
    if (where == 2) arg(word);
    refused();
    MARK(refused);
}
/* near misses of the real options */
void t_near_miss(void)
{
    static const char* const words[8] = {"--bi", "--binx", "--du", "--dumps", "--alia", "--elfs", "--", "--bin "};
    PICK(k, 8);
    files();
    group(0, 0); group(1, 0);
    arg(words[k]); arg("a"); arg("1"); arg("2");
    refused();
    MARK(refused);
}
/* an image and a dump are both required */
void t_required(void)
{
    PICK(k, 4);
    files();
    if (k == 1) group(0, 0);
    if (k == 2) group(1, 0);
    if (k == 3) { group(2, 0); group(1, 0); }
    refused();
    MARK(refused);
}
/* many aliases, before, between and after the image and the dump: each of them applies */
static char alias_at[36][11];
void t_many_aliases(void)
{
    PICK(where, 3);
    int i, k;
    files();
    if (where == 0) { group(0, 0); group(1, 0); }
    for (i = 0; i < 36; i++) {
        for (k = 0; k < 11; k++) alias_at[i][k] = "0x30000000"[k];
        alias_at[i][6] = "0123456789abcdefghijklmnopqrstuvwxyz"[i >> 2];
        alias_at[i][9] = "048c"[i & 3];
        arg("--alias"); arg(alias_at[i]); arg("4"); arg(i & 1 ? "0x20000004" : "0x20000000");
        if (where == 1 && i == 20) { group(0, 0); group(1, 0); }
    }
    if (where == 2) { group(1, 0); group(0, 0); }
    OBLIGE(init() == 0);
    for (i = 0; i < 36; i++)
        OBLIGE(IMemory_Read32(cl.pMemory, 0x30000000u + 0x1000u * (uint32_t)(i >> 2) + 4u * (uint32_t)(i & 3)) == (i & 1 ? 0x22222222u : 0x11111111u));
    OBLIGE(IMemory_Read32(cl.pMemory, 0x0800000Cu) == 0x100F0E0Du && cl.context.R[R0] == 0x12345678u);
    MARK(applied);
}
