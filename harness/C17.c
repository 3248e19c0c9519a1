/* C17: no GDB log text, however strange, makes the parser touch anything outside its buffers, loop, or leave the file open. */
#include "h.h"
#include "gdblog.h"
//! retsplit: yes

static void run(IMemory* m)
{
    int code = parse(m);
    OBLIGE(code == 0 || code == busErrorException || code == outOfMemoryException);
    MARK(parsed);
}
/* cut the text after n characters; make the character at position pos arbitrary */
static void damage(const char* text, int pos, int cut)
{
    int i;
    init_text();
    for (i = 0; text[i] && i < cut; i++) log_[log_len++] = i == pos ? not_newline[any_int(0, 254)] : (uint8_t)text[i];
}
/* any text that is no memory line */
void t_any_line(void)
{
    IMemory* m = MemorySim_Init();
    static uint8_t first[227]; int i, n = 0;
    PICK(len, 4);
    static const int lens[4] = {0, 2, 11, 16};
    PICK(nl, 2);
    init_text();
    for (i = 0; i < 256; i++) if (i != '0' && i != '\n' && i != '\r' && (i < 'a' || i > 'z')) first[n++] = (uint8_t)i;

    log_[log_len++] = first[any_int(0, 226)];
    put_any(lens[len]);
    if (nl) put("\n");
    run(m);
}
/* a register name followed by anything */
void t_any_register_value(void)
{
    static const char* const names[5] = {"r0", "pc", "s0", "s31", "fpscr"};
    static const int lens[3] = {0, 2, 4};
    IMemory* m = MemorySim_Init();
    PICK(k, 5);
    PICK(len, 3);
    init_text();
    put_name(names[k]);
    put_any(lens[len]);
    if (len & 1) put("\n");
    run(m);
}
/* floating point lines with broken raw values */
void t_any_raw(void)
{
    IMemory* m = MemorySim_Init();
    PICK(k, 5);
    init_text();
    put_name("s3");
    put(k == 0 ? "1.0 " : k == 1 ? "1.0\t(raw " : k == 2 ? "(raw " : k == 3 ? "   (ra" : "1.0\t(raw 0xFFFFFFFFFFFFFFFF");
    put_any(3);
    run(m);
}
/* a memory line with one damaged character */
void t_damaged_memory(void)
{
    IMemory* m = MemorySim_Init();
    static const char text[] = "0x10000000 <a<b>>:\t0x12345678 <c>\t0x9\n";
    int n = (int)sizeof(text) - 1;
    PICK(p, (int)sizeof(text) - 12);
    damage(text, p + 11, n);
    run(m);
}
/* ... the damaged character being in the address */
void t_damaged_address(void)
{
    static const uint8_t bad[6] = {0, 'G', '-', 'x', 0xFF, '9'};
    IMemory* m = MemorySim_Init();
    PICK(p, 11);
    PICK(k, 6);
    put("0x10000000:\t0x12345678 <c>\t0x9\n");
    log_[p] = bad[k];
    run(m);
}
/* a memory line cut off anywhere, its last character arbitrary */
void t_cut_memory(void)
{
    IMemory* m = MemorySim_Init();
    static const char text[] = "0x10000000 <a<b>>:\t0x12345678 <c>\t0x9\n";
    PICK(cut, (int)sizeof(text));
    damage(text, cut - 1, cut);
    run(m);
}
/* an address followed by any two characters */
void t_any_values(void)
{
    IMemory* m = MemorySim_Init();
    init_text();
    put("0x10000000:");
    put_any(2);
    run(m);
}
/* a register line cut off anywhere, its last character arbitrary */
void t_cut_register(void)
{
    IMemory* m = MemorySim_Init();
    static const char text[] = "s31            -1.5\t(raw 0xbfc00000)\n";
    PICK(cut, (int)sizeof(text));
    damage(text, cut - 1, cut);
    run(m);
}
/* a symbol longer than the line buffer: the line is continued in pieces, wherever the cut falls */
void t_long(void)
{
    IMemory* m = MemorySim_Init();
    PICK(n, 4);
    put(n < 2 ? "0x10000000:\t0x11111111 <" : "r0             1");
    while (log_len < 1021 + (n & 1)) log_[log_len++] = n & 2 ? ' ' : '<';
    put("99\n");
    run(m);
}
/* an empty log */
void t_empty(void)
{
    IMemory* m = MemorySim_Init();
    PICK(k, 2);
    if (k) put("\n\n\n");
    OBLIGE(parse(m) == 0);
    OBLIGE(ctx.R[MSP] == 0xBAADBAADu && ctx.R[PSP] == 0xBAADBAADu);
    OBLIGE(!mapped(m, any_u32(0, 0xFFFFFFFFu)));
    MARK(empty);
}
