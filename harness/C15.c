/* C15: a GDB log sets exactly the registers it lists, each to its own value; absent MSP/PSP read as the marker value. */
//! entry: t_any_lines coarse without=mriPlatform.c without=CrashDebugCommandLine.c -eva-slevel 500 -eva-partition-value phase,line_no,__lj_active
#include "h.h"
#include "gdblog.h"
//! opts: -eva-ilevel 256

static const char* const names[52] = { "r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "sp", "lr", "pc",
    "xpsr", "msp", "psp", "s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "s12", "s13", "s14", "s15", "s16", "s17",
    "s18", "s19", "s20", "s21", "s22", "s23", "s24", "s25", "s26", "s27", "s28", "s29", "s30", "s31", "fpscr" };
static uint32_t* slot(int i) { return i < 19 ? &ctx.R[i] : &ctx.FPR[i - 19]; }
static uint32_t val(int i) { return 0x9ABCDE00u + 0x01010101u * (uint32_t)i; }

static void poison(void) { int i; for (i = 0; i < 52; i++) *slot(i) = 0xA0000000u + (uint32_t)i; ctx.exceptionPSR = 0x1234; }
static void untouched(int i) { if (i == 17 || i == 18) OBLIGE(*slot(i) == 0xBAADBAADu); else OBLIGE(*slot(i) == 0xA0000000u + (uint32_t)i); }

/* one register at a time, every register */
void t_each(void)
{
    IMemory* m = MemorySim_Init();
    uint32_t k = any_u32(0, 51); int i;
    /*@ split k; */
    poison();
    put_name(names[k]);
    if (k >= 19 && k < 51) { put("1.5\t(raw "); put_hex(val((int)k), 0); put(")\n"); }
    else { put_hex(val((int)k), 1); put("\t-1\n"); }
    OBLIGE(parse(m) == 0);
    for (i = 0; i < 52; i++)
        if (i == (int)k) OBLIGE(*slot(i) == val(i)); else untouched(i);
    OBLIGE((ctx.flags & CRASH_CATCHER_FLAGS_FLOATING_POINT) == (k >= 19 && k < 51));
    OBLIGE(ctx.exceptionPSR == 0x1234);
    MARK(set);
}
/* all of them, in order or reversed, mixed with other output */
void t_all(void)
{
    IMemory* m = MemorySim_Init();
    PICK(rev, 2);
    PICK(fp, 2);
    int i, n = fp ? 52 : 19;
    put("(gdb) info all-registers\n");
    for (i = 0; i < n; i++) {
        int k = rev ? n - 1 - i : i;
        put_name(names[k]);
        if (k >= 19 && k < 51) { put("-nan(0x7fffff)\t(raw "); put_hex(val(k), 0); put(")\n"); }
        else { put_hex(val(k), 0); put(" 12 <main+4>\n"); }
    }
    OBLIGE(parse(m) == 0);
    for (i = 0; i < n; i++) OBLIGE(*slot(i) == val(i));
    OBLIGE((ctx.flags & CRASH_CATCHER_FLAGS_FLOATING_POINT) == (uint32_t)fp);
    MARK(set);
    OBLIGE(!mapped(m, any_u32(0, 0xFFFFFFFFu)));
}
/* values: hexadecimal of either case and any length, decimal, followed by anything or nothing */
void t_values(void)
{
    static const char* const text[10] = { "0x0", "0xffffffff", "0xFFFFFFFF\n", "0x89ABCDEF\t-1985229329\n", "0x89abcdef\r\n", "305419896\n", "0x12345678 0x9", "0x1\n", "4294967295", "0x80000000 <sym+4>\n" };
    static const uint32_t want[10] = { 0, 0xFFFFFFFFu, 0xFFFFFFFFu, 0x89ABCDEFu, 0x89ABCDEFu, 305419896u, 0x12345678u, 1, 4294967295u, 0x80000000u };
    IMemory* m = MemorySim_Init();
    PICK(t, 10);
    PICK(r, 3);
    static const int regs[3] = {0, 15, 51};
    poison();
    put_name(names[regs[r]]);
    put(text[t]);
    OBLIGE(parse(m) == 0);
    OBLIGE(*slot(regs[r]) == want[t]);
    MARK(set);
}
/* floating point registers take the raw bits, however GDB displays the value */
void t_float(void)
{
    static const char* const text[5] = { "1\t(raw 0x3f800000)\n", "-1.5e+30 (raw 0xf1974c5b)\n", "inf   \t (raw 0x7f800000)", "0\t(raw 0x00000000)\n", "nan(0x8000) (raw 0x7fc08000)\n" };
    static const uint32_t want[5] = { 0x3f800000u, 0xf1974c5bu, 0x7f800000u, 0, 0x7fc08000u };
    IMemory* m = MemorySim_Init();
    PICK(t, 5);
    PICK(r, 4);
    static const int regs[4] = {19, 20, 29, 50};
    poison();
    put_name(names[regs[r]]);
    put(text[t]);
    OBLIGE(parse(m) == 0);
    OBLIGE(*slot(regs[r]) == want[t]);
    OBLIGE(ctx.flags & CRASH_CATCHER_FLAGS_FLOATING_POINT);
    MARK(set);
}
/* lines that only look like registers set nothing */
void t_not_registers(void)
{
    static const char* const line[12] = { "r13            0x1\n", "R0             0x1\n", " r0             0x1\n", "r0 0x1\n", "s32            0x1\n", "pc\n", "primask        0x1\n",
        "x0             0x1\n", "r0             ", "control        0x1\n", "d0             0x1\n", "xpsr=0x1\n" };
    IMemory* m = MemorySim_Init();
    PICK(t, 12);
    int i;
    poison();
    put(line[t]);
    if (t == 8) return;
    OBLIGE(parse(m) == 0);
    for (i = 0; i < 52; i++) untouched(i);
    OBLIGE(ctx.flags == 0);
    MARK(ignored);
}
/* listed twice: the last one stands */
void t_twice(void)
{
    IMemory* m = MemorySim_Init();
    PICK(k, 3);
    static const int regs[3] = {3, 17, 18};
    put_name(names[regs[k]]); put_hex(0x11111111u, 0); put("\n");
    put_name(names[regs[k]]); put_hex(0x22222222u, 0); put("\n");
    OBLIGE(parse(m) == 0);
    OBLIGE(*slot(regs[k]) == 0x22222222u);
    MARK(last);
}
/* a register's line counts wherever it is: after any number of other lines and before any number of others */
static int phase, line_no, which;
extern char* (*hook_fgets)(char* p, int size, FILE* f);
extern int (*hook_fseek)(FILE* f, long offset, int whence);
static int again(FILE* f, long offset, int whence) { phase = 0; return 0; }
static const char* const other_lines[4] = { "(gdb) info registers\n", "\n", "r1             0x00000007\t7\n", "s3             1.5\t(raw 0x3fc00000)\n" };
static char* some_line(char* p, int size, FILE* f)
{
    line_no = any_int(0, 4);
    /*@ split line_no; */
    if (line_no) { strcpy(p, other_lines[line_no - 1]); return p; }
    if (phase == 1) return NULL;
    phase = 1;
    strcpy(p, names[which]);
    memset(p + strlen(names[which]), ' ', 15 - strlen(names[which]));
    strcpy(p + 15, which >= 19 && which < 51 ? "1.5\t(raw 0x9abcdef0)\n" : "0x9abcdef0\t-1698898192\n");
    return p;
}
void t_any_lines(void)
{
    static const int regs[5] = { 0, 16, 17, 25, 51 };
    IMemory* m = MemorySim_Init();
    PICK(r, 5);
    which = regs[r];
    poison();
    hook_fgets = some_line;
    hook_fseek = again;
    OBLIGE(parse(m) == 0);
    OBLIGE(*slot(which) == 0x9abcdef0u);
    OBLIGE(*slot(2) == 0xA0000002u && *slot(30) == 0xA0000000u + 30);
    MARK(set);
}
