/* C16: a GDB log's memory lines are loaded word for word: consecutive lines form one region, gaps start another,
   symbols and surplus text change nothing, and no word that is not in the log appears. */
//! entry: t_wide narrow without=mriPlatform.c without=CrashDebugCommandLine.c
//! entry: t_any_number coarse without=mriPlatform.c without=CrashDebugCommandLine.c -eva-partition-value saw_end,__lj_active
//! entry: t_any_others coarse without=mriPlatform.c without=CrashDebugCommandLine.c -eva-slevel 500 -eva-mlevel 8 -eva-partition-value phase,line_no,__lj_active
#include "h.h"
#include "gdblog.h"

static uint32_t word(int i) { return 0xF0E1D200u + 0x01030507u * (uint32_t)i; }
static void line(uint32_t a, int first, int n, int style)
{
    int i;
    put_hex(a, style & 1);
    if (style & 2) put(" <impure_data+4>");
    put(":");
    for (i = 0; i < n; i++) {
        put((style & 4) && i ? "  \t" : "\t");
        put_hex(word(first + i), style & 1);
        if (style & 8) put(i & 1 ? "<<<sym>>>" : " <sym with spaces>");
    }
    if (style & 16) put("\r");
    if (!(style & 32)) put("\n");
}
static void expect(IMemory* m, uint32_t a, int first, int n)
{
    int i;
    for (i = 0; i < n; i++) OBLIGE(IMemory_Read32(m, a + 4 * (uint32_t)i) == word(first + i));
}
static int reads(IMemory* m, int i)
{
    int code = 0;
    uint32_t v = 0;
    CATCHING(code, v = IMemory_Read32(m, 0x10000000u + 4 * (uint32_t)i));
    return code == 0 && v == word(i);
}
/* one line with one to four words in every style: exactly those words, in writable memory */
void t_one(void)
{
    IMemory* m = MemorySim_Init();
    PICK(n1, 4);
    PICK(style, 64);
    int n = n1 + 1;
    line(0x10000000u, 3, n, style);
    OBLIGE(parse(m) == 0);
    expect(m, 0x10000000u, 3, n);
    OBLIGE(!mapped(m, 0x10000000u + 4 * (uint32_t)n) && !mapped(m, 0x0FFFFFFFu));
    IMemory_Write8(m, 0x10000000u, 1);
    MARK(loaded);
}
static void long_symbol(int length)
{
    put_hex(0x10000000u, 0);
    put(" <");
    while (log_len < length - 46) log_[log_len++] = 's';
    put(">:");
    put("\t"); put_hex(word(0), 0); put("\t"); put_hex(word(1), 0);
    put("\t"); put_hex(word(2), 0); put("\t"); put_hex(word(3), 0);
    put("\n");
}
/* long symbols (mangled or template names): lines of 128, 256, 512, 1000 and 1023 characters */
void t_long_line(void)
{
    static const int length[5] = { 128, 256, 512, 1000, 1023 };
    IMemory* m = MemorySim_Init();
    PICK(k, 5);
    long_symbol(length[k]);
    OBLIGE(parse(m) == 0);
    expect(m, 0x10000000u, 0, 4);
    OBLIGE(!mapped(m, 0x10000010u));
    MARK(loaded);
}
/* a line of 1054 characters is loaded in full or refused (and an empty log is not an error) */
void t_overlong(void)
{
    IMemory* m = MemorySim_Init();
    int code, same;
    PICK(empty, 2);
    if (empty) { OBLIGE(parse(m) == 0 && !mapped(m, 0x10000000u)); return; }
    long_symbol(1054);
    code = parse(m);
    same = reads(m, 0) && reads(m, 1) && reads(m, 2) && reads(m, 3);
    OBLIGE(code != 0 || same);
}
/* demangled C++ symbols: templates, spaces, and operators whose names have angle brackets */
void t_templates(void)
{
    static const char* const symbol[5] = { " <std::vector<int, std::allocator<int> >::data() const+4>:", " <f(unsigned int)>:", " <(anonymous namespace)::table>:",
                                           " <std::map<A<B>, C<D<int> >>::end()+16>:", " <operator()(int) const+8>:" };
    IMemory* m = MemorySim_Init();
    PICK(k, 5);
    put_hex(0x10000000u, 0); put(symbol[k]);
    put("\t"); put_hex(word(0), 0); put("\t"); put_hex(word(1), 0); put("\n");
    OBLIGE(parse(m) == 0);
    expect(m, 0x10000000u, 0, 2);
    OBLIGE(!mapped(m, 0x10000008u));
    MARK(loaded);
}
/* operators with < or > in their names */
void t_operators(void)
{
    static const char* const symbol[5] = { " <f(int)>:", " <P::operator->() const+4>:", " <operator<(A, B)+8>:", " <operator>> (A&, B)>:", " <operator<< <int>(A, B)>:" };
    IMemory* m = MemorySim_Init();
    PICK(k, 5);
    int code, same;
    put_hex(0x10000000u, 0); put(symbol[k]);
    put("\t"); put_hex(word(0), 0); put("\t"); put_hex(word(1), 0); put("\n");
    code = parse(m);
    same = code == 0 && reads(m, 0) && reads(m, 1);
    OBLIGE(same);
}
/* lines at the ends of the address space and across its middle, alone and after one another */
void t_ends(void)
{
    static const uint32_t at[8][2] = {
        { 0x00000000u, 0x00000010u }, { 0x00000000u, 0x00000020u }, { 0xFFFFFFE0u, 0xFFFFFFF0u }, { 0xFFFFFFF0u, 0x00000000u },
        { 0x00000000u, 0xFFFFFFF0u }, { 0x7FFFFFF0u, 0x80000000u }, { 0x80000000u, 0x7FFFFFF0u }, { 0xFFFFFFF0u, 0x00000010u } };
    IMemory* m = MemorySim_Init();
    PICK(k, 8);
    PICK(lines, 2);
    int i;
    for (i = 0; i <= lines; i++) line(at[k][i], 4 * i, 4, 0);
    OBLIGE(parse(m) == 0);
    for (i = 0; i <= lines; i++) expect(m, at[k][i], 4 * i, 4);
    OBLIGE(!mapped(m, 0x40000000u) && mapped(m, 0) == (at[k][0] == 0 || (lines && at[k][1] == 0)));
    MARK(loaded);
}
/* more than four values on a line, or text after them: the first four count */
void t_surplus(void)
{
    static const char* const more[4] = { "\t0x99999999\n", " trailing text\n", "\t55555555 66666666 <x>\n", "  \t \n" };
    IMemory* m = MemorySim_Init();
    PICK(k, 4);
    line(0x10000000u, 0, 4, 32);
    put(more[k]);
    OBLIGE(parse(m) == 0);
    expect(m, 0x10000000u, 0, 4);
    OBLIGE(!mapped(m, 0x10000010u));
    MARK(loaded);
}
/* lines in sequence: contiguous ones make one region, others separate ones; register and other lines in between */
void t_regions(void)
{
    static const uint32_t at[5][4] = {
        { 0x10000000u, 0x10000010u, 0x10000020u, 0x10000030u },      /* one region */
        { 0x10000000u, 0x10000010u, 0x20000000u, 0x20000010u },      /* two */
        { 0x20000000u, 0x10000000u, 0x30000000u, 0x00000000u },      /* four, any order */
        { 0x10000000u, 0x10000014u, 0x10000024u, 0x50000000u },      /* a gap of one word */
        { 0xFFFFFFC0u, 0xFFFFFFD0u, 0xFFFFFFE0u, 0xFFFFFFF0u } };    /* up to the top */
    static const int regions[5] = {1, 2, 4, 3, 1};
    IMemory* m = MemorySim_Init();
    PICK(c, 5);
    PICK(between, 3);
    PICK(lines1, 4);
    int i, n = lines1 + 1, live;
    for (i = 0; i < n; i++) {
        line(at[c][i], 4 * i, 4, 0);
        if (between == 1) put("r1             0x00000007\n");
        if (between == 2) put("(gdb) x/4xw\n\n");
    }
    live = mdl_live_allocs;
    OBLIGE(parse(m) == 0);
    for (i = 0; i < n; i++) expect(m, at[c][i], 4 * i, 4);
    if (n == 4) OBLIGE(mdl_live_allocs - live == 2 * regions[c]);
    if (c == 3) OBLIGE(!mapped(m, 0x10000010u) && !mapped(m, 0x10000013u));
    if (c < 2) OBLIGE(!mapped(m, at[c][n - 1] + 16));
    /* a region is one piece: words may be read across line boundaries */
    if (n >= 2 && (c == 0 || c == 4 || c == 1)) OBLIGE(IMemory_Read16(m, at[c][0] + 15) == (((word(4) & 0xFF) << 8) | (word(3) >> 24)));
    MARK(loaded);
}
/* short lines (1-3 words) in sequence stay in step */
void t_short_lines(void)
{
    IMemory* m = MemorySim_Init();
    PICK(a, 4); PICK(b, 4); PICK(nl, 2);
    uint32_t at2 = 0x10000000u + 4 * (uint32_t)(a + 1);
    line(0x10000000u, 0, a + 1, nl ? 16 : 0);
    line(at2, 10, b + 1, nl ? 8 : 0);
    OBLIGE(parse(m) == 0);
    expect(m, 0x10000000u, 0, a + 1);
    expect(m, at2, 10, b + 1);
    OBLIGE(!mapped(m, at2 + 4 * (uint32_t)(b + 1)));
    MARK(loaded);
}
/* the same memory dumped again: the later contents stand */
void t_again(void)
{
    IMemory* m = MemorySim_Init();
    line(0x10000000u, 0, 4, 0);
    line(0x20000000u, 4, 4, 0);
    line(0x10000000u, 8, 4, 0);
    OBLIGE(parse(m) == 0);
    expect(m, 0x10000000u, 8, 4);
    expect(m, 0x20000000u, 4, 4);
    MARK(loaded);
}
/* lines that only look like memory lines create nothing */
void t_not_memory(void)
{
    static const char* const text[9] = { "0x1000000:\t0x11111111\n", "0x1000000g:\t0x11111111\n", "10000000:\t0x11111111\n", "0x10000000\n", "0x10000000:\n",
        " 0x10000000:\t0x11111111\n", "0x10000000:\t Cannot access memory\n", "X0x10000000:\t0x1\n", "0x10000000:    \n" };
    IMemory* m = MemorySim_Init();
    PICK(k, 9);
    put(text[k]);
    OBLIGE(parse(m) == 0);
    OBLIGE(!mapped(m, any_u32(0, 0xFFFFFFFFu)));
    OBLIGE(mdl_live_allocs == 0);
    MARK(ignored);
}
/* memory that already exists as flash is not overwritten: refused */
void t_in_flash(void)
{
    IMemory* m = MemorySim_Init();
    MemorySim_CreateRegion(m, 0x10000000u, 32);
    MemorySim_MakeRegionReadOnly(m, 0x10000000u);
    line(0x10000000u, 0, 4, 0);
    OBLIGE(parse(m) == busErrorException);
    OBLIGE(IMemory_Read32(m, 0x10000000u) == 0);
    MARK(refused);
}
/* logs of any length with any lines: no address, count or size is cut to fewer bits */
extern char* (*hook_fgets)(char* p, int size, FILE* f);
static char* wide_fgets(char* p, int size, FILE* f)
{
    if (any_bool()) return NULL;
    any_bytes(p, (unsigned long)size);
    p[any_int(0, size - 1)] = 0;
    p[size - 1] = 0;
    return p;
}
/* a log of any number of lines with any addresses: no address, size or count is cut to fewer bits */
void t_wide(void)
{
    IMemory* m = MemorySim_Init();
    hook_fgets = wide_fgets;
    parse(m);
}
/* a log with any number of lines of any kind: both passes read it to its end, so that no line is left out */
static int saw_end;
static char* endless_fgets(char* p, int size, FILE* f)
{
    if (any_bool()) { saw_end = 1; return NULL; }
    any_bytes(p, (unsigned long)size);
    p[any_int(0, size - 1)] = 0;
    p[size - 1] = 0;
    return p;
}
extern int (*hook_fseek)(FILE* f, long offset, int whence);
static int second_pass(FILE* f, long offset, int whence)
{
    OBLIGE(saw_end);
    MARK(rewound);
    saw_end = 0;
    return 0;
}
void t_any_number(void)
{
    IMemory* m = MemorySim_Init();
    hook_fgets = endless_fgets;
    hook_fseek = second_pass;
    if (parse(m) == 0) {
        OBLIGE(saw_end);
        MARK(loaded);
    }
}
/* memory lines count wherever they are: with any number of other lines before, between and after them */
static int phase, line_no;
static int again(FILE* f, long offset, int whence) { phase = 0; return 0; }
static char* some_line(char* p, int size, FILE* f)
{
    static const char* const others[3] = { "(gdb) x/8xw 0x10000000\n", "\n", "r1             0x00000007\t7\n" };
    static const char* const lines[3] = { "0x10000000:\t0x00112233\t0x44556677\t0x8899aabb\t0xccddeeff\n", "0x10000010 <sym>:\t0x12345678\n", "0x20000000:\t0x87654321\n" };
    line_no = any_int(0, 3);
    /*@ split line_no; */
    if (line_no) { strcpy(p, others[line_no - 1]); return p; }
    if (phase == 3) return NULL;
    strcpy(p, lines[phase]);
    phase++;
    return p;
}
void t_any_others(void)
{
    IMemory* m = MemorySim_Init();
    hook_fgets = some_line;
    hook_fseek = again;
    OBLIGE(parse(m) == 0);
    OBLIGE(IMemory_Read32(m, 0x10000000u) == 0x00112233u && IMemory_Read32(m, 0x1000000Cu) == 0xccddeeffu);
    OBLIGE(IMemory_Read32(m, 0x10000010u) == 0x12345678u && IMemory_Read32(m, 0x20000000u) == 0x87654321u);
    OBLIGE(!mapped(m, 0x10000014u) && !mapped(m, 0x20000004u));
    MARK(loaded);
}
