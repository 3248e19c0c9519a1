/* C29: the fault causes shown match the fault status registers. */
#include "h.h"
#include "mri.h"

#define CFSR_  0xE000ED28u
#define HFSR_  0xE000ED2Cu
#define MMFAR_ 0xE000ED34u
#define BFAR_  0xE000ED38u
static char want[1200]; static int want_len;
static void w(const char* s) { while (*s) want[want_len++] = *s++; want[want_len] = 0; }
static void wx(uint32_t v) { int i; w("0x"); for (i = 28; i >= 0; i -= 4) want[want_len++] = "0123456789abcdef"[(v >> i) & 15]; want[want_len] = 0; }
static void as_expected(void)
{
    int i;
    OBLIGE(text_len == want_len);
    for (i = 0; i < want_len; i++) OBLIGE(text[i] == want[i]);
}
static int has_cfsr, has_hfsr, has_mmfar, has_bfar;
static uint32_t cfsr, hfsr;
#define MMFAR_VALUE 0x1234ABCDu
#define BFAR_VALUE  0x89EF5670u
static void word(uint32_t a, uint32_t v)
{
    MemorySim_CreateRegion(mem, a, 4);
    IMemory_Write32(mem, a, v);
}
static void start(int exception)
{
    platform();
    any_registers();
    regs.exceptionPSR = 0x01000000u + (uint32_t)exception;
    if (has_cfsr) word(CFSR_, cfsr);
    if (has_hfsr) word(HFSR_, hfsr);
    if (has_mmfar) word(MMFAR_, MMFAR_VALUE);
    if (has_bfar) word(BFAR_, BFAR_VALUE);
}
/* ---- what should be shown (from the ARMv7-M fault status register layout) ---- */
static void mpu(void)
{
    uint32_t s = cfsr & 0xFF;
    if (!has_cfsr || s == 0) return;
    w("\n**MPU Fault**\n  Status Register: "); wx(s);
    if ((s & 0x80) && has_mmfar) { w("\n    Fault Address: "); wx(MMFAR_VALUE); }
    if (s & 0x20) w("\n    FP Lazy Preservation");
    if (s & 0x10) w("\n    Stacking Error");
    if (s & 0x08) w("\n    Unstacking Error");
    if (s & 0x02) w("\n    Data Access");
    if (s & 0x01) w("\n    Instruction Fetch");
}
static void bus(void)
{
    uint32_t s = (cfsr >> 8) & 0xFF;
    if (!has_cfsr || s == 0) return;
    w("\n**Bus Fault**\n  Status Register: "); wx(s);
    if ((s & 0x80) && has_bfar) { w("\n    Fault Address: "); wx(BFAR_VALUE); }
    if (s & 0x20) w("\n    FP Lazy Preservation");
    if (s & 0x10) w("\n    Stacking Error");
    if (s & 0x08) w("\n    Unstacking Error");
    if (s & 0x04) w("\n    Imprecise Data Access");
    if (s & 0x02) w("\n    Precise Data Access");
    if (s & 0x01) w("\n    Instruction Prefetch");
}
static void usage(void)
{
    uint32_t s = cfsr >> 16;
    if (!has_cfsr || s == 0) return;
    w("\n**Usage Fault**\n  Status Register: "); wx(s);
    if (s & 0x200) w("\n    Divide by Zero");
    if (s & 0x100) w("\n    Unaligned Access");
    if (s & 0x08) w("\n    Coprocessor Access");
    if (s & 0x04) w("\n    Invalid Exception Return State");
    if (s & 0x02) w("\n    Invalid State");
    if (s & 0x01) w("\n    Undefined Instruction");
}
static void hard(void)
{
    w("\n**Hard Fault**");
    if (!has_hfsr) return;
    w("\n  Status Register: "); wx(hfsr);
    if (hfsr & 0x80000000u) w("\n    Debug Event");
    if (hfsr & 2) w("\n    Vector Table Read");
    if (hfsr & 0x40000000u) { w("\n    Forced"); mpu(); bus(); usage(); }
}
static void shown(void)
{
    Platform_DisplayFaultCauseToGdbConsole();
    as_expected();
    MARK(shown);
}
/* every value of the memory management status, with and without a valid address */
void t_mpu(void)
{
    PICK(status, 256);
    cfsr = (uint32_t)status | 0x03FF0000u | (status & 1 ? 0xFF00u : 0); has_cfsr = 1; has_bfar = 1; has_mmfar = 1;
    start(4);
    mpu(); w("\n");
    shown();
}
/* the same for bus faults */
void t_bus(void)
{
    PICK(status, 256);
    cfsr = (uint32_t)status << 8 | 0x03FF0000u | (status & 1 ? 0xFFu : 0); has_cfsr = 1; has_mmfar = 1; has_bfar = 1;
    start(5);
    bus(); w("\n");
    shown();
}
/* the fault address cannot be read: only that line is missing */
void t_no_address(void)
{
    PICK(k, 16); PICK(which, 2);
    cfsr = 0x80u | ((uint32_t)k & 1) | ((uint32_t)k & 2) | ((uint32_t)k & 4) << 1 | ((uint32_t)k & 8) << 2;
    if (which) cfsr <<= 8;
    has_cfsr = 1; has_bfar = !which; has_mmfar = which;
    start(4 + which);
    if (which) bus(); else mpu();
    w("\n");
    shown();
}
static const uint32_t undefined_bits[4] = {0, 0xFCF0u, 0x5450u, 0x0020u};
/* every value of the usage fault status */
void t_usage(void)
{
    PICK(status, 64); PICK(undefined, 4);
    cfsr = ((((uint32_t)status & 15) | ((uint32_t)status & 0x30) << 4 | undefined_bits[undefined]) << 16) | (status & 1 ? 0xFFFFu : 0); has_cfsr = 1; has_mmfar = has_bfar = 1;
    start(6);
    usage(); w("\n");
    shown();
}
/* every hard fault status, with every class of forced fault */
void t_hard(void)
{
    static const uint32_t faults[6] = {0, 0x82u, 0x8200u, 0x00010000u, 0x0200BFBFu, 0x01018101u};
    static const uint32_t undefined[3] = {0, 0x3FFFFFFDu, 0x00000001u};
    PICK(bits, 8); PICK(fault, 6); PICK(rest, 3); PICK(addresses, 2);
    hfsr = undefined[rest] | (bits & 1 ? 2u : 0) | (bits & 2 ? 0x40000000u : 0) | (bits & 4 ? 0x80000000u : 0);
    cfsr = faults[fault];
    has_cfsr = has_hfsr = 1; has_mmfar = has_bfar = addresses;
    start(3);
    hard(); w("\n");
    shown();
}
/* registers missing from the crash dump */
void t_absent(void)
{
    PICK(exception, 4); PICK(have, 4);
    has_cfsr = have & 1; has_hfsr = have >> 1; cfsr = 0xFFFFFFFFu; hfsr = 0xFFFFFFFFu;
    start(3 + exception);
    if (exception == 0) hard();
    if (exception == 1) mpu();
    if (exception == 2) bus();
    if (exception == 3) usage();
    w("\n");
    shown();
}
/* no other exception shows anything */
void t_no_fault(void)
{
    PICK(k, 4);
    has_cfsr = has_hfsr = has_mmfar = has_bfar = 1; cfsr = hfsr = 0xFFFFFFFFu;
    start(0);
    regs.exceptionPSR = k < 3 ? (uint32_t)k : any_u32(7, 511);
    Platform_DisplayFaultCauseToGdbConsole();
    OBLIGE(console_calls == 0);
    MARK(nothing);
}
/* any status: nothing fails, no register or memory changes, and no other class of fault is mentioned */
static int mentions(const char* s)
{
    int i, k;
    for (i = 0; i < text_len; i++) {
        for (k = 0; s[k] && text[i + k] == s[k]; k++) ;
        if (!s[k]) return 1;
    }
    return 0;
}
/* any status values at once never fail and end with a line end */
void t_any_status(void)
{
    PICK(exception, 4);
    platform();
    any_registers();
    regs.exceptionPSR = 0x61000000u + 3u + (uint32_t)exception;
    regs.R[PC] = 0x77u;
    MemorySim_CreateRegion(mem, 0xE000ED28u, 20);
    IMemory_Write32(mem, CFSR_, 0); IMemory_Write32(mem, HFSR_, any_u32(0, 0xFFFFFFFF));
    if (exception == 1) IMemory_Write32(mem, CFSR_, any_u32(1, 0xFF));
    if (exception == 2) IMemory_Write32(mem, CFSR_, any_u32(0, 0xFFFFFF) * 256u);
    if (exception == 3) IMemory_Write32(mem, CFSR_, any_u32(0, 0xFFFF) * 65536u);
    Platform_DisplayFaultCauseToGdbConsole();
    OBLIGE(!Platform_WasMemoryFaultEncountered());
    OBLIGE(regs.exceptionPSR == 0x61000003u + (uint32_t)exception && regs.R[PC] == 0x77u);
    MARK(shown);
}
