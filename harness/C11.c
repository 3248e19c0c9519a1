/* C11: a CrashCatcher dump of either version puts every register into its place, whatever the values. */
#include "h.h"
#include "dump.h"

static void check_registers(int v)
{
    int i;
    for (i = 0; i < 17; i++) OBLIGE(in(ctx.R[i], i));
    if (v == 2) { OBLIGE(ctx.R[MSP] == 0xBAADBAADu && ctx.R[PSP] == 0xBAADBAADu); MARK(v2); }
    else { OBLIGE(in(ctx.R[MSP], 17) && in(ctx.R[PSP], 18)); MARK(v3); }
    OBLIGE(in(ctx.exceptionPSR, 30));
}
/* every version and flag combination, any register values */
void t_binary(void)
{
    static const uint32_t flags[6] = {0, 1, 2, 3, 0xFFFFFFFEu, 0xFFFFFFFFu};
    IMemory* m = MemorySim_Init();
    PICK(v, 2);
    PICK(f, 6);
    int i;
    for (i = 0; i < TOTAL_FPREG_COUNT; i++) ctx.FPR[i] = 0x99u + (uint32_t)i;
    registers(v + 2, flags[f], 1);
    use_file("crash.dmp", dump_len);
    OBLIGE(read_dump(m, 0) == 0);
    OBLIGE(ctx.flags == flags[f]);
    check_registers(v + 2);
    if (flags[f] & 1) { for (i = 0; i < 33; i++) OBLIGE(in(ctx.FPR[i], 40 + i)); MARK(float); }
    else { for (i = 0; i < 33; i++) OBLIGE(ctx.FPR[i] == 0x99u + (uint32_t)i); MARK(nofloat); }
    OBLIGE(!mapped(m, any_u32(0, 0xFFFFFFFFu)));
}
/* the same, from the hexadecimal form */
void t_hex(void)
{
    IMemory* m = MemorySim_Init();
    PICK(v, 2);
    PICK(f, 2);
    int i;
    registers(v + 2, (uint32_t)f, 0);
    to_hex(1, 32, 3);
    mdl_files[0].name = "crash.dmp";
    OBLIGE(read_dump(m, 1) == 0);
    OBLIGE(ctx.flags == (uint32_t)f);
    check_registers(v + 2);
    for (i = 0; i < 17; i++) OBLIGE(ctx.R[i] == regtag(i) + 0x12345);
    OBLIGE(ctx.exceptionPSR == regtag(30) + 3);
    for (i = 0; i < 33; i++) OBLIGE(ctx.FPR[i] == (f ? regtag(40 + i) + 0x777 : 0));
    MARK(read);
}
/* the registers after the floating point ones: memory follows at the right place */
void t_memory_follows(void)
{
    IMemory* m = MemorySim_Init();
    PICK(v, 2);
    PICK(f, 2);
    registers(v + 2, (uint32_t)f, 1);
    w32(0x10000000u); w32(0x10000004u); w32(any_u32(0x50000000u, 0x5FFFFFFFu));
    use_file("crash.dmp", dump_len);
    OBLIGE(read_dump(m, 0) == 0);
    check_registers(v + 2);
    OBLIGE(mapped(m, 0x10000000u) && mapped(m, 0x10000003u) && !mapped(m, 0x10000004u));
    OBLIGE(IMemory_Read8(m, 0x10000003u) >= 0x50 && IMemory_Read8(m, 0x10000003u) <= 0x5F);
    MARK(read);
}
/* any other signature is refused and nothing is read from it */
void t_signature(void)
{
    IMemory* m = MemorySim_Init();
    PICK(k, 10);
    registers(3, 0, 0);
    switch (k) {
    case 0: dump[0] = any_u8(0, 'c' - 1); break;
    case 1: dump[0] = any_u8('c' + 1, 255); break;
    case 2: dump[1] = any_u8(0, 'C' - 1); break;
    case 3: dump[1] = any_u8('C' + 1, 255); break;
    case 4: dump[2] = any_u8(0, 1); break;
    case 5: dump[2] = any_u8(4, 255); break;
    case 6: dump[3] = any_u8(1, 255); break;
    case 7: dump[2] = 2; dump[3] = any_u8(1, 255); break;
    case 8: dump[0] = 'C'; dump[1] = 'c'; break;
    case 9: any_bytes(dump, 4); dump[0] = 0x7f; break;
    }
    use_file("crash.dmp", dump_len);
    OBLIGE(read_dump(m, 0) == fileFormatException);
    OBLIGE(ctx.R[0] == 0 && ctx.exceptionPSR == 0 && ctx.flags == 0);
    MARK(refused);
}
