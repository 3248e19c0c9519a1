/* C27: registers travel to and from GDB in target order, little-endian, floating point only when present. */
#include "h.h"
#include "mri.h"

#define INTS (4 * TOTAL_REG_COUNT)
#define ALL  (4 * (TOTAL_REG_COUNT + TOTAL_FPREG_COUNT))
/* the value of byte i of the register data under pattern k */
static uint8_t pattern(int k, int i)
{
    if (k == 0) return (uint8_t)(i + 1);
    if (k == 1) return (uint8_t)(255 - i);
    if (k == 2) return (uint8_t)(i * 89 + 7);
    return (uint8_t)(i * 167 + 0x80);
}
static void set(int fp, int k)
{
    int i;
    uint8_t* r = (uint8_t*)regs.R; uint8_t* f = (uint8_t*)regs.FPR;
    for (i = 0; i < INTS; i++) r[i] = pattern(k, i);
    for (i = INTS; i < ALL; i++) f[i - INTS] = pattern(k, i);
    regs.flags = fp ? 1 : 0;
    regs.exceptionPSR = 0x12345678u;
}
static int byte_at(int i) { return digit(packet[2 * i]) << 4 | digit(packet[2 * i + 1]); }
/* the register packet holds every register once, in order */
void t_to_gdb(void)
{
    int i, n;
    PICK(fp, 2); PICK(k, 4);
    platform();
    set(fp, k);
    packet_begin(sizeof(packet));
    Platform_CopyContextToBuffer(&buffer);
    n = fp ? ALL : INTS;
    OBLIGE(packet_len() == 2 * n);
    for (i = 0; i < n; i++) OBLIGE(byte_at(i) == pattern(k, i));
    /* sending is only reading */
    for (i = 0; i < INTS; i++) OBLIGE(((uint8_t*)regs.R)[i] == pattern(k, i));
    for (i = INTS; i < ALL; i++) OBLIGE(((uint8_t*)regs.FPR)[i - INTS] == pattern(k, i));
    OBLIGE(regs.exceptionPSR == 0x12345678u && regs.flags == (uint32_t)fp);
    MARK(sent);
}
/* a register packet sets every register */
void t_from_gdb(void)
{
    int i, n;
    PICK(fp, 2); PICK(k, 4); PICK(upper, 2);
    platform();
    set(fp, 3 - k);     /* other values before */
    packet_begin(sizeof(packet));
    n = fp ? ALL : INTS;
    for (i = 0; i < n; i++) {
        packet[2 * i] = (upper ? "0123456789ABCDEF" : "0123456789abcdef")[pattern(k, i) >> 4];
        packet[2 * i + 1] = (upper ? "0123456789ABCDEF" : "0123456789abcdef")[pattern(k, i) & 15];
    }
    buffer.pEnd = packet + 2 * n;
    Platform_CopyContextFromBuffer(&buffer);
    OBLIGE(packet_len() == 2 * n);
    for (i = 0; i < INTS; i++) OBLIGE(((uint8_t*)regs.R)[i] == pattern(k, i));
    for (i = INTS; i < ALL; i++) OBLIGE(((uint8_t*)regs.FPR)[i - INTS] == pattern(fp ? k : 3 - k, i));
    OBLIGE(regs.exceptionPSR == 0x12345678u && regs.flags == (uint32_t)fp);
    MARK(received);
}
/* every byte value travels unchanged, in every byte lane */
#define VALUE(i) (8 * v + (i) % 8)
void t_values(void)
{
    int i;
    PICK(v, 32);
    platform();
    regs.flags = 0;
    for (i = 0; i < TOTAL_REG_COUNT; i++) regs.R[i] = 0x01010101u * (uint32_t)VALUE(i);
    packet_begin(sizeof(packet));
    Platform_CopyContextToBuffer(&buffer);
    OBLIGE(packet_len() == 2 * INTS);
    for (i = 0; i < INTS; i++) OBLIGE(byte_at(i) == VALUE(i / 4));
    for (i = 0; i < TOTAL_REG_COUNT; i++) regs.R[i] = 0;
    buffer.pCurrent = packet;
    buffer.pEnd = packet + 2 * INTS;
    Platform_CopyContextFromBuffer(&buffer);
    for (i = 0; i < TOTAL_REG_COUNT; i++) OBLIGE(regs.R[i] == 0x01010101u * (uint32_t)VALUE(i));
    MARK(same);
}
/* any register values and flags: the packet's length depends on the floating point flag alone */
void t_any(void)
{
    int n;
    PICK(fp, 2);
    platform();
    any_registers();
    regs.flags = any_u32(0, 0x7FFFFFFF) * 2 + (uint32_t)fp;
    packet_begin(sizeof(packet));
    Platform_CopyContextToBuffer(&buffer);
    n = packet_len();
    OBLIGE(n == 2 * (fp ? ALL : INTS));
    buffer.pCurrent = packet; buffer.pEnd = packet + n;
    Platform_CopyContextFromBuffer(&buffer);
    OBLIGE(packet_len() == n);
    buffer.pCurrent = packet; buffer.pEnd = packet + sizeof(packet);
    Platform_WriteTResponseRegistersToBuffer(&buffer);
    OBLIGE(packet_len() == 4 * 12);
}
/* the stop reply carries R12 to PC */
void t_stop_reply(void)
{
    int i, j;
    PICK(fp, 2); PICK(k, 4);
    platform();
    set(fp, k);
    packet_begin(sizeof(packet));
    Platform_WriteTResponseRegistersToBuffer(&buffer);
    OBLIGE(packet_len() == 4 * 12);
    for (i = 0; i < 4; i++) {
        OBLIGE((digit(packet[12 * i]) << 4 | digit(packet[12 * i + 1])) == R12 + i);
        OBLIGE(packet[12 * i + 2] == ':' && packet[12 * i + 11] == ';');
        for (j = 0; j < 4; j++)
            OBLIGE((digit(packet[12 * i + 3 + 2 * j]) << 4 | digit(packet[12 * i + 4 + 2 * j])) == pattern(k, 4 * (R12 + i) + j));
    }
    MARK(sent);
}
/* ... with any values */
void t_stop_reply_values(void)
{
    int i, j;
    PICK(v, 64);
    platform();
    for (i = 0; i < 4; i++) regs.R[R12 + i] = 0x01010101u * (uint32_t)(4 * v + i);
    packet_begin(sizeof(packet));
    Platform_WriteTResponseRegistersToBuffer(&buffer);
    for (i = 0; i < 4; i++) for (j = 0; j < 4; j++)
        OBLIGE((digit(packet[12 * i + 3 + 2 * j]) << 4 | digit(packet[12 * i + 4 + 2 * j])) == 4 * v + i);
    MARK(same);
}
/* the packet buffer is large enough for every register, and really there */
void t_packet_buffer(void)
{
    uint32_t n = Platform_GetPacketBufferSize();
    char* p = Platform_GetPacketBuffer();
    OBLIGE(n >= 2 * ALL + 16);
    p[0] = 'x'; p[n - 1] = 'y';
    OBLIGE(p[0] == 'x' && p[n - 1] == 'y');
    OBLIGE(Platform_GetPacketBuffer() == p);
}
