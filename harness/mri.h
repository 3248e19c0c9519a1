/* stand-ins for the parts of mri that mriPlatform.c calls: packet buffer and GDB console */
#include <mriPlatform.h>
#include <platforms.h>
#include <mri.h>
#include <gdb_console.h>
#include <semihost.h>
#include <CrashCatcher.h>
static char packet[1200];
static Buffer buffer;
static int packet_len(void) { return (int)(buffer.pCurrent - buffer.pStart); }
static void packet_begin(int size) { buffer.pStart = buffer.pCurrent = packet; buffer.pEnd = packet + size; }
void __mriBuffer_WriteChar(Buffer* p, char c) { OBLIGE(p == &buffer && p->pCurrent < p->pEnd); *p->pCurrent++ = c; }
void __mriBuffer_WriteByteAsHex(Buffer* p, uint8_t b)
{
    __mriBuffer_WriteChar(p, "0123456789abcdef"[b >> 4]);
    __mriBuffer_WriteChar(p, "0123456789abcdef"[b & 15]);
}
void __mriBuffer_WriteString(Buffer* p, const char* s) { while (*s) __mriBuffer_WriteChar(p, *s++); }
static int digit(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    OBLIGE(0);
    return 0;
}
uint8_t __mriBuffer_ReadByteAsHex(Buffer* p)
{
    uint8_t b;
    OBLIGE(p == &buffer && p->pCurrent + 2 <= p->pEnd);
    b = (uint8_t)(digit(p->pCurrent[0]) << 4 | digit(p->pCurrent[1]));
    p->pCurrent += 2;
    return b;
}
/* console */
static char text[1200]; static int text_len; static int console_calls;
static void put_(char c) { text[text_len++] = c; text[text_len] = 0; }
void __mriGdbConsole_WriteString(const char* s) { console_calls++; while (*s) put_(*s++); }
void __mriGdbConsole_WriteHexValue(uint32_t v)
{
    int i;
    console_calls++;
    put_('0'); put_('x');
    for (i = 28; i >= 0; i -= 4) put_("0123456789abcdef"[(v >> i) & 15]);
}
static int mri_inits, debug_exceptions;
#ifndef OWN_MRI
void __mriInit(const char* p) { OBLIGE(p != NULL); mri_inits++; }
void __mriDebugException(void) { debug_exceptions++; }
#endif
static RegisterContext regs;
static IMemory* mem;
/* every register with a value range of its own */
static void any_registers(void)
{
    int i;
    for (i = 0; i < TOTAL_REG_COUNT; i++) regs.R[i] = any_u32(0, 0xFFFFFFFF);
    for (i = 0; i < TOTAL_FPREG_COUNT; i++) regs.FPR[i] = any_u32(0, 0xFFFFFFFF);
    regs.flags = any_u32(0, 0xFFFFFFFF);
    regs.exceptionPSR = any_u32(0, 0xFFFFFFFF);
}
static void platform(void)
{
    mem = MemorySim_Init();
    mriPlatform_Init(&regs, mem);
}
