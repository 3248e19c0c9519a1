/* C28: the active exception number alone determines the signal. */
#include "h.h"
#include "mri.h"
#include <signal.h>
void t_signals(void)
{
    int s;
    PICK(n, 512);
    platform();
    any_registers();
    regs.exceptionPSR = any_u32(0, 0x7FFFFF) * 512u + (uint32_t)n;
    s = Platform_DetermineCauseOfException();
    OBLIGE(s == (n == 2 ? SIGINT : n == 3 ? SIGSEGV : n == 4 ? SIGSEGV : n == 5 ? SIGBUS : n == 6 ? SIGILL : n == 12 ? SIGTRAP : SIGSTOP));
    OBLIGE(console_calls == 0);
}
/* the rest of the status register, the registers and memory do not matter: flags, thumb and IT bits set or clear */
void t_psr_bits(void)
{
    int s;
    PICK(n, 16); PICK(bit, 23);
    platform();
    any_registers();
    regs.exceptionPSR = (1u << (bit + 9)) | (uint32_t)n;
    s = Platform_DetermineCauseOfException();
    OBLIGE(s == (n == 2 ? SIGINT : n == 3 ? SIGSEGV : n == 4 ? SIGSEGV : n == 5 ? SIGBUS : n == 6 ? SIGILL : n == 12 ? SIGTRAP : SIGSTOP));
}
/* xPSR of the interrupted code is another register */
void t_other_psr(void)
{
    PICK(n, 16);
    platform();
    any_registers();
    regs.exceptionPSR = 5;
    regs.R[XPSR] = (uint32_t)n;
    OBLIGE(Platform_DetermineCauseOfException() == SIGBUS);
}
/* asked again after the number changed */
void t_history(void)
{
    PICK(a, 16);
    platform();
    any_registers();
    regs.exceptionPSR = (uint32_t)a;
    (void)Platform_DetermineCauseOfException();
    Platform_DisplayFaultCauseToGdbConsole();
    regs.exceptionPSR = 12;
    OBLIGE(Platform_DetermineCauseOfException() == SIGTRAP);
    regs.exceptionPSR = 3;
    OBLIGE(Platform_DetermineCauseOfException() == SIGSEGV);
}
