/* Stand-ins for the parts of mri that are a submodule absent from this checkout. */
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include "buffer.h"
#define WEAK __attribute__((weak))
char g_console[8192];
WEAK void __mriInit(const char* p) { (void)p; }
WEAK void __mriDebugException(void) { }
WEAK void __mriGdbConsole_WriteString(const char* p) { if (strlen(g_console) + strlen(p) < sizeof(g_console)) strcat(g_console, p); }
WEAK void __mriGdbConsole_WriteHexValue(uint32_t v) { char b[16]; sprintf(b, "0x%08X", v); __mriGdbConsole_WriteString(b); }
WEAK void __mriBuffer_WriteChar(Buffer* b, char c) { if (b->pCurrent < b->pEnd) *b->pCurrent++ = c; }
WEAK void __mriBuffer_WriteByteAsHex(Buffer* b, uint8_t v) { static const char d[] = "0123456789abcdef"; __mriBuffer_WriteChar(b, d[v >> 4]); __mriBuffer_WriteChar(b, d[v & 15]); }
static int nib(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c - 'A' + 10; }
WEAK uint8_t __mriBuffer_ReadByteAsHex(Buffer* b) { uint8_t v = nib(b->pCurrent[0]) << 4 | nib(b->pCurrent[1]); b->pCurrent += 2; return v; }
WEAK void __mriBuffer_WriteString(Buffer* b, const char* s) { while (*s) __mriBuffer_WriteChar(b, *s++); }
#ifndef NO_CONSOLE_STUBS
WEAK int Console_HasStdInDataToRead(void) { return 0; }
WEAK int Console_ReadStdIn(void) { return 0; }
WEAK void Console_WriteStdOut(int c) { (void)c; }
#endif
