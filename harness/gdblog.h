/* building GDB logs */
#include <GdbLogParser.h>
#include <CrashCatcher.h>
#include <string.h>
static uint8_t log_[4000]; static long log_len;
static RegisterContext ctx;
static void put(const char* s) { int i; for (i = 0; s[i]; i++) log_[log_len++] = (uint8_t)s[i]; }
static void put_hex(uint32_t v, int upper)
{
    int i; put("0x");
    for (i = 28; i >= 0; i -= 4) log_[log_len++] = (uint8_t)(upper ? "0123456789ABCDEF" : "0123456789abcdef")[(v >> i) & 15];
}
static void put_name(const char* s) { int i; for (i = 0; i < 15; i++) log_[log_len++] = ' '; for (i = 0; s[i]; i++) log_[log_len - 15 + i] = (uint8_t)s[i]; }
static int parse(IMemory* m)
{
    int code = 0;
    mdl_files[0].name = "gdb.txt"; mdl_files[0].data = log_; mdl_files[0].size = log_len; mdl_file_count = 1;
    CATCHING(code, GdbLogParse(m, &ctx, "gdb.txt"));
    OBLIGE(mdl_open_handles == 0 && mdl_fclose_calls == mdl_fopen_calls);
    return code;
}
static int mapped(IMemory* m, uint32_t a)
{
    int code = 0;
    CATCHING(code, MemorySim_MapSimulatedAddressToHostAddressForRead(m, a, 1));
    return code == 0;
}
static uint8_t not_newline[255];
static void init_text(void) { int i, n = 0; for (i = 0; i < 256; i++) if (i != '\n') not_newline[n++] = (uint8_t)i; }
static void put_any(int n) { while (n--) log_[log_len++] = not_newline[any_int(0, 254)]; }
