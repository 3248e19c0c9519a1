/* building abstract CrashCatcher dumps */
#include <CrashCatcher.h>
#include <CrashCatcherDump.h>
#include <string.h>
static uint32_t dumpw[160];                     /* word cells keep abstract words intact through reads */
#define dump ((uint8_t*)dumpw)
static long dump_len;
static RegisterContext ctx;
static void w32(uint32_t v) { *(uint32_t*)(dump + dump_len) = v; dump_len += 4; }
static void w8(uint8_t v) { dump[dump_len++] = v; }
static void signature(int v) { w8('c'); w8('C'); w8((uint8_t)v); w8(0); }
static uint32_t regtag(int i) { return 0x01000000u * (uint32_t)(i + 1); }
/* registers with value ranges that do not overlap: [tag, tag + 0xFFFFFF] */
static void registers(int v, uint32_t flags, int abstract)
{
    int i, n = v == 2 ? 17 : 19;
    signature(v);
    w32(flags);
    for (i = 0; i < n; i++) w32(abstract ? any_u32(regtag(i), regtag(i) + 0xFFFFFF) : regtag(i) + 0x12345);
    w32(abstract ? any_u32(regtag(30), regtag(30) + 0xFFFFFF) : regtag(30) + 3);
    if (flags & 1) for (i = 0; i < 33; i++) w32(abstract ? any_u32(regtag(40 + i), regtag(40 + i) + 0xFFFFFF) : regtag(40 + i) + 0x777);
}
static int in(uint32_t v, int tag) { return v >= regtag(tag) && v <= regtag(tag) + 0xFFFFFF; }
static void use_file(const char* name, long size)
{
    mdl_files[0].name = name; mdl_files[0].data = dump; mdl_files[0].size = size; mdl_file_count = 1;
}
static int mapped(IMemory* m, uint32_t a)
{
    int code = 0;
    CATCHING(code, MemorySim_MapSimulatedAddressToHostAddressForRead(m, a, 1));
    return code == 0;
}
static int read_dump(IMemory* m, int hex)
{
    int code = 0;
    if (hex) CATCHING(code, CrashCatcherDump_ReadHex(m, &ctx, "crash.dmp"));
    else CATCHING(code, CrashCatcherDump_ReadBinary(m, &ctx, "crash.dmp"));
    OBLIGE(mdl_open_handles == 0);
    return code;
}
/* the hexadecimal form of dump[0..dump_len) */
static uint8_t hextext[1400]; static long hex_len;
static void to_hex(int upper, int every, int crlf)
{
    long i; const char* d = upper ? "0123456789ABCDEF" : "0123456789abcdef"; int col = 0;
    hex_len = 0;
    for (i = 0; i < dump_len; i++) {
        int k;
        for (k = 0; k < 2; k++) {
            hextext[hex_len++] = (uint8_t)d[k ? dump[i] & 15 : dump[i] >> 4];
            if (every && ++col == every) { col = 0; if (crlf & 1) hextext[hex_len++] = '\r'; if (crlf & 2) hextext[hex_len++] = '\n'; if (crlf & 4) hextext[hex_len++] = '\n'; }
        }
    }
    mdl_files[0].data = hextext; mdl_files[0].size = hex_len; mdl_file_count = 1;
}
