/* C21: every file that is opened is closed exactly once, and only ever opened for reading.
   mdl_fopen/mdl_fclose/mdl_fread... oblige the mode, the handle and that it is open. */
//! opts: -eva-partition-value __lj_active,mdl_io_failed,mdl_alloc_failed,mdl_live_allocs,mdl_open_handles
//! entry: t_read_hex -eva-split-return full
//! entry: t_any_file coarse without=mriPlatform.c without=CrashDebugCommandLine.c -eva-partition-value=-mdl_live_allocs,-mdl_alloc_failed,-mdl_io_failed
#include "h.h"
#include "load.h"
#include <GdbLogParser.h>

static IMemory* m;
static void all_closed(int code)
{
    OBLIGE(mdl_open_handles == 0);
    if (code) MARK(failed); else MARK(worked);
}
/* each open failing in turn, every combination of image and dump kind */
void t_open(void)
{
    PICK(image, 2); PICK(kind, 3);
    setup(image, kind, 2);
    { PICK(nth, 5); mdl_fopen_fail_at = nth + 1; }
    all_closed(init());
}
/* each seek or size query failing in turn */
void t_seek(void)
{
    PICK(image, 2); PICK(tell, 2);
    setup(image, LOG, 1);
    if (tell) { PICK(nth, 4); mdl_ftell_fail_at = nth + 1; } else { PICK(nth, 6); mdl_fseek_fail_at = nth + 1; }
    all_closed(init());
}
/* each read failing or cut short in turn */
void t_read(void)
{
    PICK(image, 2); PICK(kind, 2); PICK(partial, 2);
    setup(image, kind == 0 ? LOG : BINARY, 2);
    mdl_fread_fail_partial = partial;
    { PICK(nth, 24); mdl_fread_fail_at = nth + 1; }
    all_closed(init());
}
/* the same with a hexadecimal dump */
void t_read_hex(void)
{
    setup(BIN, HEX, 1);
    mdl_fread_fail_at = any_int(1, 260);
    all_closed(init());
}
/* each line read of a log failing in turn */
void t_gets(void)
{
    setup(BIN, LOG, 1);
    PICK(n, 6);
    mdl_fgets_fail_at = n + 1;
    init();
    OBLIGE(mdl_open_handles == 0 && mdl_fclose_calls == mdl_fopen_calls);
}
/* each allocation failing in turn */
void t_alloc(void)
{
    PICK(image, 2); PICK(kind, 2);
    setup(image, kind == 0 ? LOG : BINARY, 2); alias();
    { PICK(nth, 24); mdl_alloc_fail_at = nth + 1; }
    all_closed(init());
}
/* dumps cut anywhere */
void t_cut(void)
{
    PICK(kind, 3);
    PICK(len, 30);
    setup(BIN, kind, 1);
    mdl_files[2].size = kind == LOG ? (len * (long)(sizeof(log_text) - 1)) / 29 : kind == HEX ? (len * 113) / 16 : 4 * len - (len % 4);
    all_closed(init());
}
/* dumps with any contents after the recognised part */
void t_any_binary(void)
{
    int i, code = 0;
    m = MemorySim_Init();
    PICK(where, 3); PICK(fp, 2);
    dump_len = 0;
    if (where == 0) { for (i = 0; i < 16; i++) w8(any_u8(0, 255)); }
    else {
        registers(2 + (where - 1), (uint32_t)fp, 1);
        w32(0x20000000u); w32(0x20000008u);
        w32(any_u32(0, 0xFFFFFFFF)); w32(any_u32(0, 0xFFFFFFFF));
        if (fp) w32(any_u32(0, 0xFFFFFFFF));
    }
    mdl_files[0].data = dump; mdl_files[0].size = dump_len; mdl_file_count = 1;
    CATCHING(code, CrashCatcherDump_ReadBinary(m, &ctx, "d"));
    OBLIGE(mdl_open_handles == 0 && mdl_fclose_calls == 1);
    if (code) MARK(failed); else MARK(worked);
}
/* any file whatever: any contents, any length, any read or seek failing at any time */
extern size_t (*hook_fread)(void* p, size_t size, size_t n, FILE* f);
extern char* (*hook_fgets)(char* p, int size, FILE* f);
extern int (*hook_fseek)(FILE* f, long offset, int whence);
static size_t any_read(void* p, size_t size, size_t n, FILE* f)
{
    size_t got = Frama_C_unsigned_long_interval(0, n);
    any_bytes(p, size * n);
    if (got < n) { mdl_stream_eof = any_bool(); mdl_stream_err = any_bool(); }
    return got;
}
static char* any_line(char* p, int size, FILE* f)
{
    if (any_bool()) return NULL;
    any_bytes(p, (unsigned long)size);
    p[any_int(0, size - 1)] = 0;
    p[size - 1] = 0;
    return p;
}
static int any_seek(FILE* f, long offset, int whence) { return -any_bool(); }
void t_any_file(void)
{
    int code = 0;
    PICK(kind, 3);
    setup(BIN, BINARY, 0);
    m = MemorySim_Init();
    hook_fread = any_read; hook_fgets = any_line; hook_fseek = any_seek;
    if (kind == LOG) CATCHING(code, GdbLogParse(m, &ctx, "d"));
    else if (kind == HEX) CATCHING(code, CrashCatcherDump_ReadHex(m, &ctx, "d"));
    else CATCHING(code, CrashCatcherDump_ReadBinary(m, &ctx, "d"));
    OBLIGE(mdl_open_handles == 0 && mdl_fclose_calls == 1);
    if (code) MARK(failed); else MARK(worked);
}
/* the loaders on their own, faults included */
void t_loaders(void)
{
    int code = 0;
    PICK(kind, 3); PICK(fault, 3);
    setup(BIN, kind, 2);
    m = MemorySim_Init();
    if (fault == 0) { PICK(nth, 8); mdl_alloc_fail_at = nth + 1; }
    if (fault == 1) { PICK(nth, 30); mdl_fread_fail_at = nth + 1; }
    if (fault == 2) mdl_fopen_fail_at = 1;
    if (kind == LOG) CATCHING(code, GdbLogParse(m, &ctx, "d"));
    else if (kind == HEX) CATCHING(code, CrashCatcherDump_ReadHex(m, &ctx, "d"));
    else CATCHING(code, CrashCatcherDump_ReadBinary(m, &ctx, "d"));
    all_closed(code);
}
