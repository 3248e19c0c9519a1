/* C23: a file operation or an allocation that fails ends the operation with the matching exception;
   without a failure everything is there. */
//! opts: -eva-partition-value __lj_active,mdl_io_failed,mdl_alloc_failed,mdl_live_allocs,mdl_open_handles
//! entry: t_load_read_hex -eva-split-return full
//! entry: t_hex -eva-split-return full
//! entry: t_any_number coarse without=mriPlatform.c without=CrashDebugCommandLine.c -eva-partition-value=-mdl_live_allocs,-mdl_alloc_failed,-mdl_io_failed,-mdl_open_handles,failed
#include "h.h"
#include "load.h"
#include <GdbLogParser.h>
#include <FileFailureInject.h>

static IMemory* m;
static int surfaced(int code)
{
    if (mdl_alloc_failed) { OBLIGE(code == outOfMemoryException); MARK(failed); return 0; }
    if (mdl_io_failed) { OBLIGE(code == fileException || code == fileFormatException); MARK(failed); return 0; }
    OBLIGE(code == 0);
    MARK(worked);
    return 1;
}
static void complete_log(IMemory* p)
{
    OBLIGE(IMemory_Read32(p, 0x20000000u) == 0x11111111u && IMemory_Read32(p, 0x20000004u) == 0x22222222u && IMemory_Read32(p, 0x20000008u) == 0x33333333u);
}
static void complete_dump(IMemory* p, int hex)
{
    if (hex) OBLIGE(IMemory_Read32(p, 0x20000000u) == 0xDEADBEEFu);
    OBLIGE(mapped_(p, 0x20000003u) && !mapped_(p, 0x20000004u));
    OBLIGE(mapped_(p, 0x20001003u) && !mapped_(p, 0x20001004u));
}
static void complete(int image, int kind)
{
    int i;
    if (image == BIN) { for (i = 0; i < 16; i += 4) OBLIGE(mapped_(cl.pMemory, 0x08000000u + i)); }
    else OBLIGE(mapped_(cl.pMemory, 0) && mapped_(cl.pMemory, 7) && mapped_(cl.pMemory, 0x10000003u));
    if (kind == LOG) { complete_log(cl.pMemory); OBLIGE(cl.context.R[R0] == 0x12345678u); }
    else complete_dump(cl.pMemory, kind == HEX);
}
/* ---- the whole start-up ---- */
/* start-up with each allocation failing in turn */
void t_load_alloc(void)
{
    PICK(image, 2); PICK(kind, 2);
    setup(image, kind == 0 ? LOG : BINARY, 2);
    { PICK(nth, 24); mdl_alloc_fail_at = nth + 1; }
    if (surfaced(init())) complete(image, kind == 0 ? LOG : BINARY);
}
/* start-up with each read failing or cut short in turn */
void t_load_read(void)
{
    PICK(image, 2); PICK(kind, 2); PICK(partial, 2);
    setup(image, kind == 0 ? LOG : BINARY, 2);
    mdl_fread_fail_partial = partial;
    { PICK(nth, 24); mdl_fread_fail_at = nth + 1; }
    if (surfaced(init())) complete(image, kind == 0 ? LOG : BINARY);
}
/* the same with a hexadecimal dump */
void t_load_read_hex(void)
{
    setup(BIN, HEX, 2);
    mdl_fread_fail_at = any_int(1, 300);
    if (surfaced(init())) complete(BIN, HEX);
}
/* start-up with each open failing in turn */
void t_load_open(void)
{
    int code;
    PICK(image, 2); PICK(kind, 3);
    setup(image, kind, 2);
    { PICK(nth, 5); mdl_fopen_fail_at = nth + 1; }
    code = init();
    if (mdl_io_failed) OBLIGE(code == fileException);
    if (surfaced(code)) complete(image, kind);
}
/* start-up with each seek or size query failing in turn */
void t_load_size(void)
{
    int code;
    PICK(image, 2); PICK(tell, 2);
    setup(image, LOG, 2);
    if (tell) { { PICK(nth, 4); mdl_ftell_fail_at = nth + 1; } mdl_ftell_fail_value = any_int(-1000, -1); }
    else { PICK(nth, 6); mdl_fseek_fail_at = nth + 1; }
    code = init();
    if (mdl_io_failed) OBLIGE(code == fileException);
    if (surfaced(code)) complete(image, LOG);
}
/* ---- each loader on its own ---- */
/* the log parser with each call failing in turn */
void t_log(void)
{
    int code = 0;
    PICK(fault, 2);
    setup(BIN, LOG, 1);
    m = MemorySim_Init();
    if (fault == 0) { PICK(nth, 8); mdl_alloc_fail_at = nth + 1; }
    if (fault == 1) { PICK(nth, 2); mdl_fopen_fail_at = nth + 1; }
    CATCHING(code, GdbLogParse(m, &ctx, "d"));
    if (surfaced(code)) complete_log(m);
}
/* the binary dump reader with each call failing in turn */
void t_binary(void)
{
    int code = 0;
    PICK(fault, 3);
    setup(BIN, BINARY, 2);
    m = MemorySim_Init();
    if (fault == 0) { PICK(nth, 8); mdl_alloc_fail_at = nth + 1; }
    if (fault == 1) { PICK(nth, 2); mdl_fopen_fail_at = nth + 1; }
    if (fault == 2) { PICK(nth, 24); mdl_fread_fail_at = nth + 1; }
    CATCHING(code, CrashCatcherDump_ReadBinary(m, &ctx, "d"));
    if (surfaced(code)) complete_dump(m, 0);
}
/* the hexadecimal dump reader with each call failing in turn */
void t_hex(void)
{
    int code = 0;
    PICK(fault, 3);
    setup(BIN, HEX, 2);
    m = MemorySim_Init();
    if (fault == 0) { PICK(nth, 8); mdl_alloc_fail_at = nth + 1; }
    if (fault == 1) { PICK(nth, 2); mdl_fopen_fail_at = nth + 1; }
    if (fault == 2) mdl_fread_fail_at = any_int(1, 300);
    CATCHING(code, CrashCatcherDump_ReadHex(m, &ctx, "d"));
    if (surfaced(code)) complete_dump(m, 1);
}
/* a read error on a line of a GDB log */
void t_log_line(void)
{
    int code = 0;
    PICK(k, 4);
    setup(BIN, LOG, 1);
    m = MemorySim_Init();
    mdl_fgets_fail_at = k + 1;
    CATCHING(code, GdbLogParse(m, &ctx, "d"));
    if (any_bool()) OBLIGE(code == fileException || code == fileFormatException);
}
/* ---- the memory map ---- */
static void op(int k, uint32_t a)
{
    int code = 0, before = mdl_alloc_failed;
    if (k == 0) CATCHING(code, MemorySim_CreateRegion(m, 0x28000000u, 16));
    if (k == 1) CATCHING(code, MemorySim_CreateAlias(m, 0x38000000u, 0x20000000u, 16));
    if (k == 2) CATCHING(code, MemorySim_MakeRegionReadOnly(m, 0x10000000u));
    if (k == 3) CATCHING(code, MemorySim_SetHardwareWatchpoint(m, a, 4, WATCHPOINT_READ));
    if (k == 4) CATCHING(code, MemorySim_SetHardwareBreakpoint(m, a, 2));
    if (k == 5) CATCHING(code, (void)MemorySim_GetMemoryMapXML(m));
    OBLIGE(code == (mdl_alloc_failed > before ? outOfMemoryException : 0));
    if (mdl_alloc_failed > before) MARK(failed); else MARK(worked);
}
/* each memory-map operation with each allocation failing in turn */
void t_map(void)
{
    PICK(k, 6); PICK(k2, 6); PICK(order, 2);
    m = MemorySim_Init();
    MemorySim_CreateRegion(m, 0x20000000u, 64);
    MemorySim_CreateRegion(m, 0x10000000u, 16);
    { PICK(nth, 7); mdl_alloc_fail_at = nth + 4; }
    mdl_alloc_count = 4;
    op(k, 0x20000020u);
    op(k2, order ? 0x20000010u : 0x20000030u);
    /* what was there still is */
    OBLIGE(mapped_(m, 0x2000003Fu) && mapped_(m, 0x1000000Fu));
    IMemory_Write32(m, 0x20000010u, 0x5555AAAAu);
    OBLIGE(IMemory_Read32(m, 0x20000010u) == 0x5555AAAAu);
}
/* flash images with each allocation failing in turn */
void t_flash_image(void)
{
    static const uint8_t flash[12] = {0x00, 0x01, 0x00, 0x10, 1, 2, 3, 4, 5, 6, 7, 8};
    int code = 0;
    m = MemorySim_Init();
    { PICK(nth, 8); mdl_alloc_fail_at = nth + 1; }
    CATCHING(code, MemorySim_CreateRegionsFromFlashImage(m, flash, sizeof(flash)));
    OBLIGE(code == (mdl_alloc_failed ? outOfMemoryException : 0));
    if (mdl_alloc_failed) MARK(failed); else { OBLIGE(mapped_(m, 11) && mapped_(m, 0x10000000u) && mapped_(m, 0x100000FFu)); MARK(worked); }
}
/* ---- file size ---- */
static uint8_t bytes[64];
/* the file size helper with each call failing in turn */
void t_size(void)
{
    int code = 0; long n = -5; FILE* f;
    PICK(tell, 2); PICK(size, 9);
    mdl_files[0].data = bytes; mdl_files[0].size = 8 * size; mdl_file_count = 1;
    f = fopen("x", "rb");
    if (tell) { { PICK(nth, 2); mdl_ftell_fail_at = nth + 1; } mdl_ftell_fail_value = any_int(-0x7FFFFFFF, -1); }
    else { PICK(nth, 3); mdl_fseek_fail_at = nth + 1; }
    CATCHING(code, n = GetFileSize(f));
    if (mdl_io_failed) { OBLIGE(code == fileException); MARK(failed); }
    else {
        OBLIGE(code == 0 && n == 8 * size);
        mdl_fseek_fail_at = mdl_ftell_fail_at = 0;
        OBLIGE(ftell(f) == 0);      /* reading starts at the beginning */
        MARK(worked);
    }
}
/* a read that fails after any number of others: reported, whatever was read before */
static int failed;
extern size_t (*hook_fread)(void* p, size_t size, size_t n, FILE* f);
static size_t fails_sometime(void* p, size_t size, size_t n, FILE* f)
{
    if (any_bool()) { failed = mdl_stream_err = 1; return 0; }
    any_bytes(p, size * n);
    return n;
}
void t_any_number(void)
{
    int code = 0;
    setup(BIN, BINARY, 0);
    m = MemorySim_Init();
    hook_fread = fails_sometime;
    CATCHING(code, CrashCatcherDump_ReadBinary(m, &ctx, "d"));
    if (failed) {
        OBLIGE(code != 0);
        MARK(failed);
    }
}
