/* C20: a start-up that fails says so, keeps the exception, and leaves nothing behind. */
//! opts: -eva-partition-value __lj_active,mdl_io_failed,mdl_alloc_failed,mdl_live_allocs,mdl_open_handles
//! entry: t_read_hex -eva-split-return full
#include "h.h"
#include "load.h"

static int which_;
static void failed(int code)
{
    OBLIGE(code != 0);
    OBLIGE(mdl_saw_error == 1 && mdl_saw_usage == 1);
    OBLIGE(cl.pMemory == NULL);
    OBLIGE(mdl_live_allocs == 0 && mdl_open_handles == 0);
    CrashDebugCommandLine_Uninit(&cl);      /* harmless */
    OBLIGE(mdl_live_allocs == 0);
}
static void started(int code)
{
    OBLIGE(code == 0 && cl.pMemory != NULL);
    OBLIGE(mdl_err_lines == 0);
}
/* ---- faults: at any call ---- */
/* each open failing in turn */
void t_open(void)
{
    int code;
    PICK(image, 2); PICK(kind, 3);
    setup(image, kind, 1); alias();
    { PICK(nth, 5); mdl_fopen_fail_at = nth + 1; }
    code = init();
    if (mdl_io_failed) { OBLIGE(code == fileException); failed(code); MARK(failed); }
    else { started(code); MARK(started); }
}
/* each seek or size query failing in turn */
void t_seek(void)
{
    int code;
    PICK(image, 2);
    PICK(tell, 2);
    setup(image, LOG, 1);
    if (tell) { PICK(nth, 4); mdl_ftell_fail_at = nth + 1; } else { PICK(nth, 6); mdl_fseek_fail_at = nth + 1; }
    code = init();
    if (mdl_io_failed) { OBLIGE(code == fileException); failed(code); MARK(failed); }
    else { started(code); MARK(started); }
}
/* each allocation failing in turn */
void t_alloc(void)
{
    int code;
    PICK(image, 2); PICK(kind, 2);
    setup(image, kind == 0 ? LOG : BINARY, 1); alias();
    { PICK(nth, 24); mdl_alloc_fail_at = nth + 1; }
    code = init();
    if (mdl_alloc_failed) { OBLIGE(code == outOfMemoryException); failed(code); MARK(failed); }
    else { started(code); MARK(started); }
}
/* the same with a hexadecimal dump and an ELF image */
void t_alloc_hex(void)
{
    int code;
    setup(BIN, HEX, 1); alias();
    { PICK(nth, 20); mdl_alloc_fail_at = nth + 1; }
    code = init();
    if (mdl_alloc_failed) { OBLIGE(code == outOfMemoryException); failed(code); MARK(failed); }
    else { started(code); MARK(started); }
}
/* each read failing or cut short in turn */
void t_read(void)
{
    int code;
    PICK(image, 2); PICK(kind, 2); PICK(partial, 2);
    setup(image, kind == 0 ? LOG : BINARY, 1);
    mdl_fread_fail_partial = partial;
    { PICK(nth, 20); mdl_fread_fail_at = nth + 1; }
    code = init();
    if (mdl_io_failed) { OBLIGE(code == fileException || code == fileFormatException); failed(code); MARK(failed); }
    else { started(code); MARK(started); }
}
/* the same with a hexadecimal dump */
void t_read_hex(void)
{
    int code;
    setup(BIN, HEX, 1);
    mdl_fread_fail_at = any_int(1, 260);
    code = init();
    if (mdl_io_failed) { OBLIGE(code == fileException || code == fileFormatException); failed(code); MARK(failed); }
    else { started(code); MARK(started); }
}
/* ---- bad input ---- */
void t_missing_files(void)
{
    int code;
    PICK(image, 2); PICK(which, 2);
    setup(image, LOG, 1);
    mdl_files[which == 0 ? image : 2].missing = 1;
    code = init();
    OBLIGE(code == fileException);
    failed(code); MARK(failed);
}
/* dumps too short or of the wrong form */
void t_short_dump(void)
{
    int code;
    PICK(words, 27);
    setup(ELF, BINARY, 1);
    /* signature, flags, 19 registers, PSR = 22 words; header 2, data 1 */
    mdl_files[2].size = 4 * words;
    code = init();
    if (words == 22 || words == 25) { started(code); MARK(started); }
    else if (words < 25) {
        OBLIGE(code == (words == 0 ? 0 : fileFormatException));
        if (words > 0) { failed(code); MARK(failed); }
    }
}
/* a dump that only says that the stack overflowed */
void t_stack_overflow(void)
{
    int code;
    setup(BIN, BINARY, 1);
    w32(0xACCE55EDu);
    mdl_files[2].size = dump_len;
    code = init();
    OBLIGE(code == stackOverflowException);
    failed(code); MARK(failed);
}
/* an image that is no usable ELF file */
void t_bad_elf(void)
{
    int code;
    PICK(k, 6);
    setup(ELF, BINARY, 1);
    if (k == 0) elf[1] = (uint8_t)any_u8('F', 255);
    if (k == 1) *(uint16_t*)(elf + 16) = any_u16(3, 0xFFFF);
    if (k == 2) p32(28, any_u32(129, 0xFFFFFFFF));
    if (k == 3) p32(84 + 4, any_u32(129, 0xFFFFFFFF));      /* the second entry: the first is loaded already */
    if (k == 4) { p32(52, 0); p32(84, any_u32(2, 0xFFFFFFFF)); }
    if (k == 5) mdl_files[1].size = 0;
    code = init();
    OBLIGE(code == elfFormatException);
    failed(code); MARK(failed);
}
/* an alias of memory that does not exist */
void t_bad_alias(void)
{
    int code;
    PICK(k, 2);
    setup(BIN, LOG, 1);
    if (k) alias();
    arg("--alias"); arg("0x31000000"); arg("4"); arg("0x2000000c");
    code = init();
    OBLIGE(code == busErrorException);
    failed(code); MARK(failed);
}
/* unknown, incomplete and missing arguments */
void t_bad_arguments(void)
{
    int code;
    PICK(k, 7);
    setup(BIN, LOG, 1);
    if (k == 0) argn = 0;
    if (k == 1) argn = 1;
    if (k == 2) argn = 3;
    if (k == 3) argn = 4;
    if (k == 4) arg("--unknown");
    if (k == 5) arg("word");
    if (k == 6) { arg("--alias"); arg("0"); arg("0"); }
    code = init();
    OBLIGE(code == invalidArgumentException);
    failed(code); MARK(failed);
}
/* a failed start-up can be followed by a good one */
void t_retry(void)
{
    int code;
    setup(BIN, LOG, 1);
    PICK(k, 5);
    mdl_alloc_fail_at = k + 1;
    code = init();
    failed(code);
    mdl_alloc_fail_at = 0;
    code = init();
    OBLIGE(code == 0 && IMemory_Read32(cl.pMemory, 0x20000004u) == 0x22222222u);
    CrashDebugCommandLine_Uninit(&cl);
    OBLIGE(mdl_live_allocs == 0);
    MARK(retried);
}
