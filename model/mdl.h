/* Shared declarations of the analysis model (see DESIGN.md, "Engine"). */
#ifndef MDL_H
#define MDL_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <__fc_builtin.h>

/* ---- obligations: decided at the call site by the abstract interpreter ---- */
/*@ requires obligation: c != 0; assigns \nothing; */
void mdl_oblige(int c);
#define OBLIGE(cond)  mdl_oblige(!!(cond))
/* every MARK must be reached by some abstract state, otherwise the obligations are vacuous */
#define MARK(name)    Frama_C_show_each_MARK_##name()

/* ---- lowered longjmp state (engine/lower.ml) ---- */
extern int   __lj_active;
extern void* __lj_target;
extern int   __lj_value;

/* ---- abstract inputs ---- */
#define any_u32(lo, hi)   ((uint32_t)Frama_C_unsigned_int_interval((unsigned)(lo), (unsigned)(hi)))
#define any_int(lo, hi)   Frama_C_int_interval((lo), (hi))
#define any_u8(lo, hi)    ((uint8_t)Frama_C_unsigned_int_interval((lo), (hi)))
#define any_u16(lo, hi)   ((uint16_t)Frama_C_unsigned_int_interval((lo), (hi)))
#define any_bool()        Frama_C_int_interval(0, 1)
#define any_bytes(p, n)   Frama_C_make_unknown((char*)(p), (n))

/* ---- heap ---- */
extern int mdl_live_allocs;      /* blocks currently allocated through the hooks */
extern int mdl_alloc_count;      /* allocations requested so far */
extern int mdl_alloc_fail_at;    /* 1-based request which fails, 0: none */
extern int mdl_alloc_failed;     /* number of requests refused */
extern size_t mdl_alloc_max;     /* larger requests are refused */

/* ---- files ---- */
#define MDL_FILES   4
#define MDL_HANDLES 6
typedef struct {
    const char*    name;    /* NULL: matches any name */
    const uint8_t* data;
    long           size;
    int            missing;
} MdlFile;
extern MdlFile mdl_files[MDL_FILES];
extern int mdl_file_count;
extern int mdl_open_handles;     /* opened and not yet closed */
extern int mdl_fopen_calls, mdl_fread_calls, mdl_fseek_calls, mdl_ftell_calls, mdl_fgets_calls, mdl_fclose_calls;
extern int mdl_fopen_fail_at, mdl_fread_fail_at, mdl_fseek_fail_at, mdl_ftell_fail_at, mdl_fgets_fail_at;
extern int mdl_fread_fail_partial;  /* the failing read delivers half of the data */
extern int mdl_io_failed;        /* number of operations that were made to fail */
extern int mdl_stream_eof, mdl_stream_err;  /* set by a harness's own fread: what feof and ferror say */
extern long mdl_ftell_fail_value;
extern const char* mdl_last_open_name;

/* ---- output ---- */
extern int mdl_err_lines;        /* fprintf(stderr,...) calls */
extern int mdl_out_lines;        /* printf / fprintf(stdout) calls */
extern int mdl_saw_error, mdl_saw_usage;
extern int mdl_keep_err_text;     /* expand every line into mdl_err_text */
extern char mdl_err_text[1200];  /* expansion of the first stderr line */

extern int mdl_exit_expected;
#endif
