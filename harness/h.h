/* Common harness frame. One entry point per analysis run (-DENTRY=...). */
#ifndef H_H
#define H_H
#include <mdl.h>
#include <common.h>
#include <try_catch.h>
#include <IMemory.h>
#include <MemorySim.h>

/* pick one of n cases; every case is analysed separately */
#define PICK(var, n)  int var = Frama_C_interval_split(0, (n) - 1)

/* run a statement, code receives the exception code (0: none) */
#define CATCHING(code, stmt) \
    do { \
        __try { stmt; } \
        __catch { (code) = getExceptionCode(); clearExceptionCode(); } \
    } while (0)

void ENTRY(void);
void mdl_entry(void)
{
    ENTRY();
    OBLIGE(__lj_active == 0);   /* no throw left the catch blocks */
    MARK(end);
}
#endif
