/* C33: the allocation-failure mock refuses exactly the requested allocation. */
//! sources: libmocks/src/MallocFailureInject.c
//! models: mdl.c
//! defs: -DHEAP_MODEL
#include "h.h"
#include <MallocFailureInject.h>

/* the real allocator: records every call */
static char pool[300];
static int real_calls, last_kind;
static size_t last_size;
static void* last_ptr;
static int real_fails;          /* the real allocator is out of memory */
static void* give(void) { void* p = &pool[real_calls++]; return real_fails ? NULL : p; }
void* real_malloc(size_t size) { last_kind = 0; last_size = size; last_ptr = NULL; return give(); }
void* real_realloc(void* p, size_t size) { last_kind = 1; last_size = size; last_ptr = p; return give(); }
void* real_calloc(size_t n, size_t size) { last_kind = 3; return give(); }
void  real_free(void* p) { last_kind = 2; last_ptr = p; real_calls++; }

/* one call; tells whether it was refused, and checks that it is the real one otherwise */
static int refused(int kind, size_t size)
{
    int before = real_calls;
    void* p = kind ? hook_realloc(&pool[299], size) : hook_malloc(size);
    if (real_calls == before) {
        OBLIGE(p == NULL);
        return 1;
    }
    OBLIGE(real_calls == before + 1 && last_kind == kind && last_size == size);
    OBLIGE(last_ptr == (kind ? &pool[299] : NULL));
    OBLIGE(p == (real_fails ? NULL : &pool[before]));
    return 0;
}
static void release(void)
{
    int before = real_calls;
    hook_free(&pool[7]);
    OBLIGE(real_calls == before + 1 && last_kind == 2 && last_ptr == &pool[7]);
}
#define SIZE 0x12345678ul
/* nothing requested: everything passes */
void t_default(void)
{
    PICK(kind, 2);
    OBLIGE(!refused(kind, SIZE)); release(); OBLIGE(!refused(!kind, SIZE));
    MARK(real);
}
/* every position, every mix of both calls, releases in between do not count */
void t_mixed(void)
{
    int i;
    PICK(n, 7);
    MallocFailureInject_FailAllocation((unsigned)n);
    for (i = 1; i <= 6; i++) {
        PICK(kind, 2);
        OBLIGE(refused(kind, SIZE) == (i == n));
        release();
    }
    MallocFailureInject_Restore();
    OBLIGE(!refused(0, SIZE) && !refused(1, SIZE));
    release();
    MARK(struck);
}
/* a request far beyond the calls made */
void t_far(void)
{
    int i;
    PICK(n, 40);
    PICK(kind, 2);
    MallocFailureInject_FailAllocation((unsigned)n);
    for (i = 1; i <= 41; i++) OBLIGE(refused(kind, SIZE) == (i == n));
    MallocFailureInject_Restore();
    OBLIGE(!refused(kind, SIZE));
    MARK(struck);
}
/* any count beyond the calls made refuses nothing; any size is passed on */
void t_any_count(void)
{
    unsigned n = any_u32(6, 0xFFFFFFFF);
    int i;
    MallocFailureInject_FailAllocation(n);
    for (i = 0; i < 5; i++) OBLIGE(!refused(i & 1, SIZE + (size_t)i));
    MallocFailureInject_Restore();
    for (i = 0; i < 5; i++) OBLIGE(!refused(i & 1, SIZE + (size_t)i));
    MARK(real);
}
/* restore at any time, and start over: counting begins at the request */
void t_again(void)
{
    int i;
    PICK(n, 5); PICK(made, 5); PICK(restore, 2); PICK(n2, 4);
    MallocFailureInject_FailAllocation((unsigned)n);
    for (i = 1; i <= made; i++) OBLIGE(refused(i & 1, SIZE) == (i == n));
    if (restore) {
        MallocFailureInject_Restore();
        for (i = 1; i <= 6; i++) OBLIGE(!refused(i & 1, SIZE));
    }
    MallocFailureInject_FailAllocation((unsigned)n2);
    for (i = 1; i <= 5; i++) OBLIGE(refused(!(i & 1), SIZE) == (i == n2));
    MallocFailureInject_Restore();
    MallocFailureInject_Restore();
    for (i = 1; i <= 5; i++) OBLIGE(!refused(i & 1, SIZE));
    MARK(struck);
}
/* the real allocator's own refusals are passed on and count as calls */
void t_out_of_memory(void)
{
    int i;
    PICK(n, 4); PICK(hooked, 2);
    real_fails = 1;
    if (hooked) MallocFailureInject_FailAllocation((unsigned)n);
    for (i = 1; i <= 4; i++) OBLIGE(refused(i & 1, SIZE) == (hooked && i == n));
    MARK(real);
}
/* the hooks work with the sizes at the edges */
void t_sizes(void)
{
    static const size_t sizes[5] = {0, 1, 0x7FFFFFFFul, 0x100000000ul, 0xFFFFFFFFFFFFFFFFul};
    PICK(k, 5); PICK(kind, 2); PICK(n, 3);
    MallocFailureInject_FailAllocation((unsigned)n);
    OBLIGE(refused(kind, sizes[k]) == (n == 1));
    OBLIGE(refused(kind, sizes[k]) == (n == 2));
    MallocFailureInject_Restore();
    OBLIGE(!refused(kind, sizes[k]));
    MARK(struck);
}
