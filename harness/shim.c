/* Loaded into programs: now and then a thread waits where it allocates memory, so that
   schedules differ from run to run. */
#define _GNU_SOURCE
#include <sched.h>
#include <stddef.h>
#include <stdlib.h>
#include <unistd.h>
extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
static __thread unsigned x __attribute__((tls_model("initial-exec")));
static unsigned seeds = 12345;
static unsigned every = 97;
__attribute__((constructor)) static void init(void) { const char *e = getenv("RHX_EVERY"); if (e && atoi(e) > 0) every = atoi(e); }
static void wait_maybe(void) {
    if (x == 0) x = (__atomic_fetch_add(&seeds, 0x9E3779B9u, __ATOMIC_RELAXED) ^ (unsigned)getpid() * 2654435761u) | 1;
    x ^= x << 13; x ^= x >> 17; x ^= x << 5;
    if (x % every == 0) { if (x & 0x10000) usleep((x >> 8) % 150); else sched_yield(); }
}
void *malloc(size_t n) { wait_maybe(); return __libc_malloc(n); }
void *realloc(void *p, size_t n) { wait_maybe(); return __libc_realloc(p, n); }
