/*
 * simos - the operating system seam of the simulator (LD_PRELOAD library).
 *
 * Everything below is inert until switched on through the sim_*() functions
 * which the simulator calls via ctypes:
 *
 *  - memory:    tracking of live blocks, guard bytes, fill patterns of fresh and
 *               released memory, failing of chosen allocations
 *  - files:     open/read faults on the watched directory
 *  - clock:     shifted wall clock
 *  - scheduler: one running thread at a time, every switch decided by a seeded
 *               generator or by a replayed script
 */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <pthread.h>
#include <semaphore.h>
#include <malloc.h>

#define EXPORT __attribute__((visibility("default")))
#define NOINSTR __attribute__((no_instrument_function))

/* ------------------------------------------------------------------ memory */

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);

static volatile int guard_on = 0;       /* guard bytes + fill patterns */
static volatile int track_on = 0;       /* table of live blocks */
static volatile int fail_on = 0;        /* count and fail eligible allocations */
static volatile uint64_t fill_new = 0, fill_old = 0;
static volatile int fill_enabled = 0;

static __thread int depth = 0;          /* nesting in the instrumented code */
static __thread int busy = 0;           /* inside of the simulator itself */

#define FOOT_MAGIC 0x5e1f600d0c0ffee1ULL
/* guard bytes giving visible values if read as numbers, different for different fill patterns */
static volatile unsigned char guard_byte = 0xC1;
#define GUARD_MIN 32
struct footer { size_t size; uint64_t magic; };

EXPORT volatile long sim_corruptions = 0;
EXPORT volatile long sim_bad_size = 0;        /* the last overrun block: size, position, */
EXPORT volatile long sim_bad_offset = 0;      /* and the caller which released it */
EXPORT volatile long sim_bad_caller = 0;
EXPORT volatile long sim_alloc_seen = 0;      /* eligible allocations seen */
EXPORT volatile long sim_alloc_failed = 0;    /* eligible allocations failed */

/* ranges of the modules */
#define MAXR 64
struct range { uintptr_t lo, hi; int cls; };
static struct range ranges[MAXR];
static int nranges = 0;
static int eligible_mask = 0;

static int classify(uintptr_t a)
{
    for (int i = 0; i < nranges; ++i)
        if (a >= ranges[i].lo && a < ranges[i].hi) return ranges[i].cls;
    return 0;
}

struct rctx { const char *name; int cls; };

static int add_range_cb(struct dl_phdr_info *info, size_t size, void *data)
{
    struct rctx *c = data;
    (void)size;
    const char *nm = info->dlpi_name;
    if (c->name[0] == '\0' ? (nm[0] != '\0') : (strstr(nm, c->name) == NULL)) return 0;
    for (int i = 0; i < info->dlpi_phnum; ++i) {
        const ElfW(Phdr) *p = &info->dlpi_phdr[i];
        if (p->p_type == PT_LOAD && (p->p_flags & PF_X) && nranges < MAXR) {
            ranges[nranges].lo = info->dlpi_addr + p->p_vaddr;
            ranges[nranges].hi = ranges[nranges].lo + p->p_memsz;
            ranges[nranges].cls = c->cls;
            nranges++;
        }
    }
    if (c->name[0] == '\0') return 1;
    return 0;
}

/* register code range of the modules matching the name ("" = main executable) */
EXPORT int sim_add_module(const char *name, int cls)
{
    int n0 = nranges;
    struct rctx c = { name, cls };
    dl_iterate_phdr(add_range_cb, &c);
    return nranges - n0;
}

/* failing plan: 1-based indices of the eligible allocations which fail;
   a negative index -k means that the k-th and all following fail */
#define MAXPLAN 64
static long plan[MAXPLAN];
static int nplan = 0;
static size_t fail_min_size = 0;

EXPORT void sim_alloc_plan(int mask, const long *idx, int n, size_t min_size)
{
    eligible_mask = mask;
    nplan = n > MAXPLAN ? MAXPLAN : n;
    for (int i = 0; i < nplan; ++i) plan[i] = idx[i];
    sim_alloc_seen = 0;
    sim_alloc_failed = 0;
    fail_min_size = min_size;
    fail_on = 1;
}

EXPORT void sim_alloc_plan_off(void) { fail_on = 0; }

static int should_fail(size_t size, uintptr_t caller)
{
    if (!fail_on || busy || depth <= 0) return 0;
    int cls = classify(caller);
    if (!(cls & eligible_mask)) return 0;
    /* small allocations are failed only when made by the code itself */
    if (!(cls & 1) && size < fail_min_size) return 0;
    long k = __sync_add_and_fetch(&sim_alloc_seen, 1);
    for (int i = 0; i < nplan; ++i)
        if (plan[i] == k || (plan[i] < 0 && k >= -plan[i])) {
            __sync_add_and_fetch(&sim_alloc_failed, 1);
            return 1;
        }
    return 0;
}

/* objects of the interpreter allocated by the native code */
typedef struct { void *ctx; void *(*malloc)(void*, size_t); void *(*calloc)(void*, size_t, size_t);
                 void *(*realloc)(void*, void*, size_t); void (*free)(void*, void*); } pyalloc_t;
static pyalloc_t py_orig[3];
#include <execinfo.h>

/* classes 16 (direct) and 32 (through numpy) */
static int obj_class(void)
{
    void *addr[24];
    int cls = 0;
    busy++;
    int n = backtrace(addr, 24);
    busy--;
    for (int i = 0; i < n && !cls; ++i) {
        int c = classify((uintptr_t)addr[i]);
        if (c == 1) cls = 16;
        else if (c == 2) cls = 32;
    }
    return cls;
}

static int obj_fail(void)
{
    if (!fail_on || busy || depth <= 0 || !(eligible_mask & 48)) return 0;
    if (!(obj_class() & eligible_mask)) return 0;
    long k = __sync_add_and_fetch(&sim_alloc_seen, 1);
    for (int i = 0; i < nplan; ++i)
        if (plan[i] == k || (plan[i] < 0 && k >= -plan[i])) {
            __sync_add_and_fetch(&sim_alloc_failed, 1);
            return 1;
        }
    return 0;
}

static void *obj_malloc(void *c, size_t n) { pyalloc_t *o = c; return obj_fail() ? NULL : o->malloc(o->ctx, n); }
static void *obj_calloc(void *c, size_t n, size_t m) { pyalloc_t *o = c; return obj_fail() ? NULL : o->calloc(o->ctx, n, m); }
static void *obj_realloc(void *c, void *p, size_t n) { pyalloc_t *o = c; return obj_fail() ? NULL : o->realloc(o->ctx, p, n); }
static void obj_free(void *c, void *p) { pyalloc_t *o = c; o->free(o->ctx, p); }

/* objects of the interpreter taken from its free lists: the calls made by the
   instrumented modules are redirected here (ld --wrap), so that they can fail too */
typedef void pyobj;
static int wrap_fail(void)
{
    if (!fail_on || busy || depth <= 0 || !(eligible_mask & 16)) return 0;
    long k = __sync_add_and_fetch(&sim_alloc_seen, 1);
    for (int i = 0; i < nplan; ++i)
        if (plan[i] == k || (plan[i] < 0 && k >= -plan[i])) {
            __sync_add_and_fetch(&sim_alloc_failed, 1);
            return 1;
        }
    return 0;
}

static pyobj *wrap_error(pyobj *obj)
{
    static void (*decref)(pyobj*) = NULL;
    static pyobj *(*nomem)(void) = NULL;
    if (!decref) {
        decref = (void(*)(pyobj*))dlsym(RTLD_DEFAULT, "Py_DecRef");
        nomem = (pyobj*(*)(void))dlsym(RTLD_DEFAULT, "PyErr_NoMemory");
    }
    if (obj) decref(obj);
    return nomem();
}

static pyobj *wrap_build(const char *name, const char *format, va_list ap)
{
    pyobj *(*build)(const char*, va_list) = (pyobj*(*)(const char*, va_list))dlsym(RTLD_DEFAULT, name);
    /* the decision is made first, the real call may allocate objects too */
    int failed = wrap_fail();
    fail_on = failed ? 0 : fail_on;
    pyobj *obj = build(format, ap);
    if (failed) { fail_on = 1; return wrap_error(obj); }
    return obj;
}

EXPORT pyobj *__wrap_Py_BuildValue(const char *format, ...)
{
    va_list ap;
    va_start(ap, format);
    pyobj *obj = wrap_build("Py_VaBuildValue", format, ap);
    va_end(ap);
    return obj;
}

EXPORT pyobj *__wrap__Py_BuildValue_SizeT(const char *format, ...)
{
    va_list ap;
    va_start(ap, format);
    pyobj *obj = wrap_build("_Py_VaBuildValue_SizeT", format, ap);
    va_end(ap);
    return obj;
}

#define WRAP(name, type) \
EXPORT pyobj *__wrap_##name(type arg) \
{ \
    static pyobj *(*real)(type) = NULL; \
    if (!real) real = (pyobj*(*)(type))dlsym(RTLD_DEFAULT, #name); \
    return wrap_fail() ? wrap_error(NULL) : real(arg); \
}
WRAP(PyFloat_FromDouble, double)
WRAP(PyTuple_New, ptrdiff_t)
WRAP(PyList_New, ptrdiff_t)

EXPORT int sim_obj_hook(void)
{
    void (*get)(int, pyalloc_t*) = (void(*)(int, pyalloc_t*))dlsym(RTLD_DEFAULT, "PyMem_GetAllocator");
    void (*set)(int, pyalloc_t*) = (void(*)(int, pyalloc_t*))dlsym(RTLD_DEFAULT, "PyMem_SetAllocator");
    void *addr[4];
    if (!get || !set) return -1;
    backtrace(addr, 4);
    for (int dom = 1; dom < 3; ++dom) {
        get(dom, &py_orig[dom]);
        pyalloc_t mine = { &py_orig[dom], obj_malloc, obj_calloc, obj_realloc, obj_free };
        set(dom, &mine);
    }
    return 0;
}

/* table of the live blocks */
#define TBITS 21
#define TSIZE (1UL << TBITS)
struct ent { void *p; size_t size; uintptr_t caller; long seq; };
static struct ent *tab = NULL;
static volatile int tlock = 0;
static long tseq = 0;
static volatile long live_blocks = 0, live_bytes = 0;

static void lock_t(void) { while (__sync_lock_test_and_set(&tlock, 1)) ; }
static void unlock_t(void) { __sync_lock_release(&tlock); }
static size_t hash_p(void *p) { return (((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL) >> (64 - TBITS); }

static void track_add(void *p, size_t size, uintptr_t caller)
{
    lock_t();
    size_t i = hash_p(p);
    for (size_t k = 0; k < TSIZE; ++k, i = (i + 1) & (TSIZE - 1))
        if (tab[i].p == NULL || tab[i].p == (void*)1 || tab[i].p == p) {
            if (tab[i].p != p) { live_blocks++; live_bytes += size; }
            tab[i].p = p; tab[i].size = size; tab[i].caller = caller; tab[i].seq = ++tseq;
            break;
        }
    unlock_t();
}

static int track_del(void *p)
{
    int found = 0;
    lock_t();
    size_t i = hash_p(p);
    for (size_t k = 0; k < TSIZE; ++k, i = (i + 1) & (TSIZE - 1)) {
        if (tab[i].p == p) {
            tab[i].p = (void*)1; live_blocks--; live_bytes -= tab[i].size; found = 1;
            break;
        }
        if (tab[i].p == NULL) break;
    }
    unlock_t();
    return found;
}

EXPORT void sim_track(int on)
{
    if (on) {
        if (!tab) tab = __libc_calloc(TSIZE, sizeof(struct ent));
        else memset(tab, 0, TSIZE * sizeof(struct ent));
        live_blocks = live_bytes = 0; tseq = 0;
    }
    track_on = on;
}

EXPORT long sim_live_blocks(void) { return live_blocks; }
EXPORT long sim_live_bytes(void) { return live_bytes; }

/* live blocks allocated from the modules of the given classes */
EXPORT long sim_live_of(int mask)
{
    long n = 0;
    if (!tab) return 0;
    for (size_t i = 0; i < TSIZE; ++i)
        if (tab[i].p && tab[i].p != (void*)1 && (classify(tab[i].caller) & mask)) n++;
    return n;
}

static void foot_set(void *p, size_t size)
{
    size_t us = malloc_usable_size(p);
    unsigned char b = guard_byte;
    struct footer f = { size, FOOT_MAGIC ^ (uintptr_t)p ^ ((uint64_t)b << 56) };
    memset((char*)p + size, b, us - size - sizeof(f));
    memcpy((char*)p + us - sizeof(f), &f, sizeof(f));
}

/* returns the requested size or -1 if the block has no footer */
static long foot_check(void *p, uintptr_t caller)
{
    size_t us = malloc_usable_size(p);
    struct footer f;
    if (us < sizeof(f)) return -1;
    memcpy(&f, (char*)p + us - sizeof(f), sizeof(f));
    uint64_t left = f.magic ^ FOOT_MAGIC ^ (uintptr_t)p;
    unsigned char b = (unsigned char)(left >> 56);
    if ((left << 8) != 0 || b < 0x40 || f.size > us - sizeof(f)) return -1;
    for (size_t i = f.size; i < us - sizeof(f); ++i)
        if (((unsigned char*)p)[i] != b) {
            __sync_add_and_fetch(&sim_corruptions, 1);
            sim_bad_size = (long)f.size; sim_bad_offset = (long)i; sim_bad_caller = (long)caller;
            break;
        }
    return (long)f.size;
}

static void foot_clear(void *p)
{
    size_t us = malloc_usable_size(p);
    memset((char*)p + us - sizeof(struct footer), 0, sizeof(struct footer));
}

static void fill(void *p, size_t from, size_t to, uint64_t pat)
{
    unsigned char *b = p;
    for (size_t i = from; i < to; ++i) b[i] = (unsigned char)(pat >> (8*(i & 7)));
}

static void *after_alloc(void *p, size_t size, size_t from, uintptr_t caller)
{
    if (!p) return p;
    if (guard_on) foot_set(p, size);
    if (fill_enabled && from < size) fill(p, from, size, fill_new);
    if (track_on && !busy) track_add(p, size, caller);
    return p;
}

#define CALLER ((uintptr_t)__builtin_return_address(0))

EXPORT NOINSTR void *malloc(size_t size)
{
    uintptr_t c = CALLER;
    if (fail_on && should_fail(size, c)) { errno = ENOMEM; return NULL; }
    if (!guard_on && !track_on && !fill_enabled) return __libc_malloc(size);
    if (size > SIZE_MAX - 4096) { errno = ENOMEM; return NULL; }
    return after_alloc(__libc_malloc(guard_on ? size + GUARD_MIN + sizeof(struct footer) : size), size, 0, c);
}

EXPORT NOINSTR void *calloc(size_t n, size_t m)
{
    uintptr_t c = CALLER;
    size_t size;
    if (__builtin_mul_overflow(n, m, &size)) { errno = ENOMEM; return NULL; }
    if (fail_on && should_fail(size, c)) { errno = ENOMEM; return NULL; }
    if (!guard_on && !track_on) return __libc_calloc(n, m);
    if (size > SIZE_MAX - 4096) { errno = ENOMEM; return NULL; }
    return after_alloc(__libc_calloc(1, guard_on ? size + GUARD_MIN + sizeof(struct footer) : size), size, size, c);
}

EXPORT NOINSTR void free(void *p)
{
    if (!p) return;
    if (guard_on) {
        long size = foot_check(p, (uintptr_t)__builtin_return_address(0));
        if (size >= 0) {
            if (fill_enabled) fill(p, 0, (size_t)size, fill_old);
            foot_clear(p);
        }
    }
    if (track_on && !busy) track_del(p);
    __libc_free(p);
}

EXPORT NOINSTR void *realloc(void *p, size_t size)
{
    uintptr_t c = CALLER;
    if (fail_on && should_fail(size, c)) { errno = ENOMEM; return NULL; }
    if (!guard_on && !track_on) return __libc_realloc(p, size);
    if (!p) return after_alloc(__libc_malloc(guard_on ? size + GUARD_MIN + sizeof(struct footer) : size), size, 0, c);
    if (size == 0 || size > SIZE_MAX - 4096) {
        if (size == 0) { free(p); return NULL; }
        errno = ENOMEM; return NULL;
    }
    long old = guard_on ? foot_check(p, c) : -1;
    if (old >= 0) foot_clear(p);
    void *q = __libc_realloc(p, guard_on ? size + GUARD_MIN + sizeof(struct footer) : size);
    if (!q) {
        if (old >= 0) foot_set(p, (size_t)old);
        return NULL;
    }
    if (track_on && !busy) track_del(p);
    return after_alloc(q, size, old >= 0 && (size_t)old < size ? (size_t)old : size, c);
}

EXPORT NOINSTR void *reallocarray(void *p, size_t n, size_t m)
{
    size_t size;
    if (__builtin_mul_overflow(n, m, &size)) { errno = ENOMEM; return NULL; }
    return realloc(p, size);
}

EXPORT NOINSTR void *memalign(size_t al, size_t size)
{
    return after_alloc(__libc_memalign(al, guard_on ? size + GUARD_MIN + sizeof(struct footer) : size), size, 0, CALLER);
}

EXPORT NOINSTR void *aligned_alloc(size_t al, size_t size)
{
    return after_alloc(__libc_memalign(al, guard_on ? size + GUARD_MIN + sizeof(struct footer) : size), size, 0, CALLER);
}

EXPORT NOINSTR int posix_memalign(void **out, size_t al, size_t size)
{
    void *p = after_alloc(__libc_memalign(al, guard_on ? size + GUARD_MIN + sizeof(struct footer) : size), size, 0, CALLER);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}

EXPORT void sim_guard(int on) { guard_on = on; }
EXPORT void sim_fill(int on, uint64_t fresh, uint64_t released)
{
    static const unsigned char bytes[4] = { 0xC1, 0x41, 0x42, 0xC3 };
    guard_byte = bytes[((fresh ^ (released >> 3)) * 0x9E3779B97F4A7C15ULL) >> 62];
    fill_new = fresh; fill_old = released; fill_enabled = on;
}

/* verify the guard bytes of all live tracked blocks */
EXPORT long sim_check_live(void)
{
    if (!tab || !guard_on) return 0;
    long before = sim_corruptions;
    for (size_t i = 0; i < TSIZE; ++i)
        if (tab[i].p && tab[i].p != (void*)1) foot_check(tab[i].p, tab[i].caller);
    return sim_corruptions - before;
}

/* --------------------------------------------------------------- scheduler */

#define MAXT 16
#define MAXSCRIPT 65536
static volatile int sched_on = 0;
static int nthreads = 0, current = -1;
static sem_t tsem[MAXT], done_sem;
static volatile int tstate[MAXT];       /* 0 none, 1 runnable, 2 blocked, 3 finished */
static __thread int my_id = -1;
static uint64_t rng_state;
static double p_switch = 0.1;
static long step = 0, nscript = 0, iscript = 0, nlog = 0;
static int use_script = 0;
static long *script = NULL;             /* pairs step, thread */
static long *slog = NULL;
static long c_yields = 0;
static int deadlock = 0;
static int (*gil_check)(void) = NULL;

static uint64_t rng_next(void)
{
    uint64_t z = (rng_state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

EXPORT int sim_sched_init(int n, uint64_t seed, double p, const long *scr, long scr_len, int scripted)
{
    if (n > MAXT) return -1;
    nthreads = n; rng_state = seed; p_switch = p; step = 0; iscript = 0; nlog = 0;
    c_yields = 0; deadlock = 0; current = -1;
    if (!script) script = __libc_malloc(sizeof(long)*2*MAXSCRIPT);
    if (!slog) slog = __libc_malloc(sizeof(long)*2*MAXSCRIPT);
    nscript = scr_len > MAXSCRIPT ? MAXSCRIPT : scr_len;
    if (nscript) memcpy(script, scr, sizeof(long)*2*nscript);
    use_script = scripted;
    for (int i = 0; i < n; ++i) { sem_init(&tsem[i], 0, 0); tstate[i] = 1; }
    sem_init(&done_sem, 0, 0);
    if (!gil_check) gil_check = (int(*)(void))dlsym(RTLD_DEFAULT, "PyGILState_Check");
    return 0;
}

static int pick(int forced)
{
    int cand[MAXT], n = 0;
    for (int i = 0; i < nthreads; ++i) if (tstate[i] == 1) cand[n++] = i;
    if (n == 0) return -1;
    int cur_ok = !forced && current >= 0 && tstate[current] == 1;
    int choice;
    if (use_script) {
        choice = cur_ok ? current : cand[0];
        while (iscript < nscript && script[2*iscript] < step) iscript++;
        if (iscript < nscript && script[2*iscript] == step) {
            int want = (int)script[2*iscript + 1];
            if (want >= 0 && want < nthreads && tstate[want] == 1) choice = want;
            iscript++;
        }
    } else {
        choice = cur_ok ? current : -1;
        double u = (double)(rng_next() >> 11) / 9007199254740992.0;
        if (choice < 0 || u < p_switch) choice = cand[rng_next() % (uint64_t)n];
    }
    if (choice != current && nlog < MAXSCRIPT) {
        slog[2*nlog] = step; slog[2*nlog + 1] = choice; nlog++;
    }
    return choice;
}

static void wait_me(int id) { while (sem_wait(&tsem[id]) && errno == EINTR) ; }

EXPORT void sim_sched_enter(int id)
{
    my_id = id;
    wait_me(id);
}

/* start the threads and wait for all of them; 0 ok, 1 stalled, 2 deadlock */
EXPORT int sim_sched_run(double timeout)
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    ts.tv_sec += (time_t)timeout;
    sched_on = 1;
    step++;
    current = pick(1);
    sem_post(&tsem[current]);
    int rc;
    while ((rc = sem_clockwait(&done_sem, CLOCK_MONOTONIC, &ts)) && errno == EINTR) ;
    sched_on = 0;
    if (rc) return 1;
    return deadlock ? 2 : 0;
}

static void switch_to(int next, int me)
{
    current = next;
    if (next == me) return;
    sem_post(&tsem[next]);
    wait_me(me);
}

EXPORT void sim_sched_yield(void)
{
    int me = my_id;
    if (!sched_on || me < 0) return;
    step++;
    switch_to(pick(0), me);
}

/* the calling thread waits until unblocked by another one; 1 if all are blocked */
EXPORT int sim_sched_block(void)
{
    int me = my_id;
    if (!sched_on || me < 0) return 1;
    tstate[me] = 2;
    step++;
    int next = pick(1);
    if (next < 0) { deadlock = 1; tstate[me] = 1; return 1; }
    current = next;
    sem_post(&tsem[next]);
    wait_me(me);
    return 0;
}

EXPORT void sim_sched_unblock(int id) { if (id >= 0 && id < nthreads && tstate[id] == 2) tstate[id] = 1; }
EXPORT int sim_sched_me(void) { return (sched_on ? my_id : -1); }

EXPORT void sim_sched_exit(void)
{
    int me = my_id;
    if (me < 0) return;
    tstate[me] = 3;
    my_id = -1;
    step++;
    int next = pick(1);
    if (next >= 0) { current = next; sem_post(&tsem[next]); return; }
    for (int i = 0; i < nthreads; ++i)
        if (tstate[i] == 2) { deadlock = 1; tstate[i] = 1; current = i; sem_post(&tsem[i]); return; }
    sem_post(&done_sem);
}

EXPORT long sim_sched_steps(void) { return step; }
EXPORT long sim_sched_cyields(void) { return c_yields; }
EXPORT long sim_sched_log(long *out, long max)
{
    long n = nlog < max ? nlog : max;
    memcpy(out, slog, sizeof(long)*2*n);
    return n;
}

/* yield point of the native code running without the interpreter lock */
static void native_yield(void)
{
    if (!sched_on || my_id < 0 || busy || !gil_check) return;
    busy = 1;
    int held = gil_check();
    busy = 0;
    if (held) return;
    c_yields++;
    sim_sched_yield();
}

/* hooks of the instrumented native code */
EXPORT NOINSTR void __cyg_profile_func_enter(void *f, void *c)
{
    (void)f; (void)c;
    depth++;
    if (sched_on) native_yield();
}

EXPORT NOINSTR void __cyg_profile_func_exit(void *f, void *c)
{
    (void)f; (void)c;
    if (depth > 0) depth--;
}

EXPORT int sim_depth(void) { return depth; }

/* ------------------------------------------------------------------- files */

#define MAXFD 4096
static char watch[1024] = "";
static size_t watch_len = 0;
static volatile int io_on = 0;
static unsigned char fd_watched[MAXFD];
EXPORT volatile long sim_io_ops = 0;          /* watched operations seen */
EXPORT volatile long sim_io_fired[16];        /* faults injected by kind */
enum { IO_NONE, IO_EIO, IO_EINTR, IO_SHORT, IO_EOF, IO_ENOENT, IO_EACCES, IO_EMFILE, IO_ENOMEM, IO_STALE };
#define MAXIO 4096
struct iofault { long op; int kind; long arg; };
static struct iofault iof[MAXIO];
static int niof = 0;
static long every_short = 0;                  /* all reads limited to n bytes */
static long eof_at = -1;                      /* content ends at this offset */
EXPORT volatile long sim_open_fds = 0;

EXPORT void sim_watch(const char *prefix)
{
    strncpy(watch, prefix, sizeof(watch) - 1);
    watch_len = strlen(watch);
    memset(fd_watched, 0, sizeof(fd_watched));
    sim_open_fds = 0;
}

EXPORT void sim_io_plan(const long *ops, const int *kinds, const long *args, int n, long short_all, long eof)
{
    niof = n > MAXIO ? MAXIO : n;
    for (int i = 0; i < niof; ++i) { iof[i].op = ops[i]; iof[i].kind = kinds[i]; iof[i].arg = args[i]; }
    sim_io_ops = 0;
    every_short = short_all;
    eof_at = eof;
    for (int i = 0; i < 16; ++i) sim_io_fired[i] = 0;
    io_on = 1;
}

EXPORT void sim_io_off(void) { io_on = 0; }

static int is_watched(const char *path)
{
    if (!watch_len || !path) return 0;
    if (path[0] == '/') return strncmp(path, watch, watch_len) == 0;
    /* relative path - the working directory is checked */
    char cwd[1024];
    busy++;
    char *r = getcwd(cwd, sizeof(cwd));
    busy--;
    return r && strncmp(cwd, watch, watch_len - 1) == 0;
}

/* next operation: returns the fault to inject */
static struct iofault *next_op(void)
{
    if (!io_on) return NULL;
    long k = ++sim_io_ops;
    for (int i = 0; i < niof; ++i)
        if (iof[i].op == k) return &iof[i];
    return NULL;
}

static int open_errno(int kind)
{
    switch (kind) {
        case IO_EIO: return EIO;
        case IO_ENOENT: return ENOENT;
        case IO_EACCES: return EACCES;
        case IO_EMFILE: return EMFILE;
        case IO_ENOMEM: return ENOMEM;
        case IO_STALE: return ESTALE;
        case IO_EINTR: return EINTR;
    }
    return 0;
}

static int read_errno(int kind)
{
    switch (kind) {
        case IO_EIO: return EIO;
        case IO_STALE: return ESTALE;
        case IO_ENOMEM: return ENOMEM;
    }
    return 0;
}

#define REAL(name) ({ static __typeof__(&name) fp; if (!fp) fp = (__typeof__(&name))dlsym(RTLD_NEXT, #name); fp; })

static int pre_open(const char *path)
{
    if (!io_on || !is_watched(path)) return 0;
    native_yield();
    struct iofault *f = next_op();
    if (f) {
        int e = open_errno(f->kind);
        if (e) { sim_io_fired[f->kind]++; errno = e; return -1; }
    }
    return 1;
}

static int post_open(int fd, const char *path)
{
    if (fd >= 0 && fd < MAXFD && is_watched(path)) {
        if (!fd_watched[fd]) __sync_add_and_fetch(&sim_open_fds, 1);
        fd_watched[fd] = 1;
    }
    return fd;
}

#define OPEN_BODY(name, ...) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    if (!watch_len || (flags & O_ACCMODE) != O_RDONLY) return REAL(name)(__VA_ARGS__); \
    if (pre_open(path) < 0) return -1; \
    return post_open(REAL(name)(__VA_ARGS__), path);

EXPORT int open(const char *path, int flags, ...) { OPEN_BODY(open, path, flags, mode) }
EXPORT int open64(const char *path, int flags, ...) { OPEN_BODY(open64, path, flags, mode) }
EXPORT int openat(int dir, const char *path, int flags, ...) { OPEN_BODY(openat, dir, path, flags, mode) }
EXPORT int openat64(int dir, const char *path, int flags, ...) { OPEN_BODY(openat64, dir, path, flags, mode) }

EXPORT int close(int fd)
{
    if (fd >= 0 && fd < MAXFD && fd_watched[fd]) {
        fd_watched[fd] = 0;
        __sync_sub_and_fetch(&sim_open_fds, 1);
    }
    return REAL(close)(fd);
}

/* apply the faults to a read request: -1 error, 0 end, otherwise bytes to be read */
static long plan_read(size_t count, long offset)
{
    native_yield();
    struct iofault *f = next_op();
    if (f) {
        int e = read_errno(f->kind);
        if (e) { sim_io_fired[f->kind]++; errno = e; return -1; }
        if (f->kind == IO_EINTR) { sim_io_fired[f->kind]++; errno = EINTR; return -1; }
        if (f->kind == IO_EOF) { sim_io_fired[f->kind]++; return 0; }
        if (f->kind == IO_SHORT && count > 1) {
            sim_io_fired[f->kind]++;
            size_t n = (size_t)f->arg > 0 ? (size_t)f->arg : 1;
            if (n < count) count = n;
        }
    }
    if (every_short > 0 && (size_t)every_short < count) { sim_io_fired[IO_SHORT]++; count = (size_t)every_short; }
    if (eof_at >= 0 && offset >= 0) {
        if (offset >= eof_at) { sim_io_fired[IO_EOF]++; return 0; }
        if (offset + (long)count > eof_at) count = (size_t)(eof_at - offset);
    }
    return (long)count;
}

EXPORT ssize_t read(int fd, void *buf, size_t count)
{
    if (io_on && fd >= 0 && fd < MAXFD && fd_watched[fd] && count > 0) {
        long n = plan_read(count, (long)lseek(fd, 0, SEEK_CUR));
        if (n <= 0) return n;
        count = (size_t)n;
    }
    return REAL(read)(fd, buf, count);
}

/* watched stdio streams are served by a cookie so that every access is seen */
static ssize_t ck_read(void *c, char *buf, size_t n) { return read((int)(intptr_t)c, buf, n); }
static int ck_seek(void *c, off64_t *off, int whence)
{
    off64_t r = lseek64((int)(intptr_t)c, *off, whence);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int ck_close(void *c) { return close((int)(intptr_t)c); }

static FILE *fopen_any(const char *path, const char *mode, FILE *(*real)(const char*, const char*))
{
    if (!watch_len || !io_on || mode[0] != 'r' || strchr(mode, '+') || !is_watched(path)) return real(path, mode);
    int fd = open(path, O_RDONLY);
    if (fd < 0) return NULL;
    cookie_io_functions_t io = { ck_read, NULL, ck_seek, ck_close };
    FILE *f = fopencookie((void*)(intptr_t)fd, "rb", io);
    if (!f) close(fd);
    return f;
}

EXPORT FILE *fopen(const char *path, const char *mode) { return fopen_any(path, mode, REAL(fopen)); }
EXPORT FILE *fopen64(const char *path, const char *mode) { return fopen_any(path, mode, REAL(fopen64)); }

/* ------------------------------------------------------------------- clock */

static volatile long clock_shift = 0;
EXPORT void sim_clock(long shift) { clock_shift = shift; }

EXPORT int clock_gettime(clockid_t id, struct timespec *ts)
{
    int rc = REAL(clock_gettime)(id, ts);
    if (!rc && clock_shift && id == CLOCK_REALTIME) ts->tv_sec += clock_shift;
    return rc;
}

EXPORT time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    int rc = REAL(gettimeofday)(tv, tz);
    if (!rc && tv && clock_shift) tv->tv_sec += clock_shift;
    return rc;
}

/* leave a pattern in the stack memory below the current frame */
EXPORT __attribute__((noinline)) void sim_dirty_stack(uint64_t pattern)
{
    volatile uint64_t buffer[8192];
    for (int i = 0; i < 8192; ++i) buffer[i] = pattern;
    __asm__ volatile("" : : "r"(buffer) : "memory");
}

/* ----------------------------------------------------------------- signals */
/*
 * A signal becomes pending at the n-th byte-code instruction executed in the
 * code of the package; the interpreter delivers it at its next regular check.
 */
typedef int (*tracefunc_t)(void *, void *, int, void *);
static void (*py_settrace)(tracefunc_t, void *) = NULL;
static void *(*py_frame_code)(void *) = NULL;
static void *(*py_getattr)(void *, const char *) = NULL;
static int (*py_setattr)(void *, const char *, void *) = NULL;
static const char *(*py_utf8)(void *) = NULL;
static void (*py_decref)(void *) = NULL;
static int (*py_interrupt)(int) = NULL;
static void *py_true = NULL;
static char sig_prefix[1024] = "";
static size_t sig_len = 0;
static long sig_at = -1;
static int sig_num = 0;
EXPORT volatile long sim_sig_seen = 0;        /* instructions executed */
EXPORT volatile long sim_sig_raised = 0;
#define CBITS 12
static struct { void *code; int in; } ccache[1 << CBITS];
/* places in the code: number of the first and of the last execution */
#define SBITS 14
struct site { uintptr_t key; long first, last; };
static struct site *sites = NULL;
static long nsites = 0;
static int sites_on = 0;
static int (*py_lasti)(void *) = NULL;

static void site_seen(void *frame, long count)
{
    void *code = py_frame_code(frame);
    uintptr_t key = ((uintptr_t)code << 12) ^ (uintptr_t)py_lasti(frame) ^ 1;
    py_decref(code);
    size_t i = (key * 0x9E3779B97F4A7C15ULL) >> (64 - SBITS);
    for (int k = 0; k < 64; ++k, i = (i + 1) & ((1 << SBITS) - 1)) {
        if (sites[i].key == key) { sites[i].last = count; return; }
        if (!sites[i].key) {
            if (nsites > (1 << SBITS)/2) return;
            nsites++;
            sites[i].key = key; sites[i].first = sites[i].last = count;
            return;
        }
    }
}

EXPORT long sim_sig_sites(long *out, long max)
{
    long n = 0;
    for (size_t i = 0; sites && i < (1 << SBITS) && n < max; ++i)
        if (sites[i].key) { out[2*n] = sites[i].first; out[2*n + 1] = sites[i].last; n++; }
    return n;
}

static int code_inside(void *frame)
{
    void *code = py_frame_code(frame);
    if (!code) return 0;
    size_t i = (((uintptr_t)code >> 4) * 0x9E3779B97F4A7C15ULL) >> (64 - CBITS);
    int in = 0;
    if (ccache[i].code == code) in = ccache[i].in;
    else {
        void *name = py_getattr(code, "co_filename");
        const char *s = name ? py_utf8(name) : NULL;
        in = s && strncmp(s, sig_prefix, sig_len) == 0;
        if (name) py_decref(name);
        ccache[i].code = code; ccache[i].in = in;
    }
    py_decref(code);
    return in;
}

static int sig_trace(void *obj, void *frame, int what, void *arg)
{
    (void)obj; (void)arg;
    if (what == 0) {
        if (code_inside(frame)) py_setattr(frame, "f_trace_opcodes", py_true);
    } else if (what == 7) {
        ++sim_sig_seen;
        if (sites_on) site_seen(frame, sim_sig_seen);
        if (sim_sig_seen == sig_at) {
            sim_sig_raised++;
            py_interrupt(sig_num);
        }
    }
    return 0;
}

/* at < 0: only count. To be called with the interpreter lock held. */
EXPORT int sim_sig_arm(const char *prefix, int signum, long at)
{
    if (!py_settrace) {
        py_frame_code = (void*(*)(void*))dlsym(RTLD_DEFAULT, "PyFrame_GetCode");
        py_getattr = (void*(*)(void*, const char*))dlsym(RTLD_DEFAULT, "PyObject_GetAttrString");
        py_setattr = (int(*)(void*, const char*, void*))dlsym(RTLD_DEFAULT, "PyObject_SetAttrString");
        py_utf8 = (const char*(*)(void*))dlsym(RTLD_DEFAULT, "PyUnicode_AsUTF8");
        py_decref = (void(*)(void*))dlsym(RTLD_DEFAULT, "Py_DecRef");
        py_lasti = (int(*)(void*))dlsym(RTLD_DEFAULT, "PyFrame_GetLasti");
        py_interrupt = (int(*)(int))dlsym(RTLD_DEFAULT, "PyErr_SetInterruptEx");
        py_true = dlsym(RTLD_DEFAULT, "_Py_TrueStruct");
        py_settrace = (void(*)(tracefunc_t, void*))dlsym(RTLD_DEFAULT, "PyEval_SetTrace");
        if (!py_frame_code || !py_getattr || !py_setattr || !py_utf8 || !py_decref || !py_lasti || !py_interrupt || !py_true || !py_settrace)
            { py_settrace = NULL; return -1; }
    }
    strncpy(sig_prefix, prefix, sizeof(sig_prefix) - 1);
    sig_len = strlen(sig_prefix);
    memset(ccache, 0, sizeof(ccache));
    sites_on = at < 0;
    if (sites_on) {
        if (!sites) sites = __libc_calloc(1 << SBITS, sizeof(struct site));
        else memset(sites, 0, sizeof(struct site) << SBITS);
        nsites = 0;
    }
    sig_at = at; sig_num = signum; sim_sig_seen = 0; sim_sig_raised = 0;
    py_settrace(sig_trace, NULL);
    return 0;
}

EXPORT void sim_sig_disarm(void) { if (py_settrace) py_settrace(NULL, NULL); }
