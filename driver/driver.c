/*
 * Test driver: runs scripts of API calls against the library and records a trace (one JSON event per line) of every
 * call, its arguments and what could be observed afterwards.  The trace is judged by spec/EelTrace.tla.
 *
 * usage: driver SCRIPT TRACE
 *
 * Every history of the script ("N id" .. "D") runs in its own process.
 */
#define _GNU_SOURCE
#include <sanitizer/asan_interface.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <locale.h>
#include <math.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <ctype.h>

#include "projectm-eval/api/projectm-eval.h"
#ifdef SHIM
#include "ns-eel2-shim/ns-eel.h"
#endif

typedef PRJM_EVAL_F F;

/* ------------------------------------------------------------------ allocation accounting (linked with -Wl,--wrap) */
static __thread bool in_lib;
static bool fail_big;          /* allocations of 64 KiB and more fail */
static long fail_at;           /* the fail_at-th allocation from now on fails, 0: none */
static bool fail_once;         /* the later ones succeed */
static long n_failed;
#define TABLE 8388608
static void* table[TABLE];
static long live;

static size_t slot_of(void* p) { return ((uintptr_t) p * 0x9E3779B97F4A7C15ull) >> 41; }
static void track(void* p)
{
    static long used;
    if (!p) return;
    if (++used > TABLE / 2) _exit(4);
    size_t i = slot_of(p);
    while (table[i] && table[i] != (void*) 1) i = (i + 1) % TABLE;
    table[i] = p;
    ++live;
}
static void untrack(void* p)
{
    size_t i = slot_of(p);
    for (size_t n = 0; table[i] && n < TABLE; ++n, i = (i + 1) % TABLE)
        if (table[i] == p)
        {
            table[i] = (void*) 1;
            --live;
            return;
        }
}
static bool tracked(void* p)
{
    size_t i = slot_of(p);
    for (size_t n = 0; table[i] && n < TABLE; ++n, i = (i + 1) % TABLE)
        if (table[i] == p) return true;
    return false;
}
static bool refuse(size_t size)
{
    if (!in_lib) return false;
    if (fail_big && size >= 65536) return true;
    if (fail_at > 0 && --fail_at == 0)
    {
        fail_at = fail_once ? 0 : 1;
        ++n_failed;
        return true;
    }
    return false;
}
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
static unsigned long quiet(bool interesting);
static void resume(unsigned long flags);
static void sync_point(void);
static __thread int held;
/* What a call does to the lock and to blocks of memory: 'L'ocks, 'U'nlocks, makes a 'N'ew block, 'F'rees one, frees one
   which was 'G'one from all buffers when the call last unlocked. 'P': the blocks of a buffer changed while nobody held the
   lock. 'D': a freed block was still in a buffer when the lock was released, and the buffer outlived the call. */
#define BLOCK (65536 * sizeof(F))
#define MAXSY 30000
static __thread struct { char kind; int block; } sy[MAXSY];
static __thread int nsy;
static void sync_event(char kind, void* p)
{
    if (kind == 'U' && nsy >= 3 && sy[nsy - 1].kind == 'L' && sy[nsy - 2].kind == 'U' && sy[nsy - 3].kind == 'L')
    {
        --nsy;                /* once more doing nothing while holding it */
        return;
    }
    if (nsy == MAXSY) return;
    sy[nsy].kind = kind;
    sy[nsy++].block = (int) (((uintptr_t) p >> 4) & 0x3fffffff);
}
/* The arrays of blocks, and the blocks in them when the lock was released. */
#define ARRAY (128 * sizeof(F*))
static void* arrays[256];
static int narrays;
static __thread void* shown[8192];
static __thread int nshown = -1;
static void note_shown(void)
{
    nshown = 0;
    for (int a = 0; a < narrays; ++a)
        for (int i = 0; i < 128; ++i)
            if (((void**) arrays[a])[i])
            {
                if (nshown == sizeof shown / sizeof *shown)
                {
                    nshown = -1;
                    return;
                }
                shown[nshown++] = ((void**) arrays[a])[i];
            }
}
static bool gone(void* p)
{
    for (int i = 0; i < nshown; ++i)
        if (shown[i] == p) return false;
    return nshown >= 0;
}
/* The blocks in the arrays, as of when the lock was last released. */
static struct { void** at; void* block; } known[8192];
static int nknown;
static void* dead[4096];                /* blocks freed and not allocated again */
static int ndead;
static __thread void* dangling[16];     /* arrays with such blocks */
static __thread int ndangling;
static bool is_dead(void* p)
{
    for (int i = 0; i < ndead; ++i)
        if (dead[i] == p) return true;
    return false;
}
static bool is_block(void* p) { return is_dead(p) || (tracked(p) && malloc_usable_size(p) == BLOCK); }
static void note_known(bool releasing)
{
    nknown = 0;
    for (int a = 0; a < narrays; ++a)
        for (int i = 0; i < 128; ++i)
        {
            void** at = (void**) arrays[a] + i;
            if (!*at || nknown == sizeof known / sizeof *known || !is_block(*at)) continue;
            known[nknown].at = at;
            known[nknown++].block = *at;
            if (releasing && is_dead(*at) && ndangling < 16) dangling[ndangling++] = arrays[a];
        }
}
static void check_known(void)
{
    int n = 0, same = 0;
    for (int a = 0; a < narrays; ++a)
        for (int i = 0; i < 128; ++i)
            if (((void**) arrays[a])[i] && is_block(((void**) arrays[a])[i])) ++n;
    if (nknown == sizeof known / sizeof *known || n >= nknown + 1000) return;
    for (int i = 0; i < nknown; ++i) same += *known[i].at == known[i].block;
    if (same != nknown || n != nknown)
    {
        sync_event('P', NULL);
        note_known(false);
    }
}
static void array_freed(void* p)
{
    for (int i = 0; i < nknown; ++i)
        if (known[i].at >= (void**) p && known[i].at < (void**) p + 128) known[i--] = known[--nknown];
    for (int i = 0; i < ndangling; ++i)
        if (dangling[i] == p) dangling[i--] = dangling[--ndangling];
}
static void block_new(void* p, size_t size)
{
    if (p && size == BLOCK)
        for (int i = 0; i < ndead; ++i)
            if (dead[i] == p) dead[i--] = dead[--ndead];
    if (in_lib && p && size == ARRAY && narrays < (int) (sizeof arrays / sizeof *arrays)) arrays[narrays++] = p;
    if (in_lib && p && size == BLOCK) sync_event('N', p);
}
static void block_free(void* p)
{
    for (int i = 0; i < narrays; ++i)
        if (arrays[i] == p)
        {
            arrays[i--] = arrays[--narrays];
            array_freed(p);
        }
    if (malloc_usable_size(p) == BLOCK && ndead < (int) (sizeof dead / sizeof *dead)) dead[ndead++] = p;
    if (in_lib && malloc_usable_size(p) == BLOCK) sync_event(!held && gone(p) ? 'G' : 'F', p);
}

/* AddressSanitizer keeps freed memory for a while. With reuse, the next allocation of that size gets it at once, as it
   does from the C library, so that pointers to something that is gone may meet its successor. */
static bool reuse;
static size_t reuse_from;               /* smaller allocations are not reused */
static struct { void* p; size_t size; } freed[2048];
static int nfreed;
static void* reused(size_t n)
{
    for (int i = nfreed; reuse && in_lib && i-- > 0;)
        if (freed[i].size == n)
        {
            void* p = freed[i].p;
            memmove(freed + i, freed + i + 1, (--nfreed - i) * sizeof *freed);
            ASAN_UNPOISON_MEMORY_REGION(p, n);
            return p;
        }
    return NULL;
}
static bool keep(void* p)
{
    for (int i = 0; i < nfreed; ++i)
        if (freed[i].p == p)
        {
            __real_free(p);                       /* twice, which is reported */
            return false;
        }
    if (!reuse || !in_lib || !p || nfreed == sizeof freed / sizeof *freed || malloc_usable_size(p) < reuse_from) return false;
    freed[nfreed].p = p;
    freed[nfreed].size = malloc_usable_size(p);
    memset(p, 0xcd, freed[nfreed].size);
    ASAN_POISON_MEMORY_REGION(p, freed[nfreed].size);
    ++nfreed;
    return true;
}

void* __wrap_malloc(size_t n)
{
    if (refuse(n)) return NULL;
    unsigned long f = quiet(n >= 512);
    void* p = reused(n);
    if (!p) p = __real_malloc(n);
    block_new(p, n);
    if (in_lib) track(p);
    if (n >= 512) sync_point();
    resume(f);
    return p;
}
void* __wrap_calloc(size_t m, size_t n)
{
    if (refuse(m * n)) return NULL;
    unsigned long f = quiet(true);
    void* p = reused(m * n);
    if (p) memset(p, 0, m * n);
    else p = __real_calloc(m, n);
    block_new(p, m * n);
    if (in_lib) track(p);
    sync_point();
    resume(f);
    return p;
}
void* __wrap_realloc(void* q, size_t n)
{
    if (refuse(n)) return NULL;
    unsigned long f = quiet(false);
    if (q && in_lib) untrack(q);
    void* p = __real_realloc(q, n);
    if (in_lib) track(p);
    resume(f);
    return p;
}
void __wrap_free(void* p)
{
    unsigned long f = quiet(false);
    if (p)
    {
        block_free(p);
        untrack(p);
    }
    if (!keep(p)) __real_free(p);
    resume(f);
}
char* __wrap_strdup(const char* s)
{
    char* p = __wrap_malloc(strlen(s) + 1);
    return p ? strcpy(p, s) : NULL;
}
char* __wrap_strndup(const char* s, size_t n)
{
    size_t l = strnlen(s, n);
    char* p = __wrap_malloc(l + 1);
    if (p) { memcpy(p, s, l); p[l] = 0; }
    return p;
}

/* ------------------------------------------------------------------ host lock */

/* Threads of a history run one at a time.  A schedule says after how many instructions of library code the next one
   continues: the processor's trap flag makes every instruction raise SIGTRAP while a scheduled thread is in the library. */
#define MAXT 4
#define TRAP 0x100ul
static bool conc;                       /* threads are running */
static bool step_compile;               /* they may be preempted in a compilation */
static __thread int me = -1, pause_steps;
static int nthreads, owner = -1, nsegs, seg;
static struct { int thread; long steps, more; } segs[1024];
static bool finished[MAXT], blocked[MAXT];
static sem_t turn[MAXT], all_done;
static long budget;                     /* instructions until the next segment */
static long extra;                      /* instructions following the last counted one */
#define MAXF 100000
struct probe { long steps[MAXT]; int n[MAXT]; long at[MAXT][4096]; uint32_t f[MAXT][MAXF]; };
static struct probe* probe;             /* where the thread's instructions are counted instead of executing the schedule */

static void note_probe(void)
{
    if (probe && me >= 0 && probe->n[me] < 4096) probe->at[me][probe->n[me]++] = probe->steps[me];
}
void __asan_on_error(void);
static unsigned long flags_now(void) { return __builtin_ia32_readeflags_u64(); }
static void set_flags(unsigned long f) { __builtin_ia32_writeeflags_u64(f); }
/* called before a report is written, which takes long when it is stepped through */
void __asan_on_error(void)
{
    me = -1;
    set_flags(flags_now() & ~TRAP);
}
static unsigned long quiet(bool interesting)
{
    if (me < 0) return 0;
    unsigned long f = flags_now();
    set_flags(f & ~TRAP);
    if (interesting && in_lib)
    {
        note_probe();
        sync_point();
    }
    return f;
}
static void resume(unsigned long f)
{
    if (me >= 0 && f & TRAP) set_flags(f);
}
static void crash_now(const char* why);
/* let thread t continue instead of this one */
static void yield_to(int t, bool wait)
{
    int self = me;
    if (t == self) return;
    sem_post(&turn[t]);
    if (wait) while (sem_wait(&turn[self])) {}
}
static int runnable(int not)
{
    for (int i = 1; i <= nthreads; ++i)
    {
        int t = (not + i) % nthreads;
        if (!finished[t] && !blocked[t]) return t;
    }
    return -1;
}
/* the next segment of the schedule; the thread to run */
static int next_thread(void)
{
    while (++seg < nsegs)
        if (!finished[segs[seg].thread] && !blocked[segs[seg].thread])
        {
            budget = segs[seg].steps;
            extra = 0;
            return segs[seg].thread;
        }
    budget = -1;
    extra = 0;
    if (!finished[me] && !blocked[me]) return me;
    return runnable(me);
}
static bool by_functions;
static void on_trap(int sig, siginfo_t* info, void* u)
{
    (void) sig;
    (void) info;
    ucontext_t* uc = u;
    if (me < 0 || !in_lib || pause_steps)
    {
        return;
    }
    int saved = errno;
    if (by_functions)
    {
        if (!extra || --extra == 0) uc->uc_mcontext.gregs[REG_EFL] &= ~TRAP;
        if (!extra && budget == 0) yield_to(next_thread(), true);
    }
    else if (probe)
    {
        ++probe->steps[me];
        if (probe->steps[me] > 3000000) uc->uc_mcontext.gregs[REG_EFL] &= ~TRAP;
    }
    else if (seg >= nsegs)
    {
        uc->uc_mcontext.gregs[REG_EFL] &= ~TRAP;      /* the schedule has ended */
    }
    else if (--budget <= 0)
    {
        yield_to(next_thread(), true);
    }
    errno = saved;
}
/* Or it says how many points of synchronisation (the start of a call, using the lock, allocating) a thread passes. */
static bool by_points, started[MAXT];
static void sync_point(void)
{
    if (me < 0 || !by_points || probe || !in_lib || pause_steps) return;
    if (!started[me]) started[me] = true;
    else if (seg < nsegs && --budget <= 0) yield_to(next_thread(), true);
}
/* Or how many functions of the library it enters or leaves, and then instructions. */
void __cyg_profile_func_enter(void* f, void* site)
{
    (void) site;
    if (!by_functions || me < 0 || !in_lib || pause_steps) return;
    if (probe)
    {
        if (probe->steps[me] < MAXF) probe->f[me][probe->steps[me]] = (uint32_t) (uintptr_t) f;
        ++probe->steps[me];
    }
    else if (seg < nsegs && budget > 0 && --budget == 0)
    {
        extra = segs[seg].more;
        if (extra) set_flags(flags_now() | TRAP);
        else yield_to(next_thread(), true);
    }
}
void __cyg_profile_func_exit(void* f, void* site) { __cyg_profile_func_enter(f, site); }
static void host_lock(void)
{
    unsigned long f = quiet(true);
    if (held) {}
    else if (conc && me >= 0)
    {
        while (owner >= 0)
        {
            blocked[me] = true;
            int t = runnable(me);
            if (t < 0) crash_now("deadlock");
            yield_to(t, true);
        }
        blocked[me] = false;
        owner = me;
    }
    check_known();
    held = 1;
    sync_event('L', NULL);
    resume(f);
}
static void host_unlock(void)
{
    unsigned long f = quiet(true);
    if (held && conc && me >= 0)
    {
        owner = -1;
        for (int t = 0; t < nthreads; ++t) blocked[t] = false;
    }
    held = 0;
    sync_event('U', NULL);
    note_shown();
    note_known(true);
    sync_point();
    resume(f);
}
#ifdef SHIM
void NSEEL_HOSTSTUB_EnterMutex() { host_lock(); }
void NSEEL_HOSTSTUB_LeaveMutex() { host_unlock(); }
#else
void projectm_eval_memory_host_lock_mutex() { host_lock(); }
void projectm_eval_memory_host_unlock_mutex() { host_unlock(); }
#endif

/* ------------------------------------------------------------------ trace output */
static int trace_fd = -1, std_fd = -1;
static char hid[64];
static char* ob;
static size_t on, ocap;
static void put(const char* fmt, ...)
{
    va_list ap;
    for (;;)
    {
        va_start(ap, fmt);
        int n = vsnprintf(ob ? ob + on : NULL, ocap - on, fmt, ap);
        va_end(ap);
        if (ob && on + n + 1 < ocap) { on += n; return; }
        ocap = ocap * 2 + n + 4096;
        ob = realloc(ob, ocap);
    }
}
static void flush_events(void)
{
    if (probe) { on = 0; return; }
    size_t w = 0;
    while (w < on)
    {
        ssize_t n = write(trace_fd, ob + w, on - w);
        if (n < 0) { if (errno == EINTR) continue; _exit(3); }
        w += n;
    }
    on = 0;
}
static void begin(const char* e) { put("{\"e\":\"%s\",\"hid\":\"%s\"", e, hid); }
static long seen_out;
static void end_event(void)
{
    fflush(stdout);
    struct stat st;
    long out = 0;
    if (!fstat(std_fd, &st)) { out = st.st_size - seen_out; seen_out = st.st_size; }
    if (!held && (!conc || owner < 0)) check_known();
    if (ndangling) sync_event('D', NULL);
    ndangling = 0;
    put(",\"out\":%ld,\"sy\":[", out);
    for (int i = 0; i < nsy; ++i) put("%s[\"%c\",%d]", i ? "," : "", sy[i].kind, sy[i].block);
    put("]}\n");
    nsy = 0;
    nshown = -1;
    if (held && conc && me >= 0)
    {
        owner = -1;
        for (int t = 0; t < nthreads; ++t) blocked[t] = false;
    }
    held = 0;
    flush_events();
}
static void halves(F x, int32_t* hi, int32_t* lo)
{
    double d = (double) x;
    uint64_t b;
    memcpy(&b, &d, 8);
    if (d != d) b = 0x7ff8000000000000ull;
    *hi = (int32_t) (b >> 32);
    *lo = (int32_t) b;
}
static void put_num(F x)
{
    int32_t hi, lo;
    halves(x, &hi, &lo);
    put("[%d,%d]", hi, lo);
}
static F from_halves(long hi, long lo)
{
    uint64_t b = ((uint64_t) (uint32_t) hi << 32) | (uint32_t) lo;
    double d;
    memcpy(&d, &b, 8);
    return (F) d;
}
static bool same_bits(F a, F b)
{
    int32_t h1, l1, h2, l2;
    halves(a, &h1, &l1);
    halves(b, &h2, &l2);
    return h1 == h2 && l1 == l2;
}

/* ------------------------------------------------------------------ objects of a history */
#define MAXB 16
#define MAXC 32
#define MAXK 4096
#define MAXS 4096
#define NREG 5
static projectm_eval_mem_buffer bufs[MAXB];
static struct projectm_eval_context* ctxs[MAXC];
static struct projectm_eval_code* codes[MAXK];
static int code_ctx[MAXK];
static struct { bool used; int c; bool reg; F* p; F last; } slots[MAXS];
static F regs[NREG][100];
static F regs_last[NREG][100];

#define LIB(x) do { \
        bool step_ = me >= 0 && !pause_steps; \
        in_lib = true; \
        if (step_) by_points ? sync_point() : by_functions ? (void) 0 : set_flags(flags_now() | TRAP); \
        x; \
        if (step_) { set_flags(flags_now() & ~TRAP); if (by_functions && extra) { extra = 0; yield_to(next_thread(), true); } } \
        in_lib = false; \
    } while (0)

/* what changed since the last event; only in context only's variables while threads are running */
static void put_diffs(int only)
{
    put(",\"d\":[");
    const char* sep = "";
    for (int s = 0; s < MAXS; ++s)
        if (slots[s].used && slots[s].p && (!conc || slots[s].c == only) && !same_bits(*slots[s].p, slots[s].last))
        {
            int32_t hi, lo;
            slots[s].last = *slots[s].p;
            halves(slots[s].last, &hi, &lo);
            put("%s[%d,%d,%d]", sep, s, hi, lo);
            sep = ",";
        }
    put("],\"h\":[");
    sep = "";
    for (int r = 1; r < NREG && !conc; ++r)
        for (int i = 0; i < 100; ++i)
            if (!same_bits(regs[r][i], regs_last[r][i]))
            {
                int32_t hi, lo;
                regs_last[r][i] = regs[r][i];
                halves(regs[r][i], &hi, &lo);
                put("%s[%d,%d,%d,%d]", sep, r, i, hi, lo);
                sep = ",";
            }
    put("]");
}

static bool is_reg_name(const char* n)
{
    return strlen(n) == 5 && tolower(n[0]) == 'r' && tolower(n[1]) == 'e' && tolower(n[2]) == 'g' &&
           isdigit((unsigned char) n[3]) && isdigit((unsigned char) n[4]);
}

static char* unhex(const char* h)
{
    size_t n = strlen(h) / 2;
    char* s = malloc(n + 1);
    for (size_t i = 0; i < n; ++i)
    {
        unsigned v;
        sscanf(h + 2 * i, "%2x", &v);
        s[i] = (char) v;
    }
    s[n] = 0;
    return s;
}

static void put_error(int c)
{
    int line = 0, col = 0;
    const char* msg;
    ++pause_steps;
#ifdef SHIM
    LIB(msg = NSEEL_code_getcodeerror(ctxs[c]));
#else
    line = col = -7;
    LIB(msg = projectm_eval_get_error(ctxs[c], &line, &col));
    /* each place is optional, and asking changes nothing */
    {
        int line2 = -8, col2 = -8;
        const char *m1, *m2, *m3;
        LIB(m1 = projectm_eval_get_error(ctxs[c], &line2, NULL));
        LIB(m2 = projectm_eval_get_error(ctxs[c], NULL, &col2));
        LIB(m3 = projectm_eval_get_error(ctxs[c], NULL, NULL));
        if (line2 != line || col2 != col || !m1 != !msg || !m2 != !msg || !m3 != !msg)
            line = col = -9;
    }
#endif
    --pause_steps;
    put(",\"err\":%d,\"ln\":%d,\"col\":%d", msg && *msg ? 1 : 0, line, col);
}

static struct projectm_eval_code* compile(int c, char* text)
{
    struct projectm_eval_code* k;
    int pause = step_compile ? 0 : 1;
    pause_steps += pause;
#ifdef SHIM
    LIB(k = NSEEL_code_compile(ctxs[c], text, 0));
#else
    LIB(k = projectm_eval_code_compile(ctxs[c], text));
#endif
    pause_steps -= pause;
    return k;
}
static F execute(struct projectm_eval_code* k)
{
    F r = 0;
#ifdef SHIM
    LIB(NSEEL_code_execute(k));
#else
    LIB(r = projectm_eval_code_execute(k));
#endif
    return r;
}
static void destroy_code(struct projectm_eval_code* k)
{
#ifdef SHIM
    LIB(NSEEL_code_free(k));
#else
    LIB(projectm_eval_code_destroy(k));
#endif
}
static F* reg_var(int c, const char* name)
{
    F* p;
#ifdef SHIM
    LIB(p = NSEEL_VM_regvar(ctxs[c], name));
#else
    LIB(p = projectm_eval_context_register_variable(ctxs[c], name));
#endif
    return p;
}

/* Reads cells lo..hi-1 with an inspection program, logging runs of equal values. */
static void scan(char w, int c, long lo, long hi)
{
    char text[64];
    snprintf(text, sizeof text, "zq_v=%s(zq_i)", w == 'm' ? "megabuf" : "gmegabuf");
    ++pause_steps;
    struct projectm_eval_code* k = compile(c, text);
    F* pi = reg_var(c, "zq_i");
    F* pv = reg_var(c, "zq_v");
    bool ok = k && pi && pv;
    struct run { long from; F v; }* runs = malloc((hi - lo + 1) * sizeof *runs);
    long n = 0;
    for (long i = lo; ok && i < hi; ++i)
    {
        *pi = (F) i;
        *pv = (F) 77;
        execute(k);
        if (!n || !same_bits(runs[n - 1].v, *pv))
        {
            runs[n].from = i;
            runs[n++].v = *pv;
        }
    }
    if (k) destroy_code(k);
    if (pi && pv) *pi = *pv = 0;
    --pause_steps;
    begin("scan");
    put(",\"w\":\"%c\",\"c\":%d,\"lo\":%ld,\"hi\":%ld,\"ok\":%d,\"runs\":[", w, c, lo, hi, ok);
    for (long i = 0; i < n; ++i)
    {
        int32_t h, l;
        halves(runs[i].v, &h, &l);
        put("%s[%ld,%ld,%d,%d]", i ? "," : "", runs[i].from, i + 1 < n ? runs[i + 1].from : hi, h, l);
    }
    put("]");
    free(runs);
    end_event();
}

/* AddressSanitizer's own versions ignore the locale. */
static locale_t host_locale;
int __real_strcasecmp(const char*, const char*);
int __real_strncasecmp(const char*, const char*, size_t);

int __wrap_strcasecmp(const char* a, const char* b)
{
    return host_locale ? strcasecmp_l(a, b, host_locale) : __real_strcasecmp(a, b);
}

int __wrap_strncasecmp(const char* a, const char* b, size_t n)
{
    return host_locale ? strncasecmp_l(a, b, n, host_locale) : __real_strncasecmp(a, b, n);
}

/* Operations which take longer are reported as not ending. */
#ifndef WATCH_S
#define WATCH_S 20
#endif
static void watch(int cpu)
{
    struct itimerval t = {{0, 0}, {cpu, 0}};
    setitimer(ITIMER_PROF, &t, NULL);
    alarm(6 * cpu);
}

static void run_op(char* line)
{
    char op = line[0];
    char* a = line + 1;
    long x[8] = {0};
    int n = 0, used = 0;
    static char words[1];
    (void) words;
    switch (op)
    {
        case 'B':
        {
            int b = atoi(a);
            LIB(bufs[b] = projectm_eval_memory_buffer_create());
            begin("buf");
            put(",\"b\":%d,\"ok\":%d", b, bufs[b] != NULL);
            end_event();
            break;
        }
        case 'b':
        {
            int b = atoi(a);
#ifdef SHIM
            LIB(NSEEL_VM_FreeGRAM((void**) bufs[b]));
#else
            LIB(projectm_eval_memory_buffer_destroy(bufs[b]));
#endif
            bufs[b] = NULL;
            begin("dbuf");
            put(",\"b\":%d", b);
            end_event();
            break;
        }
        case 'C':
        {
            long c, g, r, fk = 0;
            sscanf(a, "%ld %ld %ld %ld", &c, &g, &r, &fk);
            n_failed = 0;
            fail_at = fk < 0 ? -fk : fk;
            fail_once = fk < 0;
#ifdef SHIM
            LIB(ctxs[c] = NSEEL_VM_alloc());
#else
            LIB(ctxs[c] = projectm_eval_context_create(g ? bufs[g] : NULL, r ? &regs[r] : NULL));
#endif
            fail_at = 0;
            begin("ctx");
            put(",\"c\":%ld,\"g\":%ld,\"r\":%ld,\"fail\":%ld,\"ok\":%d", c, g, r, n_failed, ctxs[c] != NULL);
            end_event();
            break;
        }
        case 'c':
        {
            int c = atoi(a);
            if (!ctxs[c])
            {
                break;   /* its creation failed */
            }
#ifdef SHIM
            LIB(NSEEL_VM_free(ctxs[c]));
#else
            LIB(projectm_eval_context_destroy(ctxs[c]));
#endif
            ctxs[c] = NULL;
            for (int s = 0; s < MAXS; ++s)
                if (slots[s].used && slots[s].c == c && !slots[s].reg) slots[s].used = false;
            begin("dctx");
            put(",\"c\":%d", c);
            end_event();
            break;
        }
        case 'R':
        {
            int s, c;
            sscanf(a, "%d %d %n", &s, &c, &used);
            char* name = unhex(a + used);
            F* p = reg_var(c, name);
            slots[s].used = true;
            slots[s].c = c;
            slots[s].reg = is_reg_name(name);
            slots[s].p = p;
            slots[s].last = p ? *p : 0;
            int al = s, hr = 0, hi = 0;
            for (int t = 0; t < MAXS; ++t)
                if (slots[t].used && slots[t].p == p && t < al) al = t;
            for (int r = 1; r < NREG; ++r)
                for (int i = 0; i < 100; ++i)
                    if (p == &regs[r][i]) hr = r, hi = i;
            begin("reg");
            put(",\"s\":%d,\"c\":%d,\"n\":[", s, c);
            for (char* q = name; *q; ++q) put("%s%d", q == name ? "" : ",", (unsigned char) *q);
            put("],\"ok\":%d,\"al\":%d,\"hr\":[%d,%d],\"val\":", p != NULL, al, hr, hi);
            put_num(p ? *p : 0);
            free(name);
            end_event();
            break;
        }
        case 'W':
        {
            int s;
            long hi, lo;
            sscanf(a, "%d %ld %ld", &s, &hi, &lo);
            F v = from_halves(hi, lo);
            if (slots[s].used && slots[s].p)
            {
                F* p = slots[s].p;
                *p = v;
                for (int t = 0; t < MAXS; ++t)
                    if (slots[t].used && slots[t].p == p) slots[t].last = v;
                for (int r = 1; r < NREG; ++r)
                    if (p >= &regs[r][0] && p < &regs[r][100]) regs_last[r][p - &regs[r][0]] = v;
            }
            begin("set");
            put(",\"s\":%d,\"x\":", s);
            put_num(v);
            end_event();
            break;
        }
        case 'P':
        {
            int k, c;
            sscanf(a, "%d %d %n", &k, &c, &used);
            char* text = unhex(a + used);
            codes[k] = compile(c, text);
            code_ctx[k] = c;
            begin("comp");
            put(",\"c\":%d,\"k\":%d,\"src\":[", c, k);
            for (char* q = text; *q; ++q) put("%s%d", q == text ? "" : ",", (unsigned char) *q);
            put("],\"ok\":%d", codes[k] != NULL);
            memset(text, '#', strlen(text));
            free(text);
            put_error(c);
            if (!codes[k])
            {
                ++pause_steps;
                F r = execute(NULL);
                destroy_code(NULL);
                --pause_steps;
                put(",\"nul\":");
                put_num(r);
            }
            put_diffs(c);
            end_event();
            break;
        }
        case 'X':
        {
            int k, tol, nr;
            sscanf(a, "%d %d %d%n", &k, &tol, &nr, &used);
            a += used;
            if (!codes[k])
            {
                break;   /* reported as a failed compilation already */
            }
            F r = execute(codes[k]);
            begin("exec");
            put(",\"k\":%d,\"tol\":%d,\"res\":", k, tol);
            put_num(r);
            put(",\"rnd\":[");
            for (int i = 0; i < nr; ++i)
            {
                int s;
                sscanf(a, "%d%n", &s, &used);
                a += used;
                if (i) put(",");
                put_num(s < 0 ? r : slots[s].p ? *slots[s].p : 0);
            }
            put("]");
            put_diffs(code_ctx[k]);
            end_event();
            break;
        }
        case 'p':
        {
            int k = atoi(a);
            if (!codes[k]) break;
            destroy_code(codes[k]);
            codes[k] = NULL;
            begin("dcode");
            put(",\"k\":%d", k);
            end_event();
            break;
        }
        case 'U':
            reuse = true;
            reuse_from = strtoul(a, NULL, 10);
            break;
        case 'L':
        {
            char* set = setlocale(LC_ALL, a + strspn(a, " "));
            if (host_locale) freelocale(host_locale);
            host_locale = set ? duplocale(LC_GLOBAL_LOCALE) : NULL;
            begin("locale");
            put(",\"ok\":%d", set != NULL);
            end_event();
            break;
        }
        case 'F':
        case 'Z':
        {
            int c = atoi(a);
#ifdef SHIM
            LIB(op == 'F' ? NSEEL_VM_freeRAM(ctxs[c]) : NSEEL_VM_resetvars(ctxs[c]));
#else
            LIB(op == 'F' ? projectm_eval_context_free_memory(ctxs[c]) : projectm_eval_context_reset_variables(ctxs[c]));
#endif
            begin(op == 'F' ? "free" : "reset");
            put(",\"c\":%d", c);
            put_diffs(c);
            end_event();
            break;
        }
        case 'G':
#ifdef SHIM
            LIB(NSEEL_quit());
#else
            LIB(projectm_eval_memory_global_destroy());
#endif
            begin("dglob");
            end_event();
            break;
        case 'E':
        {
            int c = atoi(a);
            begin("err");
            put(",\"c\":%d", c);
            put_error(c);
            end_event();
            break;
        }
        case 'S':
        {
#ifdef SHIM
            int c, b;
            sscanf(a, "%d %d", &c, &b);
            LIB(NSEEL_VM_SetGRAM(ctxs[c], (void**) bufs[b]));
            begin("gram");
            put(",\"c\":%d,\"g\":%d", c, b);
            end_event();
#endif
            break;
        }
        case 'M':
        {
            char w;
            int c;
            long lo, hi;
            sscanf(a, " %c %d %ld %ld", &w, &c, &lo, &hi);
            scan(w, c, lo, hi);
            break;
        }
        case 'Q':
        {
            int k;
            long hi, lo;
            sscanf(a, "%d %ld %ld", &k, &hi, &lo);
            if (!codes[k]) break;
            begin("drawn");
            put(",\"k\":%d,\"top\":[%ld,%ld]", k, hi, lo);
            end_event();
            break;
        }
        case 'H':
        {
            /* a large program: kind, context, slot of the variable v, size */
            char kind[8];
            int c, s;
            long size;
            sscanf(a, "%7s %d %d %ld", kind, &c, &s, &size);
            char* text = malloc(size * 8 + 64);
            char* q = text;
            if (!strcmp(kind, "sum")) for (long i = 0; i < size; ++i) q += sprintf(q, i ? "+v" : "v");
            else if (!strcmp(kind, "list")) { for (long i = 0; i < size; ++i) q += sprintf(q, "v=v+1;"); q += sprintf(q, "v"); }
            else if (!strcmp(kind, "neg")) { for (long i = 0; i < size; ++i) *q++ = '-'; q += sprintf(q, "v"); }
            else
            {
                for (long i = 0; i < size; ++i) *q++ = '(';
                *q++ = 'v';
                for (long i = 0; i < size; ++i) *q++ = ')';
                *q = 0;
            }
            F x = *slots[s].p;
            struct projectm_eval_code* k = compile(c, text);
            free(text);
            F r = 0;
            if (k)
            {
                r = execute(k);
                destroy_code(k);
            }
            *slots[s].p = x;
            begin("deep");
            put(",\"kind\":\"%s\",\"c\":%d,\"n\":%ld,\"x\":", kind, c, size);
            put_num(x);
            put(",\"ok\":%d,\"res\":", k != NULL);
            put_num(r);
            end_event();
            break;
        }
        case 'A':
            fail_big = atoi(a) != 0;
            begin("fault");
            put(",\"on\":%d", fail_big);
            end_event();
            break;
        case 'D':
            begin("end");
            put(",\"live\":%ld", live);
            end_event();
            break;
        default:
            fprintf(stderr, "bad op: %s\n", line);
            _exit(3);
    }
    (void) x;
    (void) n;
}

static void crash_now(const char* why)
{
    on = 0;
    begin("crash");
    put(",\"why\":\"%s\",\"out\":0,\"sy\":[]}\n", why);
    flush_events();
    _exit(0);
}

static char** thread_ops[MAXT];
static int thread_nops[MAXT];

static void* thread_main(void* arg)
{
    me = (int) (intptr_t) arg;
    while (sem_wait(&turn[me])) {}
    for (int i = 0; i < thread_nops[me]; ++i) run_op(thread_ops[me][i]);
    finished[me] = true;
    int t = -1;
    if (seg < nsegs) t = next_thread();
    if (t < 0) t = runnable(me);
    if (t >= 0) yield_to(t, false);
    else
    {
        for (int i = 0; i < nthreads; ++i) if (!finished[i]) crash_now("deadlock");
        sem_post(&all_done);
    }
    return NULL;
}

/* p >= 0 selects an instruction near an allocation or use of the lock, p < 0 any (-p is the fraction of all, in 2^-20) */
static long pick_step(struct probe* pr, int t, long p)
{
    long total = pr->steps[t] > 0 ? pr->steps[t] : 1;
    if (p < 0 || !pr->n[t]) return 1 + (long) ((double) (labs(p) % (1 << 20)) / (1 << 20) * total);
    long near = 60, i = p / near % pr->n[t], d = p % near - 30;
    long at = pr->at[t][i] + d;
    return at < 1 ? 1 : at;
}

/* A point about d functions after the current one, preferring those of functions which are rarely called. */
static long pick_function(struct probe* pr, int t, long from, long d)
{
    static uint32_t seen[512];
    long total = pr->steps[t] < MAXF ? pr->steps[t] : MAXF, lo = from + d / 2, hi = from + d + d / 2;
    if (hi > total) hi = total;
    int n = 0;
    for (long i = lo; i < hi; ++i)
    {
        int j = 0;
        while (j < n && seen[j] != pr->f[t][i]) ++j;
        if (j == n && n < 512) seen[n++] = pr->f[t][i];
    }
    if (!n) return d;
    uint32_t f = seen[d % n];
    long count = 0;
    for (long i = lo; i < hi; ++i) count += pr->f[t][i] == f;
    long which = d / n % count;
    for (long i = lo; i < hi; ++i) if (pr->f[t][i] == f && which-- == 0) return i + 1 - from;
    return d;
}

/* "Y threads ops... segments thread point ...", or "y ..." if compilations are not preempted, "s ..." with numbers of
   points of synchronisation, or "v ..." with triples of thread, functions and instructions, followed by the operations of each thread; returns their number */
static int run_threads(char** lines)
{
    char* a = lines[0] + 1;
    int used, total = 0;
    step_compile = lines[0][0] != 'y';
    by_points = lines[0][0] == 's';
    by_functions = lines[0][0] == 'v';
    sscanf(a, "%d%n", &nthreads, &used);
    a += used;
    for (int t = 0; t < nthreads; ++t)
    {
        sscanf(a, "%d%n", &thread_nops[t], &used);
        a += used;
        thread_ops[t] = lines + 1 + total;
        total += thread_nops[t];
    }
    sscanf(a, "%d%n", &nsegs, &used);
    a += used;
    struct sigaction sa = {0};
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGTRAP, &sa, NULL);
    /* count the instructions of each thread in a copy of the process */
    struct probe* pr = mmap(NULL, sizeof *pr, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t pid = by_points ? 0 : fork();
    if (!by_points && pid == 0)
    {
        watch(2 * WATCH_S);
        probe = pr;
        for (int t = 0; t < nthreads; ++t)
        {
            me = t;
            for (int i = 0; i < thread_nops[t]; ++i)
            {
                char* copy = strdup(thread_ops[t][i]);
                run_op(copy);
                free(copy);
            }
        }
        _exit(0);
    }
    int status;
    if (!by_points) while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if (nsegs > (int) (sizeof segs / sizeof *segs)) _exit(3);
    long from[MAXT] = {0};
    for (int i = 0; i < nsegs; ++i)
    {
        long p;
        sscanf(a, "%d %ld%n", &segs[i].thread, &p, &used);
        a += used;
        if (by_functions)
        {
            sscanf(a, "%ld%n", &segs[i].more, &used);
            a += used;
        }
        segs[i].steps = by_points ? p : pick_step(pr, segs[i].thread, p);
        if (by_functions && p & 1) segs[i].steps = pick_function(pr, segs[i].thread, from[segs[i].thread], segs[i].steps);
        from[segs[i].thread] += segs[i].steps;
    }
    munmap(pr, sizeof *pr);
    seg = -1;
    owner = -1;
    conc = true;
    sem_init(&all_done, 0, 0);
    pthread_t th[MAXT];
    for (int t = 0; t < nthreads; ++t)
    {
        finished[t] = blocked[t] = started[t] = false;
        sem_init(&turn[t], 0, 0);
        pthread_create(&th[t], NULL, thread_main, (void*) (intptr_t) t);
    }
    seg = 0;
    budget = nsegs ? segs[0].steps : -1;
    sem_post(&turn[nsegs ? segs[0].thread : 0]);
    while (sem_wait(&all_done)) {}
    for (int t = 0; t < nthreads; ++t) pthread_join(th[t], NULL);
    conc = by_points = by_functions = false;
    return total;
}

int main(int argc, char** argv)
{
    if (argc != 3) return 3;
    FILE* in = fopen(argv[1], "r");
    trace_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (!in || trace_fd < 0) return 3;

    char** lines = NULL;
    size_t nlines = 0, caplines = 0;
    char* line = NULL;
    size_t cap = 0;
    bool more = true;
    int hangs = 0;
    while (more)
    {
        ssize_t len = getline(&line, &cap, in);
        more = len >= 0;
        if (more)
        {
            if (len && line[len - 1] == '\n') line[len - 1] = 0;
            if (!line[0]) continue;
        }
        if ((!more || line[0] == 'N') && nlines)
        {
            /* run the collected history */
            strncpy(hid, lines[0] + 2, sizeof hid - 1);
            begin("new");
            put(",\"out\":0,\"sy\":[]}\n");
            flush_events();
            int fd = memfd_create("out", 0);
            pid_t pid = fork();
            if (pid == 0)
            {
                struct rlimit rl = {0, 0};
                setrlimit(RLIMIT_CORE, &rl);
                dup2(fd, 1);
                dup2(fd, 2);
                std_fd = fd;
                for (size_t i = 1; i < nlines; ++i)
                {
                    bool many = strchr("Yysv", lines[i][0]) != NULL;
                    watch(many ? 3 * WATCH_S : WATCH_S);
                    if (many) i += run_threads(lines + i);
                    else run_op(lines[i]);
                }
                _exit(0);
            }
            int status = 0;
            if (pid < 0 || waitpid(pid, &status, 0) != pid) return 3;
            if (WIFEXITED(status) && WEXITSTATUS(status) == 3) return 3;
            if (!WIFEXITED(status) || WEXITSTATUS(status) != 0)
            {
                char text[65536], why[256] = "";
                ssize_t got = pread(fd, text, sizeof text - 1, 0);
                if (got < 0) got = 0;
                text[got] = 0;
                char* p = strstr(text, "AddressSanitizer: ");
                char* q = strstr(text, "Assertion `");
                if (p) snprintf(why, sizeof why, "%.80s", p + 18);
                else if (q) snprintf(why, sizeof why, "assertion %.100s", q + 11);
                for (char* z = why; *z; ++z) if (!isalnum((unsigned char) *z) && !strchr(" -_.,:()!=<>&|", *z)) *z = *z == '\n' ? 0 : ' ';
                int sig = WIFSIGNALED(status) ? WTERMSIG(status) : 0;
                if (sig == SIGPROF || sig == SIGALRM)
                {
                    snprintf(why, sizeof why, "the call does not end");
                    more = more && ++hangs < 2;     /* leave it at that */
                }
                if (sig) snprintf(why + strlen(why), sizeof why - strlen(why), " (signal %d)", sig);
                begin("crash");
                put(",\"why\":\"%s\",\"out\":0,\"sy\":[]}\n", why);
                flush_events();
            }
            close(fd);
            for (size_t i = 0; i < nlines; ++i) free(lines[i]);
            nlines = 0;
        }
        if (more)
        {
            if (nlines == caplines)
            {
                caplines = caplines * 2 + 64;
                lines = realloc(lines, caplines * sizeof *lines);
            }
            lines[nlines++] = strdup(line);
        }
    }
    return 0;
}
