// dsim runtime. See rt.h. No std:: containers or templates here: the linker must never pick an uninstrumented copy of an
// inline std:: function over the instrumented one.
#include "rt.h"
#include <cxxabi.h>
#include <errno.h>
#include <exception>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/poll.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uintptr_t uptr;

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
char* __real_getenv(const char*);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_writev(int, const struct iovec*, int);
off64_t __real_lseek64(int, off64_t, int);
FILE* __real_fopen(const char*, const char*);
FILE* __real_fopen64(const char*, const char*);
int __real_fclose(FILE*);
int __real_fflush(FILE*);
int __real_fileno(FILE*);
int __real_fstat64(int, struct stat64*);
int __real_ioctl(int, unsigned long, ...);
int __real_poll(struct pollfd*, nfds_t, int);
pthread_t __real_pthread_self(void);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
void __real_abort(void) __attribute__((noreturn));
extern char __libc_single_threaded;
extern char data_start[], _end[];
}

#define MAXSLOT 160
#define MAXFIBERS 60000
static const uptr HEAP_BASE = 0x100000000000ull;
static const size_t HEAP_SIZE = 512ull << 20;
static const uptr STK_BASE = 0x110000000000ull;
static const size_t STK_SZ = 512ull << 10;
static const size_t NSTK = MAXSLOT + 8;
static const uptr HS_BASE = 0x120000000000ull; // heap shadow, 1 byte per granule
static const uptr CELL_BASE = 0x130000000000ull; // race cells heap
static const uptr CELL_STK = 0x140000000000ull;
static const uptr CELL_GLB = 0x150000000000ull;
static const uptr PC_BASE = 0x160000000000ull;
static const uptr PC_STK = 0x170000000000ull;
static const uptr PC_GLB = 0x180000000000ull;
static const uptr RT_BASE = 0x190000000000ull; // runtime-private memory
static const size_t RT_SIZE = 1024ull << 20;
static const size_t DEC_CAP = 1 << 16;

// ---------------------------------------------------------------------------------------------------------------------
struct SyncObj {
    uptr addr;
    SyncObj* next;
    int owner; // mutex owner fiber id, -1 free
    int count;
    int isMutex;
    int state; // pthread_once / guard: 0 none 1 running 2 done
    u64 vc[MAXSLOT];
};

enum { FS_RUN = 0, FS_BLOCK = 1, FS_DONE = 2 };
enum { W_NONE = 0, W_MUTEX, W_COND, W_JOIN, W_FUTEX, W_ONCE, W_SLEEP };

struct Fiber {
    int id;
    int state;
    void* sp;
    int stk;
    int slot;
    u64 prio;
    int wkind;
    uptr wobj;
    u64 wseq;
    u64 wake_at; // 0 = none
    int timed_out;
    int joined, detached, waskilled;
    ds_fn hstart;
    void* (*start)(void*);
    void* arg;
    void* ret;
    u64 excg[2];
    void* once[2];
    int err;
    int sut;
    int harness;
    u64 ran; // steps since last block/switch (fairness)
    int locks;
    u32 cs[1024];
    int csn;
    u64 vc[MAXSLOT];
    u64 endvc_valid;
    Fiber *lnext, *lprev; // live list
};

struct Block { // heap block header, 32 bytes in front of the payload
    u64 size;
    u32 magic;
    u32 cls;
    u64 total;
    u64 seq;
};

struct SimFile {
    char name[120];
    char* data;
    size_t size, cap;
};
struct SimHandle {
    u64 magic;
    int used;
    SimFile* f;
    size_t pos;
    int append, rd, wr, err;
};

#define NSYNC 16384
#define NCLS 64

struct G {
    int active;
    DsConfig cfg;
    u64 steps, dp, dp_evt;
    u64 mem_next; // dp of next memory preemption
    u64 pct_pts[64];
    int npct, ipct;
    size_t irep;
    u64 rng, envrng, hrng;
    Fiber* cur;
    Fiber* fibers[MAXFIBERS];
    int nfib;
    Fiber* lhead;
    int live;
    u64 slot_epoch[MAXSLOT];
    u64 slot_freed[MAXSLOT];
    int slot_used[MAXSLOT];
    int nslots;
    u64 slotseq;
    int stk_free[NSTK];
    int nstk_free;
    uptr stk_low[NSTK];
    SyncObj* sync[NSYNC];
    SyncObj* syncfree;
    u64 wseq;
    u64 prio_low;
    u64 now;
    int armed;
    u64 evt[DS_F_NKINDS];
    u64 fired_total;
    // heap
    uptr bump;
    Block* freelist_head[NCLS];
    Block* freelist_tail[NCLS];
    u64 quarantine;
    u64 live_blocks, live_bytes;
    u64 blkseq;
    // rt memory
    uptr rtbump;
    SimFile files[32];
    int nfiles;
    SimHandle handles[64];
    void* main_sp;
    u8* sigstk;
    int locks_total;
    int in_violation;
    u64 seq;
    int maxsw_fair;
    u64 races_seen;
};

static G* g = nullptr; // lives in RT memory
static DsResult* R = nullptr;
static DsDecision* D = nullptr;
static int g_active = 0;

static inline u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
static inline u64 sm64(u64* s)
{
    u64 z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline double u01(u64* s) { return (double)(sm64(s) >> 11) * (1.0 / 9007199254740992.0); }
static double ln_approx(double x) { return __builtin_log(x); }

static void* mapfix(uptr at, size_t n, int shared = 0)
{
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE,
        (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)at) {
        static const char m[] = "dsim: cannot map fixed region\n";
        __real_write(2, m, sizeof(m) - 1);
        _exit(97);
    }
    return p;
}

static uptr glb_lo, glb_hi;
static int inited = 0;

static void* rt_alloc(size_t n)
{
    n = (n + 63) & ~(size_t)63;
    uptr p = g->rtbump;
    g->rtbump += n;
    if (g->rtbump > RT_BASE + RT_SIZE) {
        _exit(96);
    }
    return (void*)p;
}

extern "C" void ds_init(void)
{
    if (inited) {
        return;
    }
    inited = 1;
    __libc_single_threaded = 0;
    mapfix(HEAP_BASE, HEAP_SIZE);
    mapfix(STK_BASE, STK_SZ * NSTK);
    mapfix(HS_BASE, HEAP_SIZE / 8);
    mapfix(CELL_BASE, HEAP_SIZE * 4);
    mapfix(PC_BASE, HEAP_SIZE * 2);
    mapfix(CELL_STK, STK_SZ * NSTK * 4);
    mapfix(PC_STK, STK_SZ * NSTK * 2);
    glb_lo = (uptr)data_start & ~(uptr)7;
    glb_hi = ((uptr)_end + 7) & ~(uptr)7;
    size_t gl = (glb_hi - glb_lo + 4095) & ~(size_t)4095;
    mapfix(CELL_GLB, gl * 4);
    mapfix(PC_GLB, gl * 2);
    mapfix(RT_BASE, RT_SIZE);
    g = (G*)RT_BASE;
    g->rtbump = (RT_BASE + sizeof(G) + 4095) & ~(uptr)4095;
    g->bump = HEAP_BASE + 4096;
    for (size_t i = 0; i < NSTK; ++i) {
        g->stk_free[i] = (int)(NSTK - 1 - i);
    }
    g->nstk_free = NSTK;
    void* sh = mmap(nullptr, sizeof(DsResult) + sizeof(DsDecision) * DEC_CAP + 4096, PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    R = (DsResult*)sh;
    D = (DsDecision*)((char*)sh + ((sizeof(DsResult) + 63) & ~(size_t)63));
}
// Static initialisers of the system under test allocate before main() runs.
static void early_init() { ds_init(); }
__attribute__((section(".preinit_array"), used)) static void (*const early_init_ptr)(void) = early_init;

extern "C" DsResult* ds_result(void) { return R; }
extern "C" DsDecision* ds_decisions(void) { return D; }
extern "C" size_t ds_decisions_cap(void) { return DEC_CAP; }

static void flush_result()
{
    if (!g) {
        return;
    }
    R->steps = g->steps;
    R->dps = g->dp;
    R->fibers = g->nfib;
    R->simtime_ns = g->now - 1700000000ull * 1000000000ull;
    for (int i = 0; i < DS_F_NKINDS; ++i) {
        R->events[i] = g->evt[i];
    }
}

static void capture_stack(Fiber* f, int which, u32 toppc)
{
    int n = 0;
    if (toppc) {
        R->pcs[which][n++] = toppc;
    }
    if (f) {
        for (int i = f->csn - 1; i >= 0 && n < 24; --i) {
            if (i < 1024) {
                R->pcs[which][n++] = f->cs[i];
            }
        }
    }
    R->npcs[which] = n;
}

extern "C" void ds_violation(const char* cls, const char* sig, const char* fmt, ...)
{
    if (g) {
        g_active = 0;
        if (g->in_violation) {
            _exit(3);
        }
        g->in_violation = 1;
    }
    R->status = 2;
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    snprintf(R->sig, sizeof R->sig, "%s", sig ? sig : "");
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    if (g && g->cur && !R->npcs[0]) {
        capture_stack(g->cur, 0, 0);
    }
    R->hash = mix(R->hash, 0x5151);
    for (const char* p = R->cls; *p; ++p) {
        R->hash = mix(R->hash, (u8)*p);
    }
    flush_result();
    _exit(2);
}

extern "C" void ds_inconclusive(const char* fmt, ...)
{
    g_active = 0;
    R->status = 3;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    flush_result();
    _exit(4);
}

static int g_soft_budget;
extern "C" void ds_soft_budget(int on) { g_soft_budget = on; }
static void budget_exhausted()
{
    if (g_soft_budget) { // the cost of this program has no bound that could be relied on
        ds_probe(6);
        ds_finish();
    }
    ds_violation("no_progress", "", "step budget of %llu exhausted: no termination within bound",
        (unsigned long long)g->cfg.max_steps);
}

extern "C" void ds_finish(void)
{
    g_active = 0;
    R->status = 1;
    flush_result();
    _exit(0);
}

// ---- fault decisions -------------------------------------------------------------------------------------------------
static int fault_hit(int kind)
{
    if (!g_active || !g->armed) {
        return 0;
    }
    u64 n = g->evt[kind]++;
    for (int i = 0; i < g->cfg.nfaults; ++i) {
        const DsFault* f = &g->cfg.faults[i];
        if (f->kind == kind && n >= f->at && n < f->at + f->count) {
            R->fired[kind]++;
            g->fired_total++;
            R->hash = mix(R->hash, 0xfa000000u + kind);
            return 1;
        }
    }
    return 0;
}

// ---- sync objects ----------------------------------------------------------------------------------------------------
static inline size_t shash(uptr a) { return ((a >> 2) * 0x9e3779b97f4a7c15ull) >> 50; }
static SyncObj* sync_get(uptr a, int create = 1)
{
    size_t h = shash(a) % NSYNC;
    for (SyncObj* s = g->sync[h]; s; s = s->next) {
        if (s->addr == a) {
            return s;
        }
    }
    if (!create) {
        return nullptr;
    }
    SyncObj* s = g->syncfree;
    if (s) {
        g->syncfree = s->next;
        __builtin_memset(s, 0, sizeof *s);
    } else {
        s = (SyncObj*)rt_alloc(sizeof *s);
    }
    s->addr = a;
    s->owner = -1;
    s->next = g->sync[h];
    g->sync[h] = s;
    if (a >= HEAP_BASE && a < HEAP_BASE + HEAP_SIZE) {
        ((u8*)HS_BASE)[(a - HEAP_BASE) >> 3] |= 0x80;
    }
    return s;
}
static void sync_drop(uptr a)
{
    size_t h = shash(a) % NSYNC;
    SyncObj** pp = &g->sync[h];
    while (*pp) {
        SyncObj* s = *pp;
        if (s->addr == a) {
            *pp = s->next;
            s->next = g->syncfree;
            g->syncfree = s;
            return;
        }
        pp = &s->next;
    }
}
static inline void vc_acq(Fiber* f, const u64* vc)
{
    for (int i = 0; i < g->nslots; ++i) {
        if (vc[i] > f->vc[i]) {
            f->vc[i] = vc[i];
        }
    }
}
static inline void vc_rel_merge(Fiber* f, u64* vc)
{
    for (int i = 0; i < g->nslots; ++i) {
        if (f->vc[i] > vc[i]) {
            vc[i] = f->vc[i];
        }
    }
    f->vc[f->slot]++;
}
static inline void vc_rel_set(Fiber* f, u64* vc)
{
    for (int i = 0; i < g->nslots; ++i) {
        vc[i] = f->vc[i];
    }
    f->vc[f->slot]++;
}

// ---- context switching -----------------------------------------------------------------------------------------------
extern "C" void ds_switch(void** save, void* to);
asm(R"(
.text
.globl ds_switch
.type ds_switch,@function
ds_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size ds_switch,.-ds_switch
)");

namespace std {
extern __thread void* __once_callable;
extern __thread void (*__once_call)();
} // namespace std

static void deadlock_report(const char* why) __attribute__((noreturn));
static const char* wname(int k)
{
    switch (k) {
    case W_MUTEX:
        return "mutex";
    case W_COND:
        return "condition variable";
    case W_JOIN:
        return "thread join";
    case W_FUTEX:
        return "future";
    case W_ONCE:
        return "once";
    case W_SLEEP:
        return "sleep";
    }
    return "?";
}

static void deadlock_report(const char* why)
{
    char buf[2048];
    int n = 0;
    char sig[200];
    int sn = 0;
    for (Fiber* f = g->lhead; f && n < 1900; f = f->lnext) {
        n += snprintf(buf + n, sizeof(buf) - n, " [thread %d %s%s pc=%x<%x<%x]", f->id,
            f->state == FS_BLOCK ? "blocked on " : "runnable", f->state == FS_BLOCK ? wname(f->wkind) : "",
            f->csn > 0 && f->csn <= 1024 ? f->cs[f->csn - 1] : 0, f->csn > 1 && f->csn <= 1024 ? f->cs[f->csn - 2] : 0,
            f->csn > 2 && f->csn <= 1024 ? f->cs[f->csn - 3] : 0);
    }
    sig[0] = 0;
    for (Fiber* f = g->lhead; f && sn < 150; f = f->lnext) {
        sn += snprintf(sig + sn, sizeof(sig) - sn, "%s,", f->state == FS_BLOCK ? wname(f->wkind) : "runnable");
    }
    // stack of the main (lowest-id live) fiber is the most informative
    Fiber* m = nullptr;
    for (Fiber* f = g->lhead; f; f = f->lnext) {
        if (!m || f->id < m->id) {
            m = f;
        }
    }
    capture_stack(m, 0, 0);
    ds_violation("deadlock", sig, "%s:%s", why, buf);
}

static void do_switch(Fiber* to)
{
    Fiber* from = g->cur;
    if (from == to) {
        return;
    }
    R->switches++;
    R->hash = mix(R->hash, (g->dp << 16) ^ ((u64)from->id << 8) ^ to->id);
    R->ilv = mix(R->ilv, ((u64)from->id << 20) ^ ((u64)to->id << 4) ^ from->state);
    u64* eg = (u64*)__cxxabiv1::__cxa_get_globals();
    from->excg[0] = eg[0];
    from->excg[1] = eg[1];
    from->once[0] = std::__once_callable;
    from->once[1] = (void*)std::__once_call;
    from->err = errno;
    g->cur = to;
    to->ran = 0;
    ds_switch(&from->sp, to->sp);
    // back
    Fiber* me = g->cur;
    eg = (u64*)__cxxabiv1::__cxa_get_globals();
    eg[0] = me->excg[0];
    eg[1] = me->excg[1];
    std::__once_callable = me->once[0];
    std::__once_call = (void (*)())me->once[1];
    errno = me->err;
}

static void log_decision(int what, int arg)
{
    if (R->ndecisions < DEC_CAP) {
        DsDecision* d = &D[R->ndecisions];
        d->dp = g->dp;
        d->what = what;
        d->arg = arg;
    }
    R->ndecisions++;
}

static void recompute_evt()
{
    u64 e = ~0ull;
    if (g->cfg.strategy == DS_STRAT_REPLAY) {
        if (g->irep < g->cfg.nreplay) {
            e = g->cfg.replay[g->irep].dp;
        }
    } else {
        if (g->mem_next && g->mem_next < e) {
            e = g->mem_next;
        }
        if (g->cfg.strategy == DS_STRAT_PCT && g->ipct < g->npct && g->pct_pts[g->ipct] < e) {
            e = g->pct_pts[g->ipct];
        }
    }
    g->dp_evt = e;
}

static void sched_mem_next()
{
    if (g->cfg.mem_gap <= 0) {
        g->mem_next = 0;
        return;
    }
    double u = u01(&g->rng);
    double gap = -ln_approx(1.0 - u) * g->cfg.mem_gap;
    g->mem_next = g->dp + 1 + (u64)gap;
}

static Fiber* runnable_lowest()
{
    Fiber* b = nullptr;
    for (Fiber* f = g->lhead; f; f = f->lnext) {
        if (f->state == FS_RUN && (!b || f->id < b->id)) {
            b = f;
        }
    }
    return b;
}
static int count_runnable()
{
    int n = 0;
    for (Fiber* f = g->lhead; f; f = f->lnext) {
        n += f->state == FS_RUN;
    }
    return n;
}
static Fiber* runnable_nth(int k)
{
    for (Fiber* f = g->lhead; f; f = f->lnext) {
        if (f->state == FS_RUN && k-- == 0) {
            return f;
        }
    }
    return nullptr;
}
static Fiber* runnable_best()
{
    Fiber* b = nullptr;
    for (Fiber* f = g->lhead; f; f = f->lnext) {
        if (f->state == FS_RUN && (!b || f->prio > b->prio)) {
            b = f;
        }
    }
    return b;
}
static Fiber* live_by_id(int id)
{
    for (Fiber* f = g->lhead; f; f = f->lnext) {
        if (f->id == id) {
            return f;
        }
    }
    return nullptr;
}

static void wake_timers()
{
    for (Fiber* f = g->lhead; f; f = f->lnext) {
        if (f->state == FS_BLOCK && f->wake_at && f->wake_at <= g->now) {
            f->state = FS_RUN;
            f->timed_out = 1;
            f->wake_at = 0;
        }
    }
}

// Replay entries whose decision point has passed without applying (possible after minimisation) are skipped.
static void replay_skip()
{
    while (g->irep < g->cfg.nreplay && g->cfg.replay[g->irep].dp < g->dp) {
        g->irep++;
    }
}

static void consume_pct()
{
    while (g->ipct < g->npct && g->pct_pts[g->ipct] <= g->dp) {
        g->ipct++;
        if (g->cur) {
            g->cur->prio = --g->prio_low;
        }
    }
}

// A point at which the current fiber, still runnable, may be preempted. kind: 0 memory, 1 sync, 2 atomic, 3 yield
static void preempt_point(int kind)
{
    Fiber* me = g->cur;
    Fiber* to = me;
    if (g->cfg.strategy == DS_STRAT_REPLAY) {
        replay_skip();
        while (g->irep < g->cfg.nreplay && g->cfg.replay[g->irep].dp == g->dp) {
            const DsDecision* d = &g->cfg.replay[g->irep];
            if (d->what == 1) {
                Fiber* w = live_by_id(d->arg);
                if (w && w->state == FS_BLOCK && w->wkind == W_COND) {
                    w->state = FS_RUN;
                    R->fired[DS_F_SPURIOUS]++;
                }
                log_decision(1, d->arg);
                g->irep++;
                continue;
            }
            if (d->what == 0) {
                Fiber* f = live_by_id(d->arg);
                if (f && f->state == FS_RUN) {
                    to = f;
                }
                g->irep++;
            }
            break;
        }
        recompute_evt();
    } else {
        if (kind == 1 && g->cfg.p_spurious > 0 && u01(&g->rng) < g->cfg.p_spurious) {
            int n = 0;
            for (Fiber* f = g->lhead; f; f = f->lnext) {
                n += f->state == FS_BLOCK && f->wkind == W_COND;
            }
            if (n) {
                int k = sm64(&g->rng) % n;
                for (Fiber* f = g->lhead; f; f = f->lnext) {
                    if (f->state == FS_BLOCK && f->wkind == W_COND && k-- == 0) {
                        f->state = FS_RUN;
                        R->fired[DS_F_SPURIOUS]++;
                        log_decision(1, f->id);
                        break;
                    }
                }
            }
        }
        if (g->cfg.strategy == DS_STRAT_PCT) {
            if (kind == 3 || me->ran > 60000) {
                me->prio = --g->prio_low; // fairness: a spinning thread is demoted
                me->ran = 0;
            }
            consume_pct();
            to = runnable_best();
            if (kind == 0) {
                if (g->mem_next && g->dp >= g->mem_next) {
                    sched_mem_next();
                }
                recompute_evt();
            }
        } else {
            int n = count_runnable();
            int doit;
            if (kind == 0) {
                doit = 1;
                sched_mem_next();
                recompute_evt();
            } else {
                double p = kind == 2 ? g->cfg.p_sync * 0.1 : (kind == 3 ? 1.0 : g->cfg.p_sync);
                doit = n > 1 && u01(&g->rng) < p;
            }
            if (doit && n > 1) {
                // any other runnable fiber
                int k = sm64(&g->rng) % (n - 1);
                for (Fiber* f = g->lhead; f; f = f->lnext) {
                    if (f->state == FS_RUN && f != me && k-- == 0) {
                        to = f;
                        break;
                    }
                }
            }
        }
    }
    if (to && to != me) {
        R->preempts++;
        log_decision(0, to->id);
        do_switch(to);
    }
}

// current fiber cannot continue (blocked or done): choose who runs
static void block_switch()
{
    g->dp++;
    for (;;) {
        wake_timers();
        Fiber* def = runnable_lowest();
        if (!def) {
            // jump simulated time to the next timer
            u64 t = ~0ull;
            for (Fiber* f = g->lhead; f; f = f->lnext) {
                if (f->state == FS_BLOCK && f->wake_at && f->wake_at < t) {
                    t = f->wake_at;
                }
            }
            if (t == ~0ull) {
                deadlock_report("no thread can make progress");
            }
            g->now = t;
            continue;
        }
        Fiber* to = def;
        if (g->cfg.strategy == DS_STRAT_REPLAY) {
            replay_skip();
            while (g->irep < g->cfg.nreplay && g->cfg.replay[g->irep].dp == g->dp) {
                const DsDecision* d = &g->cfg.replay[g->irep];
                g->irep++;
                if (d->what == 0) {
                    Fiber* f = live_by_id(d->arg);
                    if (f && f->state == FS_RUN) {
                        to = f;
                    }
                    break;
                }
            }
            recompute_evt();
        } else if (g->cfg.strategy == DS_STRAT_PCT) {
            to = runnable_best();
        } else {
            to = runnable_nth(sm64(&g->rng) % count_runnable());
        }
        if (to != def) {
            log_decision(0, to->id);
        }
        do_switch(to);
        return;
    }
}

static inline void event(int kind, uptr obj)
{
    g->seq++;
    g->now += 20;
    R->syncs++;
    R->hash = mix(R->hash, ((u64)kind << 56) ^ ((u64)g->cur->id << 44) ^ obj);
}

static inline void sync_point(int kind)
{
    g->dp++;
    g->steps++;
    g->cur->ran++;
    if (g->live > 1 || g->cfg.strategy == DS_STRAT_REPLAY) {
        preempt_point(kind);
    }
    if (g->steps > g->cfg.max_steps) {
        budget_exhausted();
    }
}

static void block_on(int kind, uptr obj, u64 wake_at = 0)
{
    Fiber* me = g->cur;
    me->state = FS_BLOCK;
    me->wkind = kind;
    me->wobj = obj;
    me->wseq = ++g->wseq;
    me->wake_at = wake_at;
    me->timed_out = 0;
    block_switch();
    me->wkind = W_NONE;
    me->wake_at = 0;
}

static void wake_all(int kind, uptr obj)
{
    for (Fiber* f = g->lhead; f; f = f->lnext) {
        if (f->state == FS_BLOCK && f->wkind == kind && f->wobj == obj) {
            f->state = FS_RUN;
        }
    }
}

// ---- fibers ----------------------------------------------------------------------------------------------------------
static void clear_stack_cells(int stk)
{
    uptr base = STK_BASE + stk * STK_SZ;
    uptr low = g->stk_low[stk];
    uptr hi = base + STK_SZ;
    if (low && low < hi) {
        size_t o = (low - STK_BASE) >> 3, n = (hi - low) >> 3;
        __builtin_memset((void*)(CELL_STK + o * 32), 0, n * 32);
    }
    g->stk_low[stk] = hi;
}

static void fiber_main();
static Fiber* fiber_new(void* (*start)(void*), ds_fn hstart, void* arg)
{
    if (g->nfib >= MAXFIBERS || !g->nstk_free) {
        ds_inconclusive("too many simulated threads");
    }
    // choose slot: least recently freed
    int slot = -1;
    for (int i = 0; i < MAXSLOT; ++i) {
        if (!g->slot_used[i] && i < g->nslots && g->slot_freed[i] + 8 < g->slotseq) {
            if (slot < 0 || g->slot_freed[i] < g->slot_freed[slot]) {
                slot = i;
            }
        }
    }
    if (slot < 0 && g->nslots < MAXSLOT) {
        slot = g->nslots++;
    }
    if (slot < 0) {
        for (int i = 0; i < MAXSLOT; ++i) {
            if (!g->slot_used[i] && (slot < 0 || g->slot_freed[i] < g->slot_freed[slot])) {
                slot = i;
            }
        }
    }
    if (slot < 0) {
        ds_inconclusive("too many live simulated threads");
    }
    Fiber* f = (Fiber*)rt_alloc(sizeof(Fiber));
    f->id = g->nfib;
    g->fibers[g->nfib++] = f;
    f->slot = slot;
    g->slot_used[slot] = 1;
    f->stk = g->stk_free[--g->nstk_free];
    if (!g->stk_low[f->stk]) {
        // guard page at the low end
        mprotect((void*)(STK_BASE + f->stk * STK_SZ), 4096, PROT_NONE);
        g->stk_low[f->stk] = STK_BASE + (f->stk + 1) * STK_SZ;
    } else {
        clear_stack_cells(f->stk);
    }
    f->start = start;
    f->hstart = hstart;
    f->arg = arg;
    f->state = FS_RUN;
    f->joined = f->detached = 0;
    if (g->cur) {
        for (int i = 0; i < g->nslots; ++i) {
            f->vc[i] = g->cur->vc[i];
        }
        g->cur->vc[g->cur->slot]++;
    }
    if (g->slot_epoch[slot] >= f->vc[slot]) {
        f->vc[slot] = g->slot_epoch[slot];
    }
    f->vc[slot]++;
    switch (g->cfg.prio_mode) {
    case DS_PRIO_NEW_LOW:
        f->prio = --g->prio_low;
        break;
    case DS_PRIO_NEW_HIGH:
        f->prio = (1ull << 62) + f->id;
        break;
    case DS_PRIO_MAIN_LOW:
        f->prio = f->id ? (1ull << 60) + (sm64(&g->rng) >> 8) : 1000;
        break;
    case DS_PRIO_MAIN_HIGH:
        f->prio = f->id ? (1ull << 60) + (sm64(&g->rng) >> 8) : (1ull << 62);
        break;
    default:
        f->prio = (1ull << 60) + (sm64(&g->rng) >> 8);
    }
    // initial context
    uptr top = STK_BASE + (f->stk + 1) * STK_SZ - 64;
    top &= ~(uptr)15;
    u64* sp = (u64*)top;
    *--sp = 0; // fake return address for fiber_main (keeps alignment: rsp%16==8 at entry)
    *--sp = (u64)(uptr)&fiber_main;
    for (int i = 0; i < 6; ++i) {
        *--sp = 0;
    }
    --sp;
    u32 mxcsr = 0x1f80;
    u32 fcw = 0x037f;
    ((u32*)sp)[0] = mxcsr;
    ((u32*)sp)[1] = fcw;
    f->sp = sp;
    f->lnext = g->lhead;
    if (g->lhead) {
        g->lhead->lprev = f;
    }
    g->lhead = f;
    g->live++;
    if ((u64)g->live > R->max_live) {
        R->max_live = g->live;
    }
    return f;
}

static void fiber_exit(void* ret)
{
    Fiber* f = g->cur;
    f->ret = ret;
    if (f->locks) {
        ds_violation("lock_leak", "", "thread %d ended while holding %d mutex(es)", f->id, f->locks);
    }
    event(9, f->id);
    f->state = FS_DONE;
    g->slot_epoch[f->slot] = f->vc[f->slot];
    g->slot_used[f->slot] = 0;
    g->slot_freed[f->slot] = ++g->slotseq;
    if (f->lprev) {
        f->lprev->lnext = f->lnext;
    } else {
        g->lhead = f->lnext;
    }
    if (f->lnext) {
        f->lnext->lprev = f->lprev;
    }
    g->live--;
    g->stk_free[g->nstk_free++] = f->stk;
    wake_all(W_JOIN, f->id);
    if (f->id == 0) {
        ds_finish();
    }
    block_switch();
    __builtin_trap();
}

__attribute__((noinline)) static void fiber_body(Fiber* f)
{
    void* ret = nullptr;
    if (f->start) {
        ret = f->start(f->arg);
    } else {
        f->hstart(f->arg);
    }
    fiber_exit(ret);
}

static void fiber_main()
{
    Fiber* f = g->cur;
    u64* eg = (u64*)__cxxabiv1::__cxa_get_globals();
    eg[0] = eg[1] = 0;
    std::__once_callable = nullptr;
    std::__once_call = nullptr;
    try {
        fiber_body(f);
    } catch (...) {
        ds_violation("terminate", "thread", "an exception left the start function of thread %d", f->id);
    }
}

extern "C" int ds_spawn(ds_fn fn, void* arg)
{
    Fiber* f = fiber_new(nullptr, fn, arg);
    f->harness = 1;
    event(1, f->id);
    sync_point(1);
    return f->id;
}
static void join_fiber(int id)
{
    sync_point(1);
    Fiber* f = g->fibers[id];
    while (f->state != FS_DONE) {
        block_on(W_JOIN, id);
    }
    f->joined = 1;
    vc_acq(g->cur, f->vc);
    event(2, id);
}
extern "C" void ds_join(int id) { join_fiber(id); }
extern "C" int ds_self(void) { return g->cur ? g->cur->id : -1; }
extern "C" void ds_yield(void) { sync_point(3); }
extern "C" uint64_t ds_now_seq(void) { return ++g->seq; }
extern "C" void ds_sut(int on)
{
    if (g->cur) {
        g->cur->sut = on;
    }
}
extern "C" int ds_sut_get(void) { return g->cur ? g->cur->sut : 0; }
extern "C" void ds_arm(int on) { g->armed = on; }
extern "C" uint64_t ds_fault_fired_total(void) { return g->fired_total; }
extern "C" void ds_log(uint64_t v) { R->hash = mix(R->hash, v); }
extern "C" void ds_log_str(const char* s)
{
    for (; *s; ++s) {
        R->hash = mix(R->hash, (u8)*s);
    }
}
extern "C" void ds_probe(int i) { R->probes[i & 63]++; }
extern "C" uint64_t ds_rand(void) { return sm64(&g->hrng); }
extern "C" int ds_live(void) { return g->live; }
extern "C" int ds_runnable_others(void) { return count_runnable() - 1; }
extern "C" void ds_alloc_stats(uint64_t* b, uint64_t* n)
{
    *b = g->live_blocks;
    *n = g->live_bytes;
}
extern "C" int ds_sut_locks_held(void) { return g->cur->locks; }
extern "C" int ds_locks_held_total(void) { return g->locks_total; }

// ---- signals / termination -------------------------------------------------------------------------------------------
static void on_signal(int sig, siginfo_t* si, void* uc)
{
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE"
        : sig == SIGILL                                                                        ? "SIGILL"
                                                                                               : "SIGABRT";
    if (sig == SIGALRM) {
        R->status = 3;
        snprintf(R->msg, sizeof R->msg, "real-time watchdog expired (steps=%llu)", (unsigned long long)g->steps);
        flush_result();
        _exit(4);
    }
    g_active = 0;
    ucontext_t* u = (ucontext_t*)uc;
    u32 pc = (u32)u->uc_mcontext.gregs[REG_RIP];
    capture_stack(g->cur, 0, pc);
    ds_violation("crash", n, "%s (si_code %d) at address %p pc %x in thread %d", n, si->si_code,
        sig == SIGABRT ? nullptr : si->si_addr, pc, g->cur ? g->cur->id : -1);
}
static void on_terminate()
{
    const char* tn = "none";
    std::type_info* t = __cxxabiv1::__cxa_current_exception_type();
    if (t) {
        tn = t->name();
    }
    g_active = 0;
    capture_stack(g->cur, 0, 0);
    ds_violation("terminate", tn, "std::terminate called in thread %d; active exception type: %s",
        g->cur ? g->cur->id : -1, tn);
}
extern "C" void __wrap_abort(void)
{
    if (!g_active) {
        __real_abort();
    }
    ds_violation("crash", "abort", "abort() called");
}

static void quick_sort_pts(u64* a, int n)
{
    for (int i = 1; i < n; ++i) {
        u64 v = a[i];
        int j = i - 1;
        while (j >= 0 && a[j] > v) {
            a[j + 1] = a[j];
            --j;
        }
        a[j + 1] = v;
    }
}

extern "C" void ds_run(const DsConfig* cfg, ds_fn fn, void* arg)
{
    ds_init();
    __real_memset(R, 0, sizeof *R);
    __real_memcpy(&g->cfg, cfg, sizeof *cfg);
    g->rng = cfg->sched_seed * 0x9e3779b97f4a7c15ull + 12345;
    g->envrng = cfg->env_seed * 0xd1342543de82ef95ull + 777;
    g->hrng = cfg->env_seed * 0xaf251af3b0f025b5ull + 99;
    g->prio_low = 1ull << 40;
    g->now = 1700000000ull * 1000000000ull;
    if (cfg->strategy == DS_STRAT_PCT) {
        g->npct = cfg->pct_depth > 60 ? 60 : cfg->pct_depth;
        for (int i = 0; i < g->npct; ++i) {
            g->pct_pts[i] = 1 + sm64(&g->rng) % (cfg->pct_span ? cfg->pct_span : 1);
        }
        quick_sort_pts(g->pct_pts, g->npct);
    }
    sched_mem_next();
    recompute_evt();
    g->sigstk = (u8*)rt_alloc(65536);
    stack_t ss;
    ss.ss_sp = g->sigstk;
    ss.ss_size = 65536;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    __real_memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGILL, &sa, nullptr);
    sigaction(SIGABRT, &sa, nullptr);
    sigaction(SIGALRM, &sa, nullptr);
    alarm(60);
    std::set_terminate(on_terminate);
    Fiber* f = fiber_new(nullptr, fn, arg);
    f->harness = 1;
    g->cur = f;
    g_active = 1;
    ds_switch(&g->main_sp, f->sp);
    _exit(95);
}

// ---- heap ------------------------------------------------------------------------------------------------------------
static inline int in_heap(uptr a) { return a - HEAP_BASE < HEAP_SIZE; }
static inline u8* hs(uptr a) { return (u8*)HS_BASE + ((a - HEAP_BASE) >> 3); }

static int cls_of(size_t total)
{
    // power-of-two-ish classes with 4 steps
    if (total <= 64) {
        return 0;
    }
    int lg = 63 - __builtin_clzll(total - 1);
    int sub = ((total - 1) >> (lg - 2)) & 3;
    int c = (lg - 6) * 4 + sub + 1;
    return c >= NCLS ? NCLS - 1 : c;
}
static size_t cls_size(int c)
{
    if (!c) {
        return 64;
    }
    c--;
    int lg = c / 4 + 6, sub = c % 4;
    return ((size_t)1 << lg) + ((size_t)(sub + 1) << (lg - 2));
}

static void* heap_alloc(size_t n, size_t align)
{
    if (align < 16) {
        align = 16;
    }
    size_t need = 32 + n + 16;
    Block* b = nullptr;
    size_t total;
    int cls = cls_of(need);
    uptr p;
    if (align == 16 && cls < NCLS - 1) {
        total = cls_size(cls);
        if (g->quarantine > (16ull << 20) && g->freelist_head[cls]) {
            b = g->freelist_head[cls];
            g->freelist_head[cls] = *(Block**)(b + 1);
            if (!g->freelist_head[cls]) {
                g->freelist_tail[cls] = nullptr;
            }
            g->quarantine -= total;
            p = (uptr)(b + 1);
        } else {
            p = ((g->bump + 32 + 15) & ~(uptr)15);
            g->bump = p - 32 + total;
        }
    } else {
        cls = NCLS; // not recycled
        p = (g->bump + 32 + align - 1) & ~(uptr)(align - 1);
        total = 0;
        g->bump = (p + n + 16 + 15) & ~(uptr)15;
    }
    if (g->bump > HEAP_BASE + HEAP_SIZE) {
        if (g_active) {
            ds_inconclusive("simulated heap exhausted");
        }
        _exit(94);
    }
    b = (Block*)p - 1;
    b->size = n;
    b->magic = 0xA110CA7E;
    b->cls = cls;
    b->total = total;
    b->seq = ++g->blkseq;
    size_t gr = n / 8;
    u8* h = hs(p);
    for (size_t i = 0; i < gr; ++i) {
        h[i] = 8;
    }
    h[gr] = n & 7;
    h[gr + 1] = 0;
    g->live_blocks++;
    g->live_bytes += n;
    if (g_active) {
        R->allocs++;
    }
    return (void*)p;
}

static void race_range(uptr a, size_t n, int write, u32 pc);

static void heap_free(void* ptr, u32 pc)
{
    uptr p = (uptr)ptr;
    Block* b = (Block*)p - 1;
    if (b->magic != 0xA110CA7E) {
        if (g_active) {
            capture_stack(g->cur, 0, pc);
            ds_violation("bad_free", b->magic == 0xF4EEF4EE ? "double free" : "wild free", "%s of %p by thread %d",
                b->magic == 0xF4EEF4EE ? "double free" : "free of a pointer not returned by the allocator", ptr,
                g->cur->id);
        }
        return;
    }
    size_t n = b->size;
    if (g_active && g->live > 1 && g->cfg.race_detect) {
        race_range(p, n, 1, pc);
    }
    b->magic = 0xF4EEF4EE;
    size_t gr = (n + 7) / 8;
    u8* h = hs(p);
    for (size_t i = 0; i < gr; ++i) {
        if (h[i] & 0x80) {
            for (int k = 0; k < 8; ++k) {
                SyncObj* s = sync_get(p + i * 8 + k, 0);
                if (s) {
                    if (g_active && s->isMutex && s->owner >= 0) {
                        capture_stack(g->cur, 0, pc);
                        ds_violation("lock_destroyed", "", "memory of a mutex freed while thread %d holds it", s->owner);
                    }
                    if (g_active) {
                        for (Fiber* f = g->lhead; f; f = f->lnext) {
                            if (f->state == FS_BLOCK && f->wobj == s->addr && f->wkind != W_JOIN) {
                                capture_stack(g->cur, 0, pc);
                                ds_violation("lock_destroyed", "waiter",
                                    "memory of a synchronisation object freed while thread %d waits on it (%s)", f->id,
                                    wname(f->wkind));
                            }
                        }
                    }
                    sync_drop(p + i * 8 + k);
                }
            }
        }
        h[i] = 0x40;
    }
    // race cells of freed memory are dropped so that reuse starts clean
    if (g_active) {
        size_t o = (p - HEAP_BASE) >> 3;
        if (b->cls < NCLS) {
            __builtin_memset((void*)(CELL_BASE + o * 32), 0, gr * 32);
        }
    }
    g->live_blocks--;
    g->live_bytes -= n;
    if (b->cls < NCLS) {
        int c = b->cls;
        *(Block**)(b + 1) = nullptr;
        if (g->freelist_tail[c]) {
            *(Block**)(g->freelist_tail[c] + 1) = b;
        } else {
            g->freelist_head[c] = b;
        }
        g->freelist_tail[c] = b;
        g->quarantine += b->total;
    }
}

static inline int may_fault()
{
    return g_active && g->armed && (g->cur->sut || !g->cur->harness);
}

#define RETPC ((u32)(uptr)__builtin_return_address(0))

static void* new_impl(size_t n, size_t align)
{
    if (!inited) {
        ds_init();
    }
    if (may_fault() && fault_hit(DS_F_ALLOC)) {
        return nullptr;
    }
    if (n > (1ull << 28)) {
        return nullptr; // an absurd request: the simulated machine has no such memory
    }
    return heap_alloc(n, align);
}
static void* new_throw(size_t n, size_t align)
{
    void* p = new_impl(n, align);
    if (!p) {
        throw std::bad_alloc();
    }
    return p;
}
void* operator new(size_t n) { return new_throw(n, 16); }
void* operator new[](size_t n) { return new_throw(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return new_throw(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return new_throw(n, (size_t)a); }
static inline void del_impl(void* p, u32 pc)
{
    if (!p) {
        return;
    }
    if (in_heap((uptr)p)) {
        heap_free(p, pc);
    } else {
        __real_free(p);
    }
}
void operator delete(void* p) noexcept { del_impl(p, RETPC); }
void operator delete[](void* p) noexcept { del_impl(p, RETPC); }
void operator delete(void* p, size_t) noexcept { del_impl(p, RETPC); }
void operator delete[](void* p, size_t) noexcept { del_impl(p, RETPC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del_impl(p, RETPC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del_impl(p, RETPC); }
void operator delete(void* p, std::align_val_t) noexcept { del_impl(p, RETPC); }
void operator delete[](void* p, std::align_val_t) noexcept { del_impl(p, RETPC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del_impl(p, RETPC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del_impl(p, RETPC); }

extern "C" {
void* __wrap_malloc(size_t n) { return inited ? heap_alloc(n, 16) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b)
{
    void* p = __wrap_malloc(a * b);
    __real_memset(p, 0, a * b);
    return p;
}
void __wrap_free(void* p)
{
    if (p) {
        del_impl(p, RETPC);
    }
}
void* __wrap_realloc(void* p, size_t n)
{
    if (!p) {
        return __wrap_malloc(n);
    }
    if (!in_heap((uptr)p)) {
        __real_abort();
    }
    size_t o = ((Block*)p - 1)->size;
    void* q = __wrap_malloc(n);
    __real_memcpy(q, p, o < n ? o : n);
    del_impl(p, RETPC);
    return q;
}
void* __wrap_aligned_alloc(size_t a, size_t n)
{
    if (may_fault() && fault_hit(DS_F_BIGALLOC)) {
        return nullptr;
    }
    if (n > (1ull << 28)) {
        return nullptr;
    }
    void* p = heap_alloc(n, a);
    // A real allocator returns arbitrary bytes: make any dependence on the initial content visible, deterministically.
    if (g_active) {
        for (size_t i = 0; i + 4 <= n; i += 4) {
            *(float*)((char*)p + i) = 0.37f;
        }
    }
    return p;
}
int __wrap_posix_memalign(void** out, size_t a, size_t n)
{
    *out = __wrap_aligned_alloc(a, n);
    return *out ? 0 : ENOMEM;
}
}

// ---- race detector ---------------------------------------------------------------------------------------------------
// cell: slot 0..7 | mask 8..15 | write 16 | atomic 17 | epoch 18..63
static inline u64* cells_of(uptr a, u32** pcs)
{
    uptr o;
    if ((o = a - HEAP_BASE) < HEAP_SIZE) {
        o >>= 3;
        *pcs = (u32*)(PC_BASE + o * 16);
        return (u64*)(CELL_BASE + o * 32);
    }
    if ((o = a - STK_BASE) < STK_SZ * NSTK) {
        int idx = o / STK_SZ;
        if (a < g->stk_low[idx]) {
            g->stk_low[idx] = a & ~(uptr)7;
        }
        o >>= 3;
        *pcs = (u32*)(PC_STK + o * 16);
        return (u64*)(CELL_STK + o * 32);
    }
    if (a >= glb_lo && a < glb_hi) {
        o = (a - glb_lo) >> 3;
        *pcs = (u32*)(PC_GLB + o * 16);
        return (u64*)(CELL_GLB + o * 32);
    }
    return nullptr;
}

static void race_report(uptr a, u64 c, int write, int atomic, u32 pc, u32 opc) __attribute__((noinline, noreturn));
static void race_report(uptr a, u64 c, int write, int atomic, u32 pc, u32 opc)
{
    capture_stack(g->cur, 0, pc);
    R->pcs[1][0] = opc;
    R->npcs[1] = 1;
    const char* region = in_heap(a) ? "heap" : (a - STK_BASE < STK_SZ * NSTK ? "stack" : "global");
    ds_violation("data_race", "", "data race on %s address %p: %s%s by thread %d (pc %x) vs earlier %s%s (pc %x), unordered",
        region, (void*)a, atomic ? "atomic " : "", write ? "write" : "read", g->cur->id, pc, (c >> 17 & 1) ? "atomic " : "",
        (c >> 16 & 1) ? "write" : "read", opc);
}

static inline void race_granule(uptr a, u32 mask, int write, int atomic, u32 pc)
{
    u32* pcs;
    u64* c = cells_of(a, &pcs);
    if (!c) {
        return;
    }
    Fiber* f = g->cur;
    const int slot = f->slot;
    const u64 nc = (u64)slot | ((u64)mask << 8) | ((u64)write << 16) | ((u64)atomic << 17) | (f->vc[slot] << 18);
    int place = -1;
    for (int i = 0; i < 4; ++i) {
        const u64 x = c[i];
        if (!x) {
            if (place < 0) {
                place = i;
            }
            continue;
        }
        const u32 xm = (x >> 8) & 0xff;
        if (!(xm & mask)) {
            continue;
        }
        const int xs = x & 0xff;
        const int xw = (x >> 16) & 1;
        const int xa = (x >> 17) & 1;
        if (xs == slot) {
            if (xm == mask && (write || !xw) && xa >= atomic) {
                if (place < 0 || c[place] == 0) {
                    place = i; // replace own weaker entry
                }
            } else if (xm == mask && xw && !write && xa <= atomic && (x >> 18) == f->vc[slot]) {
                return; // already recorded by a stronger access in the same epoch
            }
            continue;
        }
        if ((x >> 18) <= f->vc[xs]) {
            if ((xm & ~mask) == 0 && (write || !xw)) {
                if (place < 0) {
                    place = i;
                }
            }
            continue;
        }
        if (!(write || xw) || (atomic && xa)) {
            continue;
        }
        race_report(a, x, write, atomic, pc, pcs[i]);
    }
    if (place < 0) {
        place = (int)(g->steps & 3);
    }
    c[place] = nc;
    pcs[place] = pc;
}

static void race_range(uptr a, size_t n, int write, u32 pc)
{
    uptr e = a + n;
    while (a < e) {
        uptr gbase = a & ~(uptr)7;
        uptr ge = gbase + 8 < e ? gbase + 8 : e;
        u32 m = ((1u << (ge - gbase)) - 1) & ~((1u << (a - gbase)) - 1);
        race_granule(a, m & 0xff, write, 0, pc);
        a = ge;
    }
}

static void heap_bad(uptr a, size_t n, int write, u32 pc) __attribute__((noinline, noreturn));
static void heap_bad(uptr a, size_t n, int write, u32 pc)
{
    u8 s = *hs(a);
    const char* k = (s & 0x40) ? "use after free" : "out of bounds heap access";
    capture_stack(g->cur, 0, pc);
    ds_violation("memory", k, "%s: %s of %zu bytes at %p by thread %d (pc %x)", k, write ? "write" : "read", n, (void*)a,
        g->cur->id, pc);
}

static inline void heap_check(uptr a, size_t n, int write, u32 pc)
{
    // small sizes
    uptr e = a + n;
    for (uptr x = a & ~(uptr)7; x < e; x += 8) {
        u8 s = *hs(x) & 0x7f;
        if (s == 8) {
            continue;
        }
        uptr lim = x + 8 < e ? x + 8 : e;
        if ((s & 0x40) || (lim - x) > s) {
            heap_bad(x < a ? a : x, n, write, pc);
        }
    }
}

static void mem_evt()
{
    if (g->steps > g->cfg.max_steps) {
        budget_exhausted();
    }
    if (g->live > 1 || g->cfg.strategy == DS_STRAT_REPLAY) {
        preempt_point(0);
    } else {
        if (g->cfg.strategy == DS_STRAT_PCT) {
            consume_pct();
        }
        if (g->mem_next && g->dp >= g->mem_next) {
            sched_mem_next();
        }
        recompute_evt();
    }
}

static inline __attribute__((always_inline)) void access(uptr a, size_t n, int write, int atomic, u32 pc)
{
    if (!g_active) {
        return;
    }
    g->steps++;
    g->cur->ran++;
    if (in_heap(a)) {
        const u8 s = *hs(a) & 0x7f;
        if (!(s == 8 && ((a & 7) + n) <= 8)) {
            heap_check(a, n, write, pc);
        }
    } else if (a < 4096) {
        capture_stack(g->cur, 0, pc);
        ds_violation("crash", "null", "null pointer %s at %p (pc %x)", write ? "write" : "read", (void*)a, pc);
    }
    if (g->live > 1 && g->cfg.race_detect) {
        const u32 off = a & 7;
        if (off + n <= 8) {
            race_granule(a, (((1u << n) - 1) << off) & 0xff, write, atomic, pc);
        } else {
            race_range(a, n, write, pc);
        }
    }
    if (++g->dp >= g->dp_evt || g->steps > g->cfg.max_steps) {
        mem_evt();
    } else if (g->cfg.strategy == DS_STRAT_PCT && g->cur->ran > 200000 && g->live > 1) {
        preempt_point(0);
    }
}

static void access_range(uptr a, size_t n, int write, u32 pc)
{
    if (!g_active || !n) {
        return;
    }
    g->steps += 1 + n / 64;
    if (in_heap(a)) {
        heap_check(a, n, write, pc);
    } else if (a < 4096) {
        capture_stack(g->cur, 0, pc);
        ds_violation("crash", "null", "null pointer range %s at %p", write ? "write" : "read", (void*)a);
    }
    if (g->live > 1 && g->cfg.race_detect) {
        race_range(a, n, write, pc);
    }
    if (++g->dp >= g->dp_evt) {
        mem_evt();
    }
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
    if (!g_active) {
        return;
    }
    Fiber* f = g->cur;
    if (f->csn < 1024 && f->csn >= 0) {
        f->cs[f->csn] = (u32)(uptr)pc;
    }
    f->csn++;
    g->steps++;
    if (f->csn > 20000) {
        ds_violation("stack_overflow", "", "runaway recursion");
    }
}
void __tsan_func_exit(void)
{
    if (g_active) {
        Fiber* f = g->cur;
        if (f->csn > 0) {
            f->csn--;
        }
    }
}
#define RW(N)                                                                                                          \
    void __tsan_read##N(void* a) { access((uptr)a, N, 0, 0, RETPC); }                                                  \
    void __tsan_write##N(void* a) { access((uptr)a, N, 1, 0, RETPC); }                                                 \
    void __tsan_unaligned_read##N(void* a) { access((uptr)a, N, 0, 0, RETPC); }                                        \
    void __tsan_unaligned_write##N(void* a) { access((uptr)a, N, 1, 0, RETPC); }                                       \
    void __tsan_volatile_read##N(void* a) { access((uptr)a, N, 0, 0, RETPC); }                                         \
    void __tsan_volatile_write##N(void* a) { access((uptr)a, N, 1, 0, RETPC); }                                        \
    void __tsan_unaligned_volatile_read##N(void* a) { access((uptr)a, N, 0, 0, RETPC); }                               \
    void __tsan_unaligned_volatile_write##N(void* a) { access((uptr)a, N, 1, 0, RETPC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_vptr_update(void** p, void* v)
{
    if (g_active && *p != v) {
        access((uptr)p, 8, 1, 0, RETPC);
    }
}
void __tsan_vptr_read(void** p) { access((uptr)p, 8, 0, 0, RETPC); }
void __tsan_read_range(void* a, unsigned long n) { access_range((uptr)a, n, 0, RETPC); }
void __tsan_write_range(void* a, unsigned long n) { access_range((uptr)a, n, 1, RETPC); }

void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (g_active && n) {
        access_range((uptr)s, n, 0, RETPC);
        access_range((uptr)d, n, 1, RETPC);
    }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (g_active && n) {
        access_range((uptr)s, n, 0, RETPC);
        access_range((uptr)d, n, 1, RETPC);
    }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (g_active && n) {
        access_range((uptr)d, n, 1, RETPC);
    }
    return __real_memset(d, c, n);
}
}

static inline int mo_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline int mo_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static inline void atomic_pre(uptr a, size_t n, int write, u32 pc)
{
    if (!g_active) {
        return;
    }
    access(a, n, write, 1, pc);
    if (g->live > 1) {
        g->dp++;
        preempt_point(2);
        // memory may have been freed while we were preempted: the access itself is checked again
        if (in_heap(a)) {
            heap_check(a, n, write, pc);
        }
    }
}
// kind: 0 load, 1 store, 2 rmw
static inline void atomic_hb(uptr a, int kind, int mo)
{
    if (!g_active || g->live <= 1) {
        // with a single live thread all later threads are ordered by creation; keep release clocks only when needed
        return;
    }
    Fiber* f = g->cur;
    if (kind == 0) {
        if (mo_acq(mo)) {
            SyncObj* s = sync_get(a, 0);
            if (s) {
                vc_acq(f, s->vc);
            }
        }
        return;
    }
    R->hash = mix(R->hash, a ^ ((u64)f->id << 48));
    if (kind == 1) {
        if (mo_rel(mo)) {
            vc_rel_set(f, sync_get(a)->vc);
        }
        return;
    }
    SyncObj* s = sync_get(a);
    if (mo_acq(mo)) {
        vc_acq(f, s->vc);
    }
    if (mo_rel(mo)) {
        vc_rel_merge(f, s->vc);
    }
}

#define ATOM(B, T)                                                                                                     \
    extern "C" T __tsan_atomic##B##_load(const volatile T* a, int mo)                                                  \
    {                                                                                                                  \
        atomic_pre((uptr)a, sizeof(T), 0, RETPC);                                                                      \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                    \
        atomic_hb((uptr)a, 0, mo);                                                                                     \
        return v;                                                                                                      \
    }                                                                                                                  \
    extern "C" void __tsan_atomic##B##_store(volatile T* a, T v, int mo)                                               \
    {                                                                                                                  \
        atomic_pre((uptr)a, sizeof(T), 1, RETPC);                                                                      \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
        atomic_hb((uptr)a, 1, mo);                                                                                     \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo)                                               \
    {                                                                                                                  \
        atomic_pre((uptr)a, sizeof(T), 1, RETPC);                                                                      \
        T o = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                             \
        atomic_hb((uptr)a, 2, mo);                                                                                     \
        return o;                                                                                                      \
    }                                                                                                                  \
    ATOM_OP(B, T, add)                                                                                                 \
    ATOM_OP(B, T, sub)                                                                                                 \
    ATOM_OP(B, T, and)                                                                                                 \
    ATOM_OP(B, T, or)                                                                                                  \
    ATOM_OP(B, T, xor)                                                                                                 \
    extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo)               \
    {                                                                                                                  \
        atomic_pre((uptr)a, sizeof(T), 1, RETPC);                                                                      \
        int ok = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                          \
        atomic_hb((uptr)a, ok ? 2 : 0, ok ? mo : fmo);                                                                 \
        return ok;                                                                                                     \
    }                                                                                                                  \
    extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo)                 \
    {                                                                                                                  \
        return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo);                                           \
    }                                                                                                                  \
    extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo)                     \
    {                                                                                                                  \
        __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo);                                                 \
        return c;                                                                                                      \
    }
#define ATOM_OP(B, T, op)                                                                                              \
    extern "C" T __tsan_atomic##B##_fetch_##op(volatile T* a, T v, int mo)                                             \
    {                                                                                                                  \
        atomic_pre((uptr)a, sizeof(T), 1, RETPC);                                                                      \
        T o = __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);                                                             \
        atomic_hb((uptr)a, 2, mo);                                                                                     \
        return o;                                                                                                      \
    }
ATOM(8, u8)
ATOM(16, uint16_t)
ATOM(32, u32)
ATOM(64, u64)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---- pthread seam ----------------------------------------------------------------------------------------------------
static void mutex_acquire(uptr a, int recursive, u32 pc)
{
    Fiber* me = g->cur;
    if (in_heap(a)) {
        heap_check(a, 8, 1, pc);
    }
    SyncObj* s = sync_get(a);
    s->isMutex = 1;
    if (s->owner == me->id) {
        if (recursive) {
            s->count++;
            return;
        }
        capture_stack(me, 0, pc);
        ds_violation("deadlock", "self-lock", "thread %d locks a non-recursive mutex it already holds", me->id);
    }
    while (s->owner >= 0) {
        block_on(W_MUTEX, a);
        if (in_heap(a)) {
            heap_check(a, 8, 1, pc);
        }
        s = sync_get(a);
        s->isMutex = 1;
    }
    s->owner = me->id;
    s->count = 1;
    me->locks++;
    g->locks_total++;
    vc_acq(me, s->vc);
    event(3, a);
}
static void mutex_release(uptr a, u32 pc)
{
    Fiber* me = g->cur;
    SyncObj* s = sync_get(a);
    if (s->owner != me->id) {
        capture_stack(me, 0, pc);
        ds_violation("bad_unlock", "", "thread %d unlocks a mutex it does not hold (owner %d)", me->id, s->owner);
    }
    if (--s->count) {
        return;
    }
    s->owner = -1;
    me->locks--;
    g->locks_total--;
    vc_rel_set(me, s->vc);
    event(4, a);
    wake_all(W_MUTEX, a);
}

extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!g_active) {
        return 0;
    }
    sync_point(1);
    mutex_acquire((uptr)m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, RETPC);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!g_active) {
        return 0;
    }
    sync_point(1);
    SyncObj* s = sync_get((uptr)m);
    if (s->owner >= 0 && !(s->owner == g->cur->id && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE)) {
        return EBUSY;
    }
    mutex_acquire((uptr)m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE, RETPC);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!g_active) {
        return 0;
    }
    mutex_release((uptr)m, RETPC);
    sync_point(1);
    return 0;
}
static int cond_wait_impl(uptr c, uptr m, u64 wake_at, u32 pc)
{
    sync_point(1);
    mutex_release(m, pc);
    sync_get(c);
    event(5, c);
    block_on(W_COND, c, wake_at);
    int to = g->cur->timed_out;
    mutex_acquire(m, 0, pc);
    return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!g_active) {
        return 0;
    }
    return cond_wait_impl((uptr)c, (uptr)m, 0, RETPC);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!g_active) {
        return 0;
    }
    u64 t = ts->tv_sec * 1000000000ull + ts->tv_nsec;
    return cond_wait_impl((uptr)c, (uptr)m, t > g->now ? t : g->now + 1, RETPC);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
    return __wrap_pthread_cond_timedwait(c, m, ts);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
    if (!g_active) {
        return 0;
    }
    sync_point(1);
    if (in_heap((uptr)c)) {
        heap_check((uptr)c, 8, 1, RETPC);
    }
    event(6, (uptr)c);
    // FIFO by default, any waiter is legal
    int n = 0;
    Fiber* first = nullptr;
    for (Fiber* f = g->lhead; f; f = f->lnext) {
        if (f->state == FS_BLOCK && f->wkind == W_COND && f->wobj == (uptr)c) {
            n++;
            if (!first || f->wseq < first->wseq) {
                first = f;
            }
        }
    }
    if (!n) {
        return 0;
    }
    Fiber* pick = first;
    if (g->cfg.strategy == DS_STRAT_REPLAY) {
        for (size_t i = g->irep; i < g->cfg.nreplay && g->cfg.replay[i].dp <= g->dp; ++i) {
            if (g->cfg.replay[i].dp == g->dp && g->cfg.replay[i].what == 2) {
                Fiber* f = live_by_id(g->cfg.replay[i].arg);
                if (f && f->state == FS_BLOCK && f->wkind == W_COND && f->wobj == (uptr)c) {
                    pick = f;
                }
            }
        }
    } else if (n > 1) {
        int k = sm64(&g->rng) % n;
        for (Fiber* f = g->lhead; f; f = f->lnext) {
            if (f->state == FS_BLOCK && f->wkind == W_COND && f->wobj == (uptr)c && k-- == 0) {
                pick = f;
                break;
            }
        }
    }
    if (pick != first) {
        log_decision(2, pick->id);
    }
    pick->state = FS_RUN;
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!g_active) {
        return 0;
    }
    sync_point(1);
    if (in_heap((uptr)c)) {
        heap_check((uptr)c, 8, 1, RETPC);
    }
    event(7, (uptr)c);
    wake_all(W_COND, (uptr)c);
    return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t*) { return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t*) { return 0; }

#define PT_BASE 0x7d00000000000000ull
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (!g_active) {
        __real_abort();
    }
    sync_point(1);
    if (may_fault() && fault_hit(DS_F_THREAD)) {
        return EAGAIN;
    }
    Fiber* f = fiber_new(fn, nullptr, arg);
    f->sut = 1;
    *t = PT_BASE + f->id + 1;
    event(1, f->id);
    sync_point(1);
    return 0;
}
int __wrap_pthread_join(pthread_t t, void** ret)
{
    int id = (int)(t - PT_BASE - 1);
    if (id == g->cur->id) {
        return EDEADLK;
    }
    join_fiber(id);
    if (ret) {
        *ret = g->fibers[id]->ret;
    }
    return 0;
}
int __wrap_pthread_detach(pthread_t t)
{
    g->fibers[(int)(t - PT_BASE - 1)]->detached = 1;
    return 0;
}
pthread_t __wrap_pthread_self(void)
{
    if (!g_active) {
        return __real_pthread_self();
    }
    return PT_BASE + g->cur->id + 1;
}
int __wrap_sched_yield(void)
{
    if (g_active) {
        sync_point(3);
    }
    return 0;
}
static void sim_sleep(u64 ns)
{
    event(8, ns);
    block_on(W_SLEEP, 0, g->now + (ns ? ns : 1));
}
int __wrap_nanosleep(const struct timespec* r, struct timespec*)
{
    if (g_active) {
        sim_sleep(r->tv_sec * 1000000000ull + r->tv_nsec);
    }
    return 0;
}
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec* r, struct timespec* m)
{
    return __wrap_nanosleep(r, m);
}
int __wrap_usleep(useconds_t u)
{
    if (g_active) {
        sim_sleep(u * 1000ull);
    }
    return 0;
}
int __wrap_pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if (!g_active) {
        SyncObj* s = sync_get((uptr)o);
        if (s->state != 2) {
            s->state = 2;
            fn();
        }
        return 0;
    }
    sync_point(1);
    SyncObj* s = sync_get((uptr)o);
    while (s->state == 1) {
        block_on(W_ONCE, (uptr)o);
        s = sync_get((uptr)o);
    }
    if (s->state == 2) {
        vc_acq(g->cur, s->vc);
        return 0;
    }
    s->state = 1;
    try {
        fn();
    } catch (...) {
        s = sync_get((uptr)o);
        s->state = 0;
        wake_all(W_ONCE, (uptr)o);
        throw;
    }
    s = sync_get((uptr)o);
    s->state = 2;
    vc_rel_set(g->cur, s->vc);
    wake_all(W_ONCE, (uptr)o);
    sync_point(1);
    return 0;
}
int __wrap___cxa_guard_acquire(u64* gd)
{
    u8* b = (u8*)gd;
    if (!g_active) {
        if (*b) {
            return 0;
        }
        return 1;
    }
    sync_point(1);
    SyncObj* s = sync_get((uptr)gd);
    while (s->state == 1) {
        block_on(W_ONCE, (uptr)gd);
    }
    if (*b) {
        vc_acq(g->cur, s->vc);
        return 0;
    }
    s->state = 1;
    return 1;
}
void __wrap___cxa_guard_release(u64* gd)
{
    *(u8*)gd = 1;
    if (!g_active) {
        return;
    }
    SyncObj* s = sync_get((uptr)gd);
    s->state = 2;
    vc_rel_set(g->cur, s->vc);
    wake_all(W_ONCE, (uptr)gd);
}
void __wrap___cxa_guard_abort(u64* gd)
{
    if (!g_active) {
        return;
    }
    SyncObj* s = sync_get((uptr)gd);
    s->state = 0;
    wake_all(W_ONCE, (uptr)gd);
}

// std::future's futex
bool __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* addr, unsigned val, bool has_timeout, long s, long ns)
{
    if (!g_active) {
        return true;
    }
    sync_point(1);
    if (*(volatile unsigned*)addr != val) {
        return true;
    }
    event(10, (uptr)addr);
    sync_get((uptr)addr);
    u64 w = has_timeout ? (u64)s * 1000000000ull + ns : 0;
    if (has_timeout && w <= g->now) {
        return false;
    }
    block_on(W_FUTEX, (uptr)addr, w);
    return !(has_timeout && g->cur->timed_out);
}
bool __wrap__ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void* self, unsigned* addr, unsigned val, bool has_timeout, long s, long ns)
{
    return __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
        self, addr, val, has_timeout, s, ns);
}
void __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(void*, unsigned* addr)
{
    if (!g_active) {
        return;
    }
    sync_point(1);
    event(11, (uptr)addr);
    wake_all(W_FUTEX, (uptr)addr);
}

unsigned __wrap__ZNSt6thread20hardware_concurrencyEv(void) { return g && g->cfg.ncores ? g->cfg.ncores : 4; }

// ---- randomness and time ---------------------------------------------------------------------------------------------
void __wrap__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
void __wrap__ZNSt13random_device7_M_finiEv(void*) {}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*)
{
    if (!g_active) {
        return 0x12345u;
    }
    g->seq++;
    return (unsigned)(sm64(&g->envrng) >> 32);
}
static uint64_t g_rd_extreme; // hardware draws within 1e-4 of 0 or 1
int dsim_rdrand32(unsigned* pv)
{
    if (!g_active) {
        *pv = 12345;
        return 1;
    }
    if (may_fault() && fault_hit(DS_F_RDRAND)) {
        *pv = 0;
        return 0;
    }
    u64 r = sm64(&g->envrng);
    unsigned v = (unsigned)(r >> 32);
    switch (g->cfg.rd_mode) {
    case 1:
        v = 0;
        break;
    case 2:
        v = 0xfff00000u;
        break;
    case 3:
        if ((r & 7) == 0) {
            v = 0x00100000u;
        } else if ((r & 7) == 1) {
            v = 0xfff00000u;
        }
        break;
    case 4:
        v = 0x00100000u;
        break;
    case 5:
        v = 0xffffffffu;
        break;
    }
    if (v < 429497u || v > 4294967295u - 429497u) {
        g_rd_extreme++;
    }
    *pv = v;
    return 1;
}
uint64_t ds_rd_extreme(void) { return g_rd_extreme; }
time_t __wrap_time(time_t* t)
{
    time_t v = g_active ? (time_t)(g->now / 1000000000ull) : 1700000000;
    if (t) {
        *t = v;
    }
    return v;
}
int __wrap_clock_gettime(clockid_t, struct timespec* ts)
{
    u64 n = g_active ? (g->now += 100) : 1700000000ull * 1000000000ull;
    ts->tv_sec = n / 1000000000ull;
    ts->tv_nsec = n % 1000000000ull;
    return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void*)
{
    u64 n = g_active ? (g->now += 100) : 1700000000ull * 1000000000ull;
    tv->tv_sec = n / 1000000000ull;
    tv->tv_usec = (n % 1000000000ull) / 1000;
    return 0;
}
char* __wrap_getenv(const char* name)
{
    if (g && g_active) {
        for (int i = 0; i < g->cfg.nenv; ++i) {
            const char *a = g->cfg.env[i][0], *b = name;
            while (*a && *a == *b) {
                ++a;
                ++b;
            }
            if (!*a && !*b) {
                return g->cfg.env[i][1][0] ? g->cfg.env[i][1] : nullptr;
            }
        }
    }
    return __real_getenv(name);
}

// ---- simulated filesystem --------------------------------------------------------------------------------------------
#define HMAGIC 0x51f5f11e00c0ffeeull
#define FAKE_FD 1000000
static int is_sim_path(const char* p)
{
    const char* q = "/simfs/";
    while (*q) {
        if (*p++ != *q++) {
            return 0;
        }
    }
    return 1;
}
static int streq(const char* a, const char* b)
{
    while (*a && *a == *b) {
        ++a;
        ++b;
    }
    return *a == *b;
}
static SimFile* find_file(const char* p, int create)
{
    for (int i = 0; i < g->nfiles; ++i) {
        if (streq(g->files[i].name, p)) {
            return &g->files[i];
        }
    }
    if (!create || g->nfiles >= 32) {
        return nullptr;
    }
    SimFile* f = &g->files[g->nfiles++];
    int i = 0;
    for (; p[i] && i < 119; ++i) {
        f->name[i] = p[i];
    }
    f->name[i] = 0;
    f->data = nullptr;
    f->size = f->cap = 0;
    return f;
}
static void file_reserve(SimFile* f, size_t n)
{
    if (n <= f->cap) {
        return;
    }
    size_t c = f->cap ? f->cap : 4096;
    while (c < n) {
        c *= 2;
    }
    char* d = (char*)rt_alloc(c);
    if (f->size) {
        __real_memcpy(d, f->data, f->size);
    }
    f->data = d;
    f->cap = c;
}
static SimHandle* as_handle(FILE* fp)
{
    SimHandle* h = (SimHandle*)fp;
    if (g && h >= g->handles && h < g->handles + 64) {
        return h;
    }
    return nullptr;
}
static SimHandle* fd_handle(int fd)
{
    if (fd >= FAKE_FD && fd < FAKE_FD + 64) {
        return &g->handles[fd - FAKE_FD];
    }
    return nullptr;
}
static FILE* sim_fopen(const char* path, const char* mode)
{
    if (g_active) {
        sync_point(1);
        event(20, 0);
    }
    if (fault_hit(DS_F_OPEN)) {
        errno = EACCES;
        return nullptr;
    }
    int wr = mode[0] == 'w' || mode[0] == 'a';
    SimFile* f = find_file(path, wr);
    if (!f) {
        errno = ENOENT;
        return nullptr;
    }
    for (int i = 0; i < 64; ++i) {
        SimHandle* h = &g->handles[i];
        if (!h->used) {
            h->used = 1;
            h->magic = HMAGIC;
            h->f = f;
            h->append = mode[0] == 'a';
            h->rd = mode[0] == 'r';
            h->wr = wr;
            for (const char* m = mode; *m; ++m) {
                if (*m == '+') {
                    h->rd = h->wr = 1;
                }
            }
            h->pos = 0;
            if (mode[0] == 'w') {
                f->size = 0;
            }
            if (h->append) {
                h->pos = f->size;
            }
            return (FILE*)h;
        }
    }
    errno = EMFILE;
    return nullptr;
}
FILE* __wrap_fopen(const char* p, const char* m) { return is_sim_path(p) ? sim_fopen(p, m) : __real_fopen(p, m); }
FILE* __wrap_fopen64(const char* p, const char* m) { return is_sim_path(p) ? sim_fopen(p, m) : __real_fopen64(p, m); }
int __wrap_fclose(FILE* fp)
{
    SimHandle* h = as_handle(fp);
    if (!h) {
        return __real_fclose(fp);
    }
    event(21, 0);
    h->used = 0;
    if (h->wr && fault_hit(DS_F_CLOSE)) {
        errno = EIO;
        return EOF;
    }
    return 0;
}
int __wrap_fflush(FILE* fp) { return as_handle(fp) ? 0 : __real_fflush(fp); }
int __wrap_fileno(FILE* fp)
{
    SimHandle* h = as_handle(fp);
    return h ? FAKE_FD + (int)(h - g->handles) : __real_fileno(fp);
}
static ssize_t sim_write(SimHandle* h, const void* p, size_t n)
{
    sync_point(1);
    event(22, n);
    if (fault_hit(DS_F_WRITE)) {
        errno = ENOSPC;
        return -1;
    }
    if (n > 1 && fault_hit(DS_F_SHORTWRITE)) {
        n = 1 + sm64(&g->envrng) % (n - 1);
    }
    file_reserve(h->f, h->pos + n);
    __real_memcpy(h->f->data + h->pos, p, n);
    h->pos += n;
    if (h->pos > h->f->size) {
        h->f->size = h->pos;
    }
    return n;
}
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
    SimHandle* h = fd_handle(fd);
    return h ? sim_write(h, p, n) : __real_write(fd, p, n);
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int c)
{
    SimHandle* h = fd_handle(fd);
    if (!h) {
        return __real_writev(fd, v, c);
    }
    ssize_t t = 0;
    for (int i = 0; i < c; ++i) {
        if (!v[i].iov_len) {
            continue;
        }
        ssize_t r = sim_write(h, v[i].iov_base, v[i].iov_len);
        if (r < 0) {
            return t ? t : -1;
        }
        t += r;
        if ((size_t)r < v[i].iov_len) {
            break;
        }
    }
    return t;
}
ssize_t __wrap_read(int fd, void* p, size_t n)
{
    SimHandle* h = fd_handle(fd);
    if (!h) {
        return __real_read(fd, p, n);
    }
    sync_point(1);
    event(23, n);
    if (fault_hit(DS_F_READ)) {
        errno = EIO;
        return -1;
    }
    size_t av = h->pos < h->f->size ? h->f->size - h->pos : 0;
    if (n > av) {
        n = av;
    }
    if (n > 1 && fault_hit(DS_F_SHORTREAD)) {
        n = 1 + sm64(&g->envrng) % (n - 1);
    }
    if (n) {
        __real_memcpy(p, h->f->data + h->pos, n);
    }
    h->pos += n;
    return n;
}
off64_t __wrap_lseek64(int fd, off64_t o, int w)
{
    SimHandle* h = fd_handle(fd);
    if (!h) {
        return __real_lseek64(fd, o, w);
    }
    off64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off64_t)h->pos : (off64_t)h->f->size;
    if (b + o < 0) {
        errno = EINVAL;
        return -1;
    }
    h->pos = b + o;
    return h->pos;
}
int __wrap_fstat64(int fd, struct stat64* st)
{
    SimHandle* h = fd_handle(fd);
    if (!h) {
        return __real_fstat64(fd, st);
    }
    __real_memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644;
    st->st_size = h->f->size;
    return 0;
}
int __wrap_fstat(int fd, struct stat* st) { return __wrap_fstat64(fd, (struct stat64*)st); }
int __wrap_ioctl(int fd, unsigned long rq, void* arg)
{
    SimHandle* h = fd_handle(fd);
    if (!h) {
        return __real_ioctl(fd, rq, arg);
    }
    if (rq == FIONREAD) {
        *(int*)arg = h->pos < h->f->size ? (int)(h->f->size - h->pos) : 0;
        return 0;
    }
    errno = ENOTTY;
    return -1;
}
int __wrap_poll(struct pollfd* p, nfds_t n, int t)
{
    if (n == 1 && fd_handle(p->fd)) {
        p->revents = POLLIN;
        return 1;
    }
    return __real_poll(p, n, t);
}
size_t ds_fs_size(const char* p)
{
    SimFile* f = find_file(p, 0);
    return f ? f->size : 0;
}
const char* ds_fs_data(const char* p)
{
    SimFile* f = find_file(p, 0);
    return f ? f->data : nullptr;
}
void ds_fs_put(const char* p, const char* d, size_t n)
{
    SimFile* f = find_file(p, 1);
    char* nd = (char*)rt_alloc(n + 1);
    __real_memcpy(nd, d, n);
    f->data = nd;
    f->cap = n;
    f->size = n;
}
int ds_fs_open_handles(void)
{
    int n = 0;
    for (int i = 0; i < 64; ++i) {
        n += g->handles[i].used;
    }
    return n;
}
}
