// Command line of the simulator binary: generate, run, batch.
#include "core.h"
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static Program PROG; // the only place a program is built: the parent process never uses the simulated heap after start
static DsDecision DECBUF[1 << 20];

extern "C" ssize_t __real_write(int, const void*, size_t);
extern "C" int __real_clock_gettime(clockid_t, struct timespec*);

static double now_real()
{
    struct timespec ts;
    __real_clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ---- output without the C++ or C heap ---------------------------------------------------------------------------------
static char OUT[1 << 16];
static void emit_fd(int fd, const char* s, size_t n)
{
    while (n) {
        ssize_t k = __real_write(fd, s, n);
        if (k <= 0) {
            _exit(90);
        }
        s += k;
        n -= (size_t)k;
    }
}
static void emitf(int fd, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void emitf(int fd, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(OUT, sizeof OUT, fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof OUT) {
        n = sizeof OUT - 1;
    }
    emit_fd(fd, OUT, (size_t)n);
}

static const Workload* find_wl(const char* n)
{
    for (int i = 0; i < NWORKLOADS; ++i) {
        if (!strcmp(WORKLOADS[i].name, n)) {
            return &WORKLOADS[i];
        }
    }
    return nullptr;
}

static const char* FK[] = { "alloc", "bigalloc", "thread", "rdrand", "open", "write", "shortwrite", "read", "shortread",
    "close", "spurious" };

static void gen_program(const Workload* w, uint64_t seed, Program* p)
{
    memset((void*)p, 0, sizeof *p);
    snprintf(p->workload, sizeof p->workload, "%s", w->name);
    p->seed = seed;
    Rng m(seed ^ 0x5851f42d4c957f2dull);
    Rng r(m.next() * 0xd1342543de82ef95ull + m.next());
    p->nregs = 1;
    p->nclients = 1;
    p->nq = 3;
    gen_sched(p, r);
    w->gen(p, r);
}

static void write_program(int fd, const Program* p, const DsDecision* dec, size_t ndec)
{
    const Workload* w = find_wl(p->workload);
    const DsConfig& s = p->sc;
    emitf(fd, "workload %s\nseed %llu\n", p->workload, (unsigned long long)p->seed);
    emitf(fd, "run stack=%s nq=%d nregs=%d nclients=%d hwrng=%d randphase=%d donorm=%d variant=%d clifford=%d checkevery=%d\n",
        STACKS[p->stack].name, p->nq, p->nregs, p->nclients, p->hwrng, p->randphase, p->donorm, p->variant, p->clifford,
        p->checkevery);
    emitf(fd,
        "sched seed=%llu env=%llu strategy=%d prio=%d psync=%.17g memgap=%.17g depth=%d span=%llu pspurious=%.17g "
        "cores=%d rd=%d maxsteps=%llu race=%d\n",
        (unsigned long long)s.sched_seed, (unsigned long long)s.env_seed, s.strategy, s.prio_mode, s.p_sync, s.mem_gap,
        s.pct_depth, (unsigned long long)s.pct_span, s.p_spurious, s.ncores, s.rd_mode, (unsigned long long)s.max_steps,
        s.race_detect);
    for (int i = 0; i < s.nenv; ++i) {
        emitf(fd, "env %s %s\n", s.env[i][0], s.env[i][1]);
    }
    for (int i = 0; i < s.nfaults; ++i) {
        emitf(fd, "fault %s at=%llu count=%llu\n", FK[s.faults[i].kind], (unsigned long long)s.faults[i].at,
            (unsigned long long)s.faults[i].count);
    }
    for (int i = 0; i < p->nops; ++i) {
        emitf(fd, "op %d %s %d %llu\n", p->ops[i].client, w->opname(p->ops[i].code), p->ops[i].reg,
            (unsigned long long)p->ops[i].seed);
    }
    for (size_t i = 0; i < ndec; ++i) {
        emitf(fd, "dec %llu %d %d\n", (unsigned long long)dec[i].dp, dec[i].what, dec[i].arg);
    }
}

static char* FILEBUF;
static size_t read_file(const char* path)
{
    int fd = open(path, O_RDONLY);
    if (fd < 0) {
        return 0;
    }
    size_t cap = 64u << 20, n = 0;
    if (!FILEBUF) {
        FILEBUF = (char*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    for (;;) {
        // the plain system call: read() is wrapped
        ssize_t k = pread(fd, FILEBUF + n, cap - 1 - n, (off_t)n);
        if (k <= 0) {
            break;
        }
        n += (size_t)k;
    }
    close(fd);
    FILEBUF[n] = 0;
    return n;
}
static int kv_ll(const char* line, const char* key, long long* v)
{
    char pat[48];
    snprintf(pat, sizeof pat, " %s=", key);
    const char* p = strstr(line, pat);
    if (!p) {
        return 0;
    }
    *v = (long long)strtoull(p + strlen(pat), nullptr, 10);
    return 1;
}
static int kv_d(const char* line, const char* key, double* v)
{
    char pat[48];
    snprintf(pat, sizeof pat, " %s=", key);
    const char* p = strstr(line, pat);
    if (!p) {
        return 0;
    }
    *v = strtod(p + strlen(pat), nullptr);
    return 1;
}
static int parse_program(Program* p)
{
    memset((void*)p, 0, sizeof *p);
    const Workload* w = nullptr;
    size_t ndec = 0;
    int replay = 0;
    for (char* l = FILEBUF; *l;) {
        char* e = strchr(l, '\n');
        if (e) {
            *e = 0;
        }
        long long v;
        if (!strncmp(l, "workload ", 9)) {
            snprintf(p->workload, sizeof p->workload, "%s", l + 9);
            w = find_wl(p->workload);
            if (!w) {
                return 0;
            }
        } else if (!strncmp(l, "seed ", 5)) {
            p->seed = strtoull(l + 5, nullptr, 10);
        } else if (!strncmp(l, "run ", 4)) {
            char st[64];
            const char* q = strstr(l, " stack=");
            sscanf(q + 7, "%63s", st);
            p->stack = stack_by_name(st);
            if (p->stack < 0) {
                return 0;
            }
#define GI(f) \
    if (kv_ll(l, #f, &v)) \
    p->f = (int)v
            GI(nq);
            GI(nregs);
            GI(nclients);
            GI(hwrng);
            GI(randphase);
            GI(donorm);
            GI(variant);
            GI(clifford);
            GI(checkevery);
        } else if (!strncmp(l, "sched ", 6)) {
            DsConfig& s = p->sc;
            double d;
#define GS(k, f, T) \
    if (kv_ll(l, k, &v)) \
    s.f = (T)v
            GS("seed", sched_seed, uint64_t);
            GS("env", env_seed, uint64_t);
            GS("strategy", strategy, int);
            GS("prio", prio_mode, int);
            GS("depth", pct_depth, int);
            GS("span", pct_span, uint64_t);
            GS("cores", ncores, int);
            GS("rd", rd_mode, int);
            GS("maxsteps", max_steps, uint64_t);
            GS("race", race_detect, int);
            if (kv_d(l, "psync", &d)) {
                s.p_sync = d;
            }
            if (kv_d(l, "memgap", &d)) {
                s.mem_gap = d;
            }
            if (kv_d(l, "pspurious", &d)) {
                s.p_spurious = d;
            }
        } else if (!strncmp(l, "env ", 4)) {
            DsConfig& s = p->sc;
            if (s.nenv < 16) {
                sscanf(l + 4, "%63s %63s", s.env[s.nenv][0], s.env[s.nenv][1]);
                s.nenv++;
            }
        } else if (!strncmp(l, "fault ", 6)) {
            DsConfig& s = p->sc;
            char k[32];
            sscanf(l + 6, "%31s", k);
            for (int i = 0; i < DS_F_NKINDS; ++i) {
                if (!strcmp(FK[i], k) && s.nfaults < 32) {
                    DsFault& f = s.faults[s.nfaults++];
                    f.kind = i;
                    kv_ll(l, "at", &v);
                    f.at = (uint64_t)v;
                    kv_ll(l, "count", &v);
                    f.count = (uint64_t)v;
                }
            }
        } else if (!strncmp(l, "op ", 3)) {
            Op& o = p->ops[p->nops];
            char nm[32];
            unsigned long long sd;
            if (sscanf(l + 3, "%d %31s %d %llu", &o.client, nm, &o.reg, &sd) != 4) {
                return 0;
            }
            o.seed = sd;
            o.code = w->opcode(nm);
            if (o.code < 0 || p->nops + 1 >= MAXOPS) {
                return 0;
            }
            p->nops++;
        } else if (!strncmp(l, "dec ", 4)) {
            unsigned long long dp;
            DsDecision& d = DECBUF[ndec];
            sscanf(l + 4, "%llu %d %d", &dp, &d.what, &d.arg);
            d.dp = dp;
            ndec++;
            replay = 1;
        } else if (!strncmp(l, "replay", 6)) {
            replay = 1;
        }
        if (!e) {
            break;
        }
        l = e + 1;
    }
    p->dec = DECBUF;
    p->ndec = ndec;
    if (replay) {
        p->sc.strategy = DS_STRAT_REPLAY;
        p->sc.replay = DECBUF;
        p->sc.nreplay = ndec;
    }
    return w != nullptr;
}

static void entry(void* a)
{
    const Program* p = (const Program*)a;
    find_wl(p->workload)->run(p);
    ds_finish();
}

static int run_child(const Program* p)
{
    DsResult* R = ds_result();
    R->status = 0;
    pid_t pid = fork();
    if (!pid) {
        ds_run(&p->sc, entry, (void*)p);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {
    }
    if (R->status == 0) {
        R->status = 3;
        snprintf(R->msg, sizeof R->msg, "simulated process ended abnormally (wait status %x)", st);
    }
    return R->status;
}

static void print_result(const Program* p, const DsResult* R, const char* path)
{
    emitf(1,
        "RUN %llu st=%d hash=%016llx ilv=%016llx steps=%llu dps=%llu sw=%llu pre=%llu fib=%llu sync=%llu ops=%llu chk=%llu "
        "err=%.3g simns=%llu ndec=%llu nt=%d alloc=%llu stack=%s",
        (unsigned long long)p->seed, R->status, (unsigned long long)R->hash, (unsigned long long)R->ilv,
        (unsigned long long)R->steps, (unsigned long long)R->dps, (unsigned long long)R->switches,
        (unsigned long long)R->preempts, (unsigned long long)R->fibers, (unsigned long long)R->syncs,
        (unsigned long long)R->ops, (unsigned long long)R->checks, R->maxerr, (unsigned long long)R->simtime_ns,
        (unsigned long long)R->ndecisions, R->nontrivial, (unsigned long long)R->allocs, STACKS[p->stack].name);
    for (int i = 0; i < DS_F_NKINDS; ++i) {
        if (R->fired[i]) {
            emitf(1, " f:%s=%llu", FK[i], (unsigned long long)R->fired[i]);
        }
    }
    for (int i = 0; i < 64; ++i) {
        if (R->probes[i]) {
            emitf(1, " p:%d=%llu", i, (unsigned long long)R->probes[i]);
        }
    }
    emitf(1, "\n");
    if (R->status >= 2) {
        emitf(1, "MSG %llu cls=%s sig=%s | %s\n", (unsigned long long)p->seed, R->cls[0] ? R->cls : "-",
            R->sig[0] ? R->sig : "-", R->msg);
        for (int k = 0; k < 2; ++k) {
            if (R->npcs[k]) {
                emitf(1, "PCS %llu %d", (unsigned long long)p->seed, k);
                for (int i = 0; i < R->npcs[k]; ++i) {
                    emitf(1, " %x", R->pcs[k][i]);
                }
                emitf(1, "\n");
            }
        }
        if (path) {
            emitf(1, "FILE %llu %s\n", (unsigned long long)p->seed, path);
        }
    }
}

static int usage()
{
    emitf(2, "usage: sim list | gen WORKLOAD SEED | run FILE [--dec OUT] | batch WORKLOAD SEED0 STRIDE COUNT TIME OUTDIR "
             "[stop]\n");
    return 2;
}

int main(int argc, char** argv)
{
    ds_init();
    if (argc < 2) {
        return usage();
    }
    if (!strcmp(argv[1], "list")) {
        for (int i = 0; i < NWORKLOADS; ++i) {
            emitf(1, "%s\n", WORKLOADS[i].name);
        }
        return 0;
    }
    if (!strcmp(argv[1], "gen") && argc >= 4) {
        const Workload* w = find_wl(argv[2]);
        if (!w) {
            return usage();
        }
        gen_program(w, strtoull(argv[3], nullptr, 10), &PROG);
        write_program(1, &PROG, nullptr, 0);
        return 0;
    }
    if (!strcmp(argv[1], "run") && argc >= 3) {
        if (!read_file(argv[2]) || !parse_program(&PROG)) {
            emitf(2, "cannot read %s\n", argv[2]);
            return 2;
        }
        int st = run_child(&PROG);
        DsResult* R = ds_result();
        print_result(&PROG, R, nullptr);
        if (argc >= 5 && !strcmp(argv[3], "--dec")) {
            int fd = open(argv[4], O_CREAT | O_TRUNC | O_WRONLY, 0644);
            write_program(fd, &PROG, ds_decisions(), R->ndecisions < ds_decisions_cap() ? R->ndecisions : 0);
            close(fd);
        }
        return st == 1 ? 0 : st == 2 ? 1 : 3;
    }
    if (!strcmp(argv[1], "batch") && argc >= 8) {
        const Workload* w = find_wl(argv[2]);
        if (!w) {
            return usage();
        }
        uint64_t s0 = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10),
                 cnt = strtoull(argv[5], nullptr, 10);
        double T = strtod(argv[6], nullptr), t0 = now_real();
        int stop = argc >= 9 ? atoi(argv[8]) : 0, bad = 0;
        for (uint64_t i = 0; i < cnt && now_real() - t0 < T; ++i) {
            gen_program(w, s0 + i * stride, &PROG);
            int st = run_child(&PROG);
            DsResult* R = ds_result();
            char path[512];
            path[0] = 0;
            if (st >= 2) {
                snprintf(path, sizeof path, "%s/%s-%llu.prog", argv[7], w->name, (unsigned long long)PROG.seed);
                int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
                write_program(fd, &PROG, nullptr, 0);
                close(fd);
            }
            print_result(&PROG, R, path[0] ? path : nullptr);
            if (st == 2 && ++bad == stop) {
                break;
            }
        }
        emitf(1, "END %.3f\n", now_real() - t0);
        return 0;
    }
    return usage();
}
