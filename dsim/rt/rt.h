// dsim runtime: deterministic simulator for a multi-threaded C++ library.
// Everything below is C-level so that the runtime shares no std:: template code with the system under test.
#pragma once
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

// ---- run configuration -------------------------------------------------------------------------------------------
enum { DS_STRAT_RANDOM = 0, DS_STRAT_PCT = 1, DS_STRAT_REPLAY = 2 };
enum { DS_PRIO_RANDOM = 0, DS_PRIO_NEW_LOW = 1, DS_PRIO_NEW_HIGH = 2, DS_PRIO_MAIN_LOW = 3, DS_PRIO_MAIN_HIGH = 4 };
enum {
    DS_F_ALLOC = 0, // operator new fails (std::bad_alloc)
    DS_F_BIGALLOC, // aligned_alloc (state vector storage) returns null
    DS_F_THREAD, // pthread_create returns EAGAIN
    DS_F_RDRAND, // hardware RNG instruction reports failure
    DS_F_OPEN, // fopen fails
    DS_F_WRITE, // write fails (ENOSPC)
    DS_F_SHORTWRITE, // write accepts fewer bytes than asked (legal)
    DS_F_READ, // read fails (EIO)
    DS_F_SHORTREAD, // read returns fewer bytes than asked (legal)
    DS_F_CLOSE, // close fails (EIO)
    DS_F_SPURIOUS, // spurious condition-variable wake-up (legal)
    DS_F_NKINDS
};

typedef struct {
    int kind;
    uint64_t at; // n-th event of that kind (0-based), counted while faults are armed
    uint64_t count; // how many consecutive events fail
} DsFault;

typedef struct {
    uint64_t dp; // decision point index
    int32_t what; // 0: switch to fiber `arg`; 1: spurious wake of fiber `arg`; 2: notify picks waiter `arg`
    int32_t arg;
} DsDecision;

typedef struct {
    uint64_t sched_seed;
    uint64_t env_seed; // random_device, rdrand, time
    int strategy;
    int prio_mode;
    double p_sync; // RANDOM: switch probability at synchronisation points
    double mem_gap; // mean number of memory accesses between preemptions inside plain code (0 = never)
    int pct_depth; // PCT: number of priority change points
    uint64_t pct_span; // PCT: change points are spread over that many decision points
    double p_spurious;
    int ncores; // what hardware_concurrency() answers
    int rd_mode; // 0 uniform, 1 zero, 2 just below one, 3 mixture of the two sides, 4 just above zero, 5 all one bits
    uint64_t max_steps;
    int race_detect;
    int nfaults;
    DsFault faults[32];
    int nenv;
    char env[16][2][64];
    const DsDecision* replay;
    size_t nreplay;
} DsConfig;

// ---- result (lives in memory shared with the parent) -----------------------------------------------------------------
typedef struct {
    int status; // 0 = running / died unexpectedly, 1 = finished, 2 = violation, 3 = inconclusive
    char cls[64]; // violation class
    char msg[3072];
    uint64_t hash; // hash over the complete event log
    uint64_t ilv; // hash over the interleaving only (sequence of scheduling decisions by fiber and kind)
    uint64_t steps, dps, switches, preempts, fibers, allocs, syncs;
    uint64_t fired[DS_F_NKINDS];
    uint64_t events[DS_F_NKINDS]; // opportunities
    uint64_t probes[64];
    uint64_t max_live;
    uint64_t ops, checks;
    double maxerr;
    uint64_t simtime_ns;
    uint64_t ndecisions;
    int nontrivial;
    char sig[256]; // signature of the violation for known-findings / minimisation
    uint32_t pcs[2][24];
    int npcs[2];
} DsResult;

typedef void (*ds_fn)(void*);

// parent side
void ds_init(void); // once per process, before anything else of the runtime
DsResult* ds_result(void); // shared result page
DsDecision* ds_decisions(void); // shared decision log (ndecisions entries, capped)
size_t ds_decisions_cap(void);
// child side: run fn(arg) as the main fiber under the simulator; never returns (exits the process)
void ds_run(const DsConfig* cfg, ds_fn fn, void* arg) __attribute__((noreturn));

// harness calls from inside fibers
void ds_violation(const char* cls, const char* sig, const char* fmt, ...) __attribute__((noreturn, format(printf, 3, 4)));
void ds_inconclusive(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void ds_finish(void) __attribute__((noreturn));
int ds_spawn(ds_fn fn, void* arg); // client fiber; returns id
void ds_join(int id);
int ds_self(void);
void ds_yield(void); // explicit scheduling point
uint64_t ds_now_seq(void); // global event sequence number
void ds_sut(int on); // mark current fiber as running SUT code (faults may hit it)
int ds_sut_get(void);
void ds_arm(int on); // arm / disarm fault injection
uint64_t ds_fault_fired_total(void);
uint64_t ds_rd_extreme(void); // hardware random draws so far within 1e-4 of either end
void ds_log(uint64_t v); // mix into the event hash
void ds_log_str(const char* s);
void ds_probe(int i);
void ds_soft_budget(int on); // exhausting the step budget ends the run quietly
uint64_t ds_rand(void); // harness stream (independent of the scheduler)
int ds_live(void); // live fibers
int ds_runnable_others(void);
void ds_alloc_stats(uint64_t* live_blocks, uint64_t* live_bytes); // live SUT heap
int ds_sut_locks_held(void); // number of mutexes currently locked by the calling fiber
int ds_locks_held_total(void);
// simulated filesystem (paths under /simfs/)
size_t ds_fs_size(const char* path);
const char* ds_fs_data(const char* path);
void ds_fs_put(const char* path, const char* data, size_t n);
int ds_fs_open_handles(void);

#ifdef __cplusplus
}
#endif
