// Shared declarations of the simulation harness (program format, registers, helpers).
#pragma once
#include "qfactory.hpp"
#include "qcircuit.hpp"
#include "ref.h"
#include "rt.h"

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using namespace Qrack;

#define MAXOPS 400
#define MAXCLIENTS 6
#define MAXREGS 8

struct Op {
    int client;
    int code;
    int reg;
    uint64_t seed;
};

// A program is plain data so that it can be generated, written to a file, reduced and replayed.
struct Program {
    char workload[32];
    uint64_t seed;
    DsConfig sc;
    // workload configuration
    int stack; // index into the stack table
    int nq; // initial qubits
    int nregs;
    int nclients;
    int hwrng;
    int randphase;
    int donorm;
    int variant; // workload specific
    int clifford; // generate Clifford gates only
    int checkevery; // 0: only at the end, k: state comparison after about one in k ops
    int nops;
    Op ops[MAXOPS];
    DsDecision* dec;
    size_t ndec;
};

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed)
        : s(seed)
    {
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
};

struct Reg {
    QInterfacePtr q;
    Ref r;
    int live;
    int poisoned; // a fault made an operation on it fail: contents unspecified until overwritten
    int stack;
    int loose; // accumulated looseness (small-probability projections)
    double tol; // fidelity tolerance of this stack
    double nerr; // estimated rounding error of the norm
    Reg()
        : live(0)
        , poisoned(0)
        , stack(0)
        , loose(0)
        , tol(1e-4)
        , nerr(0)
    {
        r.n = 0;
        r.a = 0;
    }
};

struct StackDef {
    const char* name;
    int n;
    QInterfaceEngine e[4];
    int clifford_only;
    int alu; // QAlu interface is available
    int noisy;
    int approx;
    int structure; // compose/decompose supported
};
extern const StackDef STACKS[];
extern const int NSTACKS;
int stack_by_name(const char* s);

QInterfacePtr make_q(const Program* P, int stack, int nq, int64_t perm, qrack_rand_gen_ptr rng);

// op codes of the register workload
int op_by_name(const char* name);
const char* op_name(int code);
int op_count();
int op_flags(int code);
double op_weight(int code);
enum {
    OF_CLIFF = 1, // allowed for Clifford-only programs
    OF_ALU = 2,
    OF_MEAS = 4,
    OF_QUERY = 8,
    OF_STRUCT = 16,
    OF_OVER = 32,
    OF_LIFE = 64,
    OF_MISC = 128,
    OF_GATE = 256,
    OF_FORCE = 512
};

struct Ctx {
    const Program* P;
    const char* cur; // current op name
    int client;
    int sub; // variant of the current op, for messages
    Reg regs[MAXREGS];
    qrack_rand_gen_ptr rng;
    qrack_rand_gen rng0; // as it was before the current operation
    uint64_t rd0;
    Reg* also; // a second register the current operation writes
    int cur_op;
    double maxerr;
    uint64_t checks;
};
// one context per client fiber
extern Ctx* CTXS[4096];
#define C (CTXS[ds_self() & 4095])
#define CUR (C->cur)
void exec_op(Ctx& c, const Op& op);
void check_state(Reg& g, const char* where);
void check_prob(double got, double want, double tol, const char* what);
bool violation_expected_exception(const std::exception& e);

// workloads
typedef void (*wl_main)(const Program*);
typedef void (*wl_gen)(Program*, Rng&);
void reg_main(const Program*);
void capi_main(const Program*);
int cop_count();
int cop_by_name(const char* s);
const char* cop_name(int c);
double cop_weight(int i, int cliff, int alu);
int pick_op(Rng& r, const double* w, int n);
struct Workload {
    const char* name;
    wl_gen gen;
    wl_main run;
    int (*opcode)(const char*);
    const char* (*opname)(int);
};
extern const Workload WORKLOADS[];
extern const int NWORKLOADS;
void gen_sched(Program* p, Rng& r);
