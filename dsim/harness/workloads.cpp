// Workload generators and the register workload driver.
#include "core.h"
#include <algorithm>

int pick_op(Rng& r, const double* w, int n)
{
    double s = 0;
    for (int i = 0; i < n; ++i) {
        s += w[i];
    }
    double x = r.unit() * s;
    for (int i = 0; i < n; ++i) {
        x -= w[i];
        if (x < 0) {
            return i;
        }
    }
    return n - 1;
}

static void set_env(DsConfig& s, const char* k, int v)
{
    if (s.nenv >= 16) {
        return;
    }
    snprintf(s.env[s.nenv][0], 64, "%s", k);
    snprintf(s.env[s.nenv][1], 64, "%d", v);
    s.nenv++;
}

void gen_sched(Program* p, Rng& r)
{
    DsConfig& s = p->sc;
    s.sched_seed = r.next();
    s.env_seed = r.next();
    static const double PS[] = { 0.02, 0.1, 0.3, 0.6, 0.9 };
    static const double MG[] = { 0, 0, 20, 100, 400, 2000, 10000 };
    s.p_sync = PS[r.below(5)];
    s.mem_gap = MG[r.below(7)];
    if (r.chance(0.5)) {
        s.strategy = DS_STRAT_RANDOM;
    } else {
        s.strategy = DS_STRAT_PCT;
        s.prio_mode = r.below(5);
        s.pct_depth = r.below(8);
        static const int SP[] = { 50, 200, 1000, 4000, 20000 };
        s.pct_span = SP[r.below(5)];
    }
    s.p_spurious = r.chance(0.3) ? 0.05 : 0;
    static const int NC[] = { 1, 2, 2, 3, 4, 4, 5, 8, 16 };
    s.ncores = NC[r.below(9)];
    s.rd_mode = r.chance(0.9) ? 0 : 2 + r.below(3);
    s.max_steps = 60000000;
    s.race_detect = 1;
}

// ---- register workload -------------------------------------------------------------------------------------------------
static Ctx CX[MAXCLIENTS];

static void run_ops(Ctx& c)
{
    const Program* P = c.P;
    const int faulty = P->sc.nfaults > 0;
    for (int i = 0; i < P->nops; ++i) {
        if (P->ops[i].client != c.client) {
            continue;
        }
        c.cur_op = i;
        exec_op(c, P->ops[i]);
        ds_result()->ops++;
        if (P->checkevery && !faulty) {
            Rng r(P->ops[i].seed ^ 0xabcdef);
            if (r.below(P->checkevery) == 0) {
                for (int k = 0; k < P->nregs; ++k) {
                    if (c.regs[k].live) {
                        check_state(c.regs[k], "step");
                    }
                }
            }
        }
    }
}
static void client_setup(Ctx& c, const Program* P, int id)
{
    c.P = P;
    c.client = id;
    c.cur = "setup";
    c.rng = std::make_shared<qrack_rand_gen>();
    c.rng->seed((uint32_t)(P->seed * 2654435761u + id));
}
static void client_body(Ctx& c)
{
    CTXS[ds_self() & 4095] = &c;
    const Program* P = c.P;
    Rng r(P->seed * 77 + c.client);
    const int n0 = 1 + r.below(P->nregs);
    for (int k = 0; k < n0; ++k) {
        Reg& g = c.regs[k];
        int n = k ? 1 + r.below(P->nq) : P->nq;
        int64_t perm = (int64_t)(r.next() & (((uint64_t)1 << n) - 1));
        g.q = make_q(P, P->stack, n, perm, c.rng);
        g.stack = P->stack;
        g.tol = STACKS[P->stack].approx ? 0.02 : 1e-4;
        ref_init(&g.r, n, perm);
        g.live = 1;
    }
    if (P->sc.nfaults) {
        ds_arm(1);
    }
    run_ops(c);
    ds_sut(0);
    if (P->sc.nfaults && P->nclients == 1) {
        ds_arm(0);
    }
    c.cur = "final";
    for (int k = 0; k < P->nregs; ++k) {
        if (c.regs[k].live) {
            try {
                check_state(c.regs[k], "final");
            } catch (std::exception& e) {
                if (!P->sc.nfaults) {
                    ds_violation("exception", "final", "final state query threw: %s", e.what());
                }
                // a deferred failure of an asynchronous operation may surface here
                c.regs[k].poisoned = 1;
            }
            if (c.regs[k].poisoned) {
                // once faults have stopped a register whose operation failed must be usable again after an overwrite
                Reg& g = c.regs[k];
                int64_t p = 1 & (((int64_t)1 << g.q->GetQubitCount()) - 1);
                try {
                    g.q->SetPermutation((bitCapInt)p);
                    ref_free(&g.r);
                    ref_init(&g.r, (int)g.q->GetQubitCount(), p);
                    g.poisoned = 0;
                    check_state(g, "after_recovery");
                } catch (std::exception& e) {
                    ds_violation("no_recovery", "recovery", "register unusable after faults stopped: %s", e.what());
                }
            }
            c.regs[k].q = nullptr;
            c.regs[k].live = 0;
        }
    }
    ds_result()->checks += c.checks;
    if (c.maxerr > ds_result()->maxerr) {
        ds_result()->maxerr = c.maxerr;
    }
}
static void client_fiber(void* a) { client_body(*(Ctx*)a); }

void reg_main(const Program* P)
{
    // (Every magic gate may add an ancilla to a stabilizer hybrid, and the cost is exponential in the number of ancillae.)
    const StackDef& s = STACKS[P->stack];
    for (int i = 0; i < s.n; ++i) {
        if (s.e[i] == QINTERFACE_STABILIZER_HYBRID && P->nops > 10) {
            ds_soft_budget(1);
        }
    }
    for (int i = 0; i < P->nclients; ++i) {
        client_setup(CX[i], P, i);
    }
    if (P->nclients == 1) {
        client_body(CX[0]);
    } else {
        int id[MAXCLIENTS];
        for (int i = 0; i < P->nclients; ++i) {
            id[i] = ds_spawn(client_fiber, &CX[i]);
        }
        for (int i = 0; i < P->nclients; ++i) {
            ds_join(id[i]);
        }
    }
    if (ds_locks_held_total()) {
        ds_violation("lock_leak", "end", "%d mutexes still held at the end", ds_locks_held_total());
    }
    ds_result()->nontrivial = 1;
}

// ---- outcome statistics --------------------------------------------------------------------------------------------------
// The state is prepared by the program, then one way of measuring is repeated on clones (or sampled) and the histogram is
// compared with the exact distribution. The bound is a Bernstein inequality at a failure probability below 1e-12.
static void check_hist(const std::vector<double>& p, const std::vector<int>& n, int N, const char* what)
{
    const double L = 30;
    for (size_t i = 0; i < p.size(); ++i) {
        const double v = p[i] * (1 - p[i]) * N;
        const double lim = sqrt(2 * v * L) + 2 * L / 3 + 2e-3 * N;
        const double d = fabs(n[i] - N * p[i]);
        if (d > lim || (p[i] < 1e-9 && n[i])) {
            ds_violation("wrong_distribution", what,
                "%s: outcome %d seen %d times in %d trials, exact probability %.6g (allowed deviation %.1f)", what, (int)i,
                n[i], N, p[i], lim);
        }
    }
    ds_result()->checks += p.size();
}
static void born_main(const Program* P)
{
    client_setup(CX[0], P, 0);
    Ctx& c = CX[0];
    CTXS[ds_self() & 4095] = &c;
    Reg& g = c.regs[0];
    g.q = make_q(P, P->stack, P->nq, 0, c.rng);
    g.stack = P->stack;
    g.tol = 1e-4;
    ref_init(&g.r, P->nq, 0);
    g.live = 1;
    run_ops(c);
    Rng r(P->seed * 31 + 7);
    c.cur = "statistics";
    check_state(g, "prepared");
    const int n = g.r.n;
    const int64_t full = ((int64_t)1 << n) - 1;
    const int N = P->variant >> 8, how = P->variant & 255;
    // the qubits measured, in a random order
    std::vector<bitLenInt> bits;
    for (int i = 0; i < n; ++i) {
        bits.push_back((bitLenInt)i);
    }
    for (int i = n - 1; i > 0; --i) {
        std::swap(bits[i], bits[r.below(i + 1)]);
    }
    bits.resize(1 + r.below(n));
    int st = r.below(n), len = 1 + r.below(n - st);
    static const char* const NAMES[] = { "M(qubit)", "MReg", "MAll", "M(bits)", "MultiShot map", "MultiShot array", "MParity",
        "M one by one", "ForceM unforced", "ForceMReg unforced" };
    int64_t pm = 1 + (int64_t)(r.next() % (uint64_t)full);
    std::vector<double> p;
    std::vector<int> h;
    auto marg = [&](const std::vector<bitLenInt>& b) {
        p.assign((size_t)1 << b.size(), 0);
        h.assign(p.size(), 0);
        for (int64_t i = 0; i <= full; ++i) {
            size_t k = 0;
            for (size_t j = 0; j < b.size(); ++j) {
                k |= (size_t)((i >> b[j]) & 1) << j;
            }
            p[k] += g.r.a[i].re * g.r.a[i].re + g.r.a[i].im * g.r.a[i].im;
        }
    };
    std::vector<bitLenInt> reg, all;
    for (int i = 0; i < len; ++i) {
        reg.push_back((bitLenInt)(st + i));
    }
    for (int i = 0; i < n; ++i) {
        all.push_back((bitLenInt)i);
    }
    std::vector<bitLenInt> sorted = bits;
    std::sort(sorted.begin(), sorted.end());
    QParityPtr qp = std::dynamic_pointer_cast<QParity>(g.q);
    if (how == 6 && !qp) {
        ds_result()->nontrivial = 0;
        return;
    }
    if (how == 4 || how == 5) {
        marg(bits);
        std::vector<bitCapInt> pw;
        for (auto b : bits) {
            pw.push_back(pow2(b));
        }
        if (how == 4) {
            auto res = g.q->MultiShotMeasureMask(pw, (unsigned)N);
            for (auto& kv : res) {
                h.at((size_t)(bitCapIntOcl)kv.first) += kv.second;
            }
        } else {
            std::vector<unsigned long long> arr(N, ~0ull);
            g.q->MultiShotMeasureMask(pw, (unsigned)N, arr.data());
            for (auto x : arr) {
                if (x >= h.size()) {
                    ds_violation("impossible_outcome", "MultiShot array", "sample %llx outside the mask", x);
                }
                ++h[(size_t)x];
            }
        }
    } else {
        if (how == 0 || how == 8) {
            marg({ bits[0] });
        } else if (how == 1 || how == 9) {
            marg(reg);
        } else if (how == 2) {
            marg(all);
        } else if (how == 3) {
            marg(sorted);
        } else if (how == 7) {
            marg(bits);
        } else {
            p.assign(2, 0);
            h.assign(2, 0);
            p[1] = ref_probparity(&g.r, pm);
            p[0] = 1 - p[1];
        }
        for (int t = 0; t < N; ++t) {
            QInterfacePtr q = g.q->Clone();
            size_t k = 0;
            switch (how) {
            case 0:
                k = q->M(bits[0]);
                break;
            case 8:
                k = q->ForceM(bits[0], r.chance(0.5), false);
                break;
            case 1:
                k = (size_t)(bitCapIntOcl)q->MReg((bitLenInt)st, (bitLenInt)len);
                break;
            case 9:
                k = (size_t)(bitCapIntOcl)q->ForceMReg((bitLenInt)st, (bitLenInt)len, ZERO_BCI, false);
                break;
            case 2:
                k = (size_t)(bitCapIntOcl)q->MAll();
                break;
            case 3: {
                const int64_t v = (int64_t)(bitCapIntOcl)q->M(bits);
                for (size_t j = 0; j < sorted.size(); ++j) {
                    k |= (size_t)((v >> sorted[j]) & 1) << j;
                }
                break;
            }
            case 7:
                for (size_t j = 0; j < bits.size(); ++j) {
                    k |= (size_t)q->M(bits[j]) << j;
                }
                break;
            default:
                k = std::dynamic_pointer_cast<QParity>(q)->MParity((bitCapInt)pm);
            }
            if (k >= h.size()) {
                ds_violation("impossible_outcome", NAMES[how], "%s returned %llx", NAMES[how], (unsigned long long)k);
            }
            ++h[k];
        }
    }
    check_hist(p, h, N, NAMES[how]);
    check_state(g, "after sampling");
    ds_result()->ops += (uint64_t)N;
    ds_result()->nontrivial = 1;
    c.regs[0].q = nullptr;
}

// weights by class
struct Profile {
    double gate, alu, meas, query, over, life, strct, misc;
};
static void gen_ops(Program* p, Rng& r, const Profile& f, int nops)
{
    double w[128];
    const StackDef& s = STACKS[p->stack];
    p->clifford = s.clifford_only || r.chance(0.1);
    for (int i = 0; i < s.n; ++i) { // near-Clifford programs, for the layers that keep magic gates in gadgets
        if (s.e[i] == QINTERFACE_STABILIZER_HYBRID && r.chance(0.4)) {
            p->clifford = 2;
        }
    }
    if (p->clifford == 2) { // (The cost is exponential in the number of magic gates held in gadgets.)
        p->sc.max_steps *= 2;
        nops = nops > 24 ? 24 : nops;
        p->nq = p->nq > 4 ? 4 : p->nq;
    }
    // Draws of exactly zero are for programs on basis states: there every amplitude that should vanish is exactly zero, while
    // after rounding errors a draw of zero may legitimately pick an outcome of probability 1e-15.
    if (p->sc.rd_mode == 4 && r.chance(0.4)) {
        p->sc.rd_mode = 1;
    }
    const bool basis = p->sc.rd_mode == 1;
    for (int i = 0; i < op_count(); ++i) {
        int fl = op_flags(i);
        double x = op_weight(i);
        x *= (fl & OF_GATE) ? f.gate : (fl & OF_ALU) ? f.alu : (fl & OF_MEAS) ? f.meas : (fl & OF_QUERY) ? f.query
            : (fl & OF_OVER)                                                                             ? f.over
            : (fl & OF_LIFE)                                                                             ? f.life
            : (fl & OF_STRUCT)                                                                           ? f.strct
                                                                                                         : f.misc;
        if (p->clifford && !(fl & OF_CLIFF)) {
            x = 0;
        }
        if ((fl & OF_ALU) && !s.alu) {
            x = 0;
        }
        if ((fl & OF_STRUCT) && !s.structure) {
            x = 0;
        }
        if (basis && (fl & (OF_GATE | OF_STRUCT | OF_OVER | OF_QUERY))) {
            const char* nm = op_name(i);
            if (strcmp(nm, "setperm") && strcmp(nm, "setreg") && strcmp(nm, "swap") && strcmp(nm, "compose")
                && strcmp(nm, "allocate")) {
                x = 0;
            }
        }
        // swarm: each run uses a random subset of the operations
        if (r.chance(0.35)) {
            x *= 0.05;
        }
        w[i] = x;
    }
    if (nops > MAXOPS) {
        nops = MAXOPS;
    }
    p->nops = nops;
    for (int i = 0; i < nops; ++i) {
        p->ops[i].client = r.below(p->nclients);
        p->ops[i].code = pick_op(r, w, op_count());
        p->ops[i].reg = r.below(p->nregs);
        p->ops[i].seed = r.next();
    }
}
static void common_cfg(Program* p, Rng& r)
{
    p->hwrng = r.chance(0.2);
    p->randphase = r.chance(0.5);
    p->donorm = r.chance(0.3);
    p->checkevery = r.chance(0.5) ? 0 : 1 + r.below(8);
}
static int nops_of(Rng& r, int lo, int hi)
{
    // mostly short histories
    double u = r.unit();
    return lo + (int)((hi - lo) * u * u);
}
static int stack_id(const char* n)
{
    int i = stack_by_name(n);
    if (i < 0) {
        ds_violation("harness", "stack", "%s", n);
    }
    return i;
}

static void gen_engine(Program* p, Rng& r)
{
    common_cfg(p, r);
    p->stack = stack_id("cpu");
    p->nq = 1 + r.below(6);
    p->nregs = 1 + r.below(3);
    set_env(p->sc, "QRACK_PSTRIDEPOW", 1 + r.below(7));
    Profile f = { 1, 1, 0.5, 1, 0.5, 0.5, 0.6, 0.7 };
    gen_ops(p, r, f, nops_of(r, 4, 60));
}
static void gen_serial(Program* p, Rng& r)
{
    common_cfg(p, r);
    p->stack = stack_id("cpu");
    p->nq = 1 + r.below(6);
    p->nregs = 1 + r.below(3);
    Profile f = { 1, 1, 0.5, 1, 0.5, 0.5, 0.6, 0.7 };
    gen_ops(p, r, f, nops_of(r, 4, 40));
    p->checkevery = 1;
    p->sc.ncores = 1;
}
// short asynchronous histories around the dispatch queue: gates followed immediately by overwrites, clones, reads, destruction
static void gen_pipe(Program* p, Rng& r)
{
    common_cfg(p, r);
    p->stack = stack_id("cpu");
    p->nq = 2 + r.below(4);
    p->nregs = 1 + r.below(4);
    p->sc.ncores = 2 + r.below(7);
    // everything the engine can queue is queued: register size below the parallel stride
    set_env(p->sc, "QRACK_PSTRIDEPOW", p->nq + r.below(3));
    Profile f = { 1, 0.7, 0.4, 0.6, 2.0, 2.5, 1.0, 1.5 };
    gen_ops(p, r, f, nops_of(r, 3, 40));
}
// dense engine, one family of operations emphasised
static void dense_cfg(Program* p, Rng& r)
{
    common_cfg(p, r);
    p->stack = stack_id("cpu");
    p->nq = 1 + r.below(6);
    if (r.chance(0.04)) {
        p->nq = 7 + r.below(3);
    }
    p->nregs = 1 + r.below(3);
    if (r.chance(0.8)) {
        set_env(p->sc, "QRACK_PSTRIDEPOW", 1 + r.below(7));
    }
}
static void gen_gates(Program* p, Rng& r)
{
    dense_cfg(p, r);
    Profile f = { 4, 0, 0.1, 0.1, 0.4, 0.1, 0.1, 0.3 };
    gen_ops(p, r, f, nops_of(r, 4, 50));
    p->checkevery = 1 + r.below(2);
}
static void gen_arith(Program* p, Rng& r)
{
    dense_cfg(p, r);
    p->nq = 3 + r.below(5);
    Profile f = { 0.5, 5, 0.1, 0.1, 0.6, 0.1, 0.1, 0.2 };
    gen_ops(p, r, f, nops_of(r, 3, 30));
    p->checkevery = 1;
}
static void gen_meas(Program* p, Rng& r)
{
    dense_cfg(p, r);
    Profile f = { 1, 0.3, 5, 0.5, 1, 0.3, 0.3, 0.3 };
    p->sc.rd_mode = r.chance(0.7) ? 0 : 2 + r.below(3);
    gen_ops(p, r, f, nops_of(r, 4, 40));
    p->checkevery = 1 + r.below(3);
}
static void gen_query(Program* p, Rng& r)
{
    dense_cfg(p, r);
    Profile f = { 1, 0.3, 0.2, 5, 0.7, 0.3, 0.2, 1 };
    gen_ops(p, r, f, nops_of(r, 4, 40));
    p->checkevery = 1 + r.below(3);
}
static void gen_struct(Program* p, Rng& r)
{
    dense_cfg(p, r);
    p->nregs = 2 + r.below(3);
    p->nq = 1 + r.below(4);
    Profile f = { 0.7, 0.1, 0.5, 0.2, 0.3, 0.7, 5, 0.5 };
    gen_ops(p, r, f, nops_of(r, 4, 40));
    p->checkevery = 1 + r.below(2);
}
static void gen_clone(Program* p, Rng& r)
{
    dense_cfg(p, r);
    p->nregs = 2 + r.below(4);
    p->nq = 1 + r.below(5);
    p->donorm = r.chance(0.5);
    Profile f = { 1, 0.4, 0.5, 0.3, 1, 3, 0.3, 0.5 };
    gen_ops(p, r, f, nops_of(r, 4, 50));
    p->checkevery = r.below(3);
}
static void gen_born_on(Program* p, Rng& r, const char* const* S, int n)
{
    common_cfg(p, r);
    p->stack = stack_id(S[r.below(n)]);
    p->nq = 1 + r.below(4);
    p->nregs = 1;
    p->checkevery = 0;
    p->sc.rd_mode = 0;
    if (r.chance(0.5)) {
        set_env(p->sc, "QRACK_PSTRIDEPOW", 1 + r.below(5));
        p->sc.ncores = 1 + r.below(4);
    } else {
        p->sc.ncores = 1;
    }
    if (p->sc.mem_gap > 0 && p->sc.mem_gap < 2000) {
        p->sc.mem_gap = 2000;
    }
    Profile f = { 1, 0, 0, 0, 0.3, 0, 0, 0 };
    gen_ops(p, r, f, nops_of(r, 2, 20));
    const int how = r.below(10);
    p->variant = how | ((how == 4 || how == 5 ? 3000 : 400) << 8);
}
static void gen_born(Program* p, Rng& r)
{
    static const char* const S[] = { "cpu" };
    gen_born_on(p, r, S, 1);
}
static void gen_faults(Program* p, Rng& r, double w_alloc, double w_big, double w_thread, double w_rd)
{
    const int n = 1 + r.below(3);
    p->sc.nfaults = 0;
    for (int i = 0; i < n; ++i) {
        DsFault& f = p->sc.faults[p->sc.nfaults++];
        double w[4] = { w_alloc, w_big, w_thread, w_rd };
        static const int K[4] = { DS_F_ALLOC, DS_F_BIGALLOC, DS_F_THREAD, DS_F_RDRAND };
        f.kind = K[pick_op(r, w, 4)];
        const int lg = f.kind == DS_F_ALLOC ? r.below(11) : f.kind == DS_F_BIGALLOC ? r.below(5) : r.below(7);
        f.at = r.next() % ((uint64_t)1 << lg);
        f.count = r.chance(0.6) ? 1 : 1 + r.below(20);
    }
}
static void gen_fault(Program* p, Rng& r)
{
    dense_cfg(p, r);
    p->hwrng = r.chance(0.5);
    p->nregs = 1 + r.below(3);
    Profile f = { 1, 0.7, 0.7, 0.7, 1.5, 1, 1, 0.5 };
    gen_ops(p, r, f, nops_of(r, 3, 30));
    gen_faults(p, r, 3, 2, 1, 0.5);
    p->checkevery = 0;
}
static void gen_layer(Program* p, Rng& r, const char* const* S, int n)
{
    common_cfg(p, r);
    p->stack = stack_id(S[r.below(n)]);
    p->nq = 1 + r.below(r.chance(0.3) ? 6 : 5);
    p->nregs = 1 + r.below(2);
    if (r.chance(0.7)) {
        set_env(p->sc, "QRACK_PSTRIDEPOW", 1 + r.below(6));
    }
    if (strstr(S[0], "pager")) {
        p->variant = r.below(4); // qubits per page; 0: the default
    }
    if (r.chance(0.3)) {
        p->sc.ncores = 1;
    }
    Profile f = { 1, 0.5, 0.4, 0.6, 0.3, 0.4, 0.5, 0.5 };
    gen_ops(p, r, f, nops_of(r, 4, 50));
}
#define LAYER(NAME, ...) \
    static void gen_##NAME(Program* p, Rng& r) \
    { \
        static const char* const S[] = { __VA_ARGS__ }; \
        gen_layer(p, r, S, (int)(sizeof(S) / sizeof(S[0]))); \
    }
LAYER(l_qunit, "qunit_cpu")
LAYER(l_sh, "sh_cpu", "qunit_sh_cpu")
LAYER(l_stab, "stab", "unitclifford")
LAYER(l_bdt, "bdt", "qunit_bdt", "bdt_hybrid")
LAYER(l_tn, "tn_cpu", "tn_qunit")
LAYER(l_pager, "pager_cpu", "qunit_pager")
static void gen_threads(Program* p, Rng& r) // several threads, each with simulators of its own
{
    common_cfg(p, r);
    static const char* S[] = { "cpu", "cpu", "qunit_cpu", "qunit_cpu", "sh_cpu", "qunit_sh_cpu", "pager_cpu", "qunit_pager",
        "stab", "unitclifford" };
    const char* st = S[r.below(10)];
    p->stack = stack_id(st);
    if (strstr(st, "pager")) {
        p->variant = r.below(4);
    }
    p->nclients = 2 + r.below(2);
    p->nq = 1 + r.below(4);
    p->nregs = 1 + r.below(2);
    p->sc.ncores = 2 + r.below(4);
    set_env(p->sc, "QRACK_PSTRIDEPOW", 1 + r.below(6));
    Profile f = { 1, 0.5, 0.4, 0.6, 0.5, 0.8, 0.4, 0.5 };
    gen_ops(p, r, f, nops_of(r, 6, 40));
}

static void gen_cops(Program* p, Rng& r, int nops)
{
    double w[128];
    const StackDef& s = STACKS[p->stack];
    p->clifford = r.chance(0.1);
    for (int i = 0; i < s.n; ++i) {
        if (s.e[i] == QINTERFACE_STABILIZER_HYBRID && r.chance(0.7)) {
            p->clifford = 1;
        }
    }
    for (int i = 0; i < cop_count(); ++i) {
        w[i] = cop_weight(i, p->clifford, s.alu) * (r.chance(0.35) ? 0.05 : 1);
    }
    p->nops = nops;
    for (int i = 0; i < nops; ++i) {
        p->ops[i].client = r.below(p->nclients);
        p->ops[i].code = pick_op(r, w, cop_count());
        p->ops[i].reg = r.below(6);
        p->ops[i].seed = r.next();
    }
}
static void capi_cfg(Program* p, Rng& r)
{
    static const char* S[] = { "cpu", "cpu", "qunit_cpu", "qunit_cpu", "sh_cpu", "qunit_sh_cpu" };
    p->stack = stack_id(S[r.below(6)]);
    p->checkevery = r.chance(0.5) ? 0 : 1 + r.below(8);
    p->sc.rd_mode = 0;
    p->hwrng = 1;
    if (r.chance(0.7)) {
        set_env(p->sc, "QRACK_PSTRIDEPOW", 1 + r.below(6));
    }
}
static void gen_capi(Program* p, Rng& r) // one client of the C interface
{
    capi_cfg(p, r);
    p->nq = 1 + r.below(5);
    if (r.chance(0.5)) {
        p->sc.ncores = 1;
    }
    gen_cops(p, r, nops_of(r, 4, 40));
}
static void gen_capi_mt(Program* p, Rng& r) // several client threads
{
    capi_cfg(p, r);
    p->nclients = 2 + r.below(2);
    p->variant = r.below(4);
    p->nq = 1 + r.below(3);
    if (r.chance(0.5)) {
        p->sc.ncores = 1;
    }
    gen_cops(p, r, nops_of(r, 4, 30));
}

const Workload WORKLOADS[] = {
    { "capi", gen_capi, capi_main, cop_by_name, cop_name },
    { "capi_mt", gen_capi_mt, capi_main, cop_by_name, cop_name },
    { "engine", gen_engine, reg_main, op_by_name, op_name },
    { "serial", gen_serial, reg_main, op_by_name, op_name },
    { "pipe", gen_pipe, reg_main, op_by_name, op_name },
    { "gates", gen_gates, reg_main, op_by_name, op_name },
    { "arith", gen_arith, reg_main, op_by_name, op_name },
    { "meas", gen_meas, reg_main, op_by_name, op_name },
    { "query", gen_query, reg_main, op_by_name, op_name },
    { "struct", gen_struct, reg_main, op_by_name, op_name },
    { "clone", gen_clone, reg_main, op_by_name, op_name },
    { "born", gen_born, born_main, op_by_name, op_name },
    { "fault", gen_fault, reg_main, op_by_name, op_name },
    { "l_qunit", gen_l_qunit, reg_main, op_by_name, op_name },
    { "l_sh", gen_l_sh, reg_main, op_by_name, op_name },
    { "l_stab", gen_l_stab, reg_main, op_by_name, op_name },
    { "l_bdt", gen_l_bdt, reg_main, op_by_name, op_name },
    { "l_tn", gen_l_tn, reg_main, op_by_name, op_name },
    { "l_pager", gen_l_pager, reg_main, op_by_name, op_name },
    { "threads", gen_threads, reg_main, op_by_name, op_name },
};
const int NWORKLOADS = sizeof(WORKLOADS) / sizeof(WORKLOADS[0]);
