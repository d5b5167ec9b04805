// Register operations: each derives all of its arguments from its own 64-bit seed and the current register sizes, calls
// the real library, and performs the same step on the reference model.
#include "core.h"

const StackDef STACKS[] = {
    // name, n, engines, clifford_only, alu, noisy, approx, structure
    { "cpu", 1, { QINTERFACE_CPU }, 0, 1, 0, 0, 1 },
    { "qunit_cpu", 2, { QINTERFACE_QUNIT, QINTERFACE_CPU }, 0, 1, 0, 0, 1 },
    { "sh_cpu", 2, { QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU }, 0, 1, 0, 0, 1 },
    { "qunit_sh_cpu", 3, { QINTERFACE_QUNIT, QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU }, 0, 1, 0, 0, 1 },
    { "bdt", 2, { QINTERFACE_BDT, QINTERFACE_CPU }, 0, 1, 0, 0, 1 },
    { "qunit_bdt", 3, { QINTERFACE_QUNIT, QINTERFACE_BDT, QINTERFACE_CPU }, 0, 1, 0, 0, 1 },
    { "bdt_hybrid", 2, { QINTERFACE_BDT_HYBRID, QINTERFACE_CPU }, 0, 1, 0, 0, 1 },
    { "tn_cpu", 2, { QINTERFACE_TENSOR_NETWORK, QINTERFACE_CPU }, 0, 0, 0, 0, 0 },
    { "tn_qunit", 3, { QINTERFACE_TENSOR_NETWORK, QINTERFACE_QUNIT, QINTERFACE_CPU }, 0, 0, 0, 0, 0 },
    { "pager_cpu", 2, { QINTERFACE_QPAGER, QINTERFACE_CPU }, 0, 1, 0, 0, 1 },
    { "qunit_pager", 3, { QINTERFACE_QUNIT, QINTERFACE_QPAGER, QINTERFACE_CPU }, 0, 1, 0, 0, 1 },
    { "stab", 1, { QINTERFACE_STABILIZER }, 1, 0, 0, 0, 1 },
    { "unitclifford", 1, { QINTERFACE_QUNIT_CLIFFORD }, 1, 0, 0, 0, 1 },
    { "noisy_cpu", 2, { QINTERFACE_NOISY, QINTERFACE_CPU }, 0, 1, 1, 0, 1 },
    { "noisy_qunit", 3, { QINTERFACE_NOISY, QINTERFACE_QUNIT, QINTERFACE_CPU }, 0, 1, 1, 0, 1 },
};
const int NSTACKS = sizeof(STACKS) / sizeof(STACKS[0]);
int stack_by_name(const char* s)
{
    for (int i = 0; i < NSTACKS; ++i) {
        if (!strcmp(STACKS[i].name, s)) {
            return i;
        }
    }
    return -1;
}

Ctx* CTXS[4096];

QInterfacePtr make_q(const Program* P, int stack, int nq, int64_t perm, qrack_rand_gen_ptr rng)
{
    const StackDef& s = STACKS[stack];
    std::vector<QInterfaceEngine> e(s.e, s.e + s.n);
    return CreateQuantumInterface(e, (bitLenInt)nq, (bitCapInt)perm, rng, ONE_CMPLX, (bool)P->donorm,
        (bool)P->randphase, false, (int64_t)-1, (bool)P->hwrng, false, (real1_f)REAL1_EPSILON, std::vector<int64_t>{},
        s.e[s.n > 1 ? s.n - 2 : 0] == QINTERFACE_QPAGER ? (bitLenInt)P->variant : (bitLenInt)0);
}

// ---- checking ---------------------------------------------------------------------------------------------------------
static const double TOL_P = 2e-3; // probabilities / amplitudes on exact layers
static void seen_err(double e)
{
    if (e > C->maxerr) {
        C->maxerr = e;
    }
}
void check_prob(double got, double want, double tol, const char* what)
{
    ++C->checks;
    double d = fabs(got - want);
    if (d != d || d > tol) {
        ds_violation("wrong_value", what, "%s in op %s (#%d): library says %.8g, reference model says %.8g", what, CUR,
            C->cur_op, got, want);
    }
    seen_err(d / (tol / TOL_P));
}
static void fail_state(const char* where, double fid, double nb, double md)
{
    ds_violation("wrong_state", where,
        "state differs from reference model after op %s/%d (#%d, check %s): fidelity %.8g, norm %.8g, max component "
        "difference %.6g",
        CUR, C->sub, C->cur_op, where, fid, nb, md);
}
static void compare_buf(Reg& g, const std::vector<complex>& buf, const char* where)
{
    const int64_t d = (int64_t)1 << g.r.n;
    std::vector<rcx> b(d);
    for (int64_t i = 0; i < d; ++i) {
        b[i].re = real(buf[i]);
        b[i].im = imag(buf[i]);
    }
    double nb = 0;
    double ov = ref_overlap2(&g.r, b.data(), &nb);
    double nr = ref_norm(&g.r);
    double fid = ov / (nb * nr);
    ++C->checks;
    if (!(fabs(nb - 1) < std::max(5e-3, g.tol)) || !(fid > 1 - g.tol)) {
        fail_state(where, fid, nb, ref_maxdiff(&g.r, b.data()));
    }
    seen_err(1 - fid);
}
void check_state(Reg& g, const char* where)
{
    if (g.poisoned || !g.q) {
        return;
    }
    if ((int)g.q->GetQubitCount() != g.r.n) {
        ds_violation("wrong_size", where, "register has %d qubits, reference %d (op %s)", (int)g.q->GetQubitCount(),
            g.r.n, CUR);
    }
    if (!g.r.n) {
        return;
    }
    std::vector<complex> buf((size_t)1 << g.r.n);
    g.q->GetQuantumState(buf.data());
    compare_buf(g, buf, where);
}
static void resync(Reg& g)
{
    // after projecting on a rare outcome single-precision noise is amplified: check the support loosely, then adopt the
    // library's state as the reference
    std::vector<complex> buf((size_t)1 << g.r.n);
    g.q->GetQuantumState(buf.data());
    const double t = g.tol;
    g.tol = 0.05;
    compare_buf(g, buf, "rare_outcome");
    g.tol = t;
    std::vector<rcx> b(buf.size());
    double s = 0;
    for (size_t i = 0; i < buf.size(); ++i) {
        b[i].re = real(buf[i]);
        b[i].im = imag(buf[i]);
        s += b[i].re * b[i].re + b[i].im * b[i].im;
    }
    s = sqrt(s);
    for (auto& x : b) {
        x.re /= s;
        x.im /= s;
    }
    ref_setstate(&g.r, b.data());
}
// Whether the current operation drew a random number within 1e-4 of 0 or 1. Such a draw can legitimately select an outcome
// whose exact probability is zero, out of the rounding residue of the state.
static bool near_tie(double thr = 1e-4)
{
    if (C->P->sc.rd_mode == 1) {
        return false; // basis-state programs: no rounding residue
    }
    if (ds_rd_extreme() != C->rd0 || (C->P->hwrng && C->P->sc.rd_mode >= 2 && thr > 2e-4)) {
        return true;
    }
    qrack_rand_gen e = C->rng0;
    for (int i = 0; i < 4096 && !(e == *C->rng); ++i) {
        qrack_rand_gen x = e;
        std::uniform_real_distribution<real1_s> d((real1_s)0, (real1_s)1);
        const double v = d(x);
        if (v < thr || v > 1 - thr) {
            return true;
        }
        e();
    }
    return false;
}
static void observed(Reg& g, int64_t mask, int64_t val, const char* what)
{
    double p = ref_probmask(&g.r, mask, val);
    ++C->checks;
    ds_log((uint64_t)val);
    double thr = 1e-4;
    if (p < 1e-9) {
        // Measuring bit by bit, a rare outcome for some of the bits multiplies the rounding error of the norm by the inverse
        // of its probability before the other bits are drawn.
        for (int64_t s = (mask - 1) & mask; s; s = (s - 1) & mask) {
            const double ps = ref_probmask(&g.r, s, val & s);
            if (ps > 1e-9) {
                thr = std::max(thr, std::min(0.05, 3 * (g.nerr + 1e-6) / ps));
            }
        }
    }
    if (p < 1e-9 && near_tie(thr)) {
        ds_probe(5);
        g.poisoned = 1;
        return;
    }
    if (p < 1e-9) {
        ds_violation("impossible_outcome", what, "%s (#%d) returned outcome %llx on mask %llx whose probability is %.3g",
            CUR, C->cur_op, (unsigned long long)val, (unsigned long long)mask, p);
    }
    ref_project(&g.r, mask, val);
    // The norm of a single-precision state is off by some rounding error e, and projecting on an outcome of probability p
    // multiplies it by up to 1/p. Before that becomes visible the state is renormalised.
    g.nerr = (g.nerr + 3e-7) / (p < 1e-9 ? 1e-9 : p);
    if (p < 2e-3 || g.nerr > 2e-4) {
        ds_probe(1);
        resync(g);
        if (STACKS[g.stack].n == 1 && STACKS[g.stack].e[0] == QINTERFACE_CPU) {
            std::vector<complex> b((size_t)1 << g.r.n);
            for (size_t i = 0; i < b.size(); ++i) {
                b[i] = complex((real1)g.r.a[i].re, (real1)g.r.a[i].im);
            }
            g.q->SetQuantumState(b.data());
            g.nerr = 0;
        } else if (g.nerr > 1e-3) {
            g.poisoned = 1;
            g.nerr = 0;
        }
    }
}

// ---- helpers ----------------------------------------------------------------------------------------------------------
static std::vector<bitLenInt> pick(Reg& g, Rng& r, int k)
{
    std::vector<bitLenInt> a;
    std::vector<bitLenInt> all(g.r.n);
    for (int i = 0; i < g.r.n; ++i) {
        all[i] = (bitLenInt)i;
    }
    for (int i = 0; i < k && !all.empty(); ++i) {
        int j = r.below((int)all.size());
        a.push_back(all[j]);
        all.erase(all.begin() + j);
    }
    return a;
}
static real1_f angle(Rng& r)
{
    switch (r.below(4)) {
    case 0:
        return (real1_f)(r.below(17) - 8) * (real1_f)(M_PI / 4);
    case 1:
        return (real1_f)(r.below(17) - 8) * (real1_f)(M_PI / 8);
    default:
        return (real1_f)((0.1 + r.unit() * 3.0) * (r.chance(0.5) ? 1 : -1));
    }
}
static rcx rc(complex c) { return rcx{ (double)real(c), (double)imag(c) }; }
static void m_u(complex* m, real1_f th, real1_f ph, real1_f la)
{
    double c = cos(th / 2), s = sin(th / 2);
    m[0] = complex((real1)c, 0);
    m[1] = complex((real1)(-s * cos(la)), (real1)(-s * sin(la)));
    m[2] = complex((real1)(s * cos(ph)), (real1)(s * sin(ph)));
    m[3] = complex((real1)(c * cos(ph + la)), (real1)(c * sin(ph + la)));
}
static complex cis(double a) { return complex((real1)cos(a), (real1)sin(a)); }
static void rmul(Reg& g, const std::vector<bitLenInt>& ctrl, int64_t perm, int target, const complex* m)
{
    int cs[REF_MAXQ];
    for (size_t i = 0; i < ctrl.size(); ++i) {
        cs[i] = ctrl[i];
    }
    rcx mm[4] = { rc(m[0]), rc(m[1]), rc(m[2]), rc(m[3]) };
    ref_mtrx(&g.r, cs, (int)ctrl.size(), perm, target, mm);
}
static const double R2 = 0.70710678118654752440;
static const complex CI(0, 1), C0(0, 0), C1(1, 0);

// a random Clifford single-qubit matrix by kind
static const int NCLIFF1 = 10;
static void cliff1(int k, complex* m)
{
    const real1 h = (real1)R2;
    switch (k) {
    case 0: // H
        m[0] = m[1] = m[2] = complex(h, 0);
        m[3] = complex(-h, 0);
        break;
    case 1: // X
        m[0] = m[3] = C0;
        m[1] = m[2] = C1;
        break;
    case 2: // Y
        m[0] = m[3] = C0;
        m[1] = -CI;
        m[2] = CI;
        break;
    case 3: // Z
        m[0] = C1;
        m[1] = m[2] = C0;
        m[3] = -C1;
        break;
    case 4: // S
        m[0] = C1;
        m[1] = m[2] = C0;
        m[3] = CI;
        break;
    case 5: // IS
        m[0] = C1;
        m[1] = m[2] = C0;
        m[3] = -CI;
        break;
    case 6: // SqrtX
        m[0] = m[3] = complex(0.5f, 0.5f);
        m[1] = m[2] = complex(0.5f, -0.5f);
        break;
    case 7: // ISqrtX
        m[0] = m[3] = complex(0.5f, -0.5f);
        m[1] = m[2] = complex(0.5f, 0.5f);
        break;
    case 8: // SqrtY
        m[0] = m[2] = m[3] = complex(0.5f, 0.5f);
        m[1] = complex(-0.5f, -0.5f);
        break;
    default: // ISqrtY
        m[0] = m[1] = m[3] = complex(0.5f, -0.5f);
        m[2] = complex(-0.5f, 0.5f);
        break;
    }
}
static bool cliff_only() { return C->P->clifford; }
static void rand_mtrx(Rng& r, complex* m)
{
    if (C->P->clifford == 2 && r.chance(0.4)) { // near-Clifford: magic (or nearly Clifford) phase gates
        m[0] = C1;
        m[1] = m[2] = C0;
        m[3] = r.chance(0.6) ? cis((real1)((2 * r.below(4) + 1) * M_PI / 4)) : cis(angle(r));
        return;
    }
    if (cliff_only()) {
        return cliff1(r.below(NCLIFF1), m);
    }
    switch (r.below(6)) {
    case 0:
        cliff1(r.below(NCLIFF1), m);
        break;
    case 1: { // diagonal
        m[0] = r.chance(0.5) ? C1 : cis(angle(r));
        m[1] = m[2] = C0;
        m[3] = cis(angle(r));
        break;
    }
    case 2: { // anti-diagonal
        m[0] = m[3] = C0;
        m[1] = r.chance(0.5) ? C1 : cis(angle(r));
        m[2] = cis(angle(r));
        break;
    }
    default: {
        m_u(m, angle(r), angle(r), angle(r));
        if (r.chance(0.5)) {
            complex ph = cis(angle(r));
            for (int i = 0; i < 4; ++i) {
                m[i] = m[i] * ph;
            }
        }
    }
    }
}

// ---- gates ------------------------------------------------------------------------------------------------------------
static void op_g1(Reg& g, Rng& r) // named single-qubit Clifford gates
{
    int t = r.below(g.r.n);
    int k = r.below(cliff_only() ? 12 : 12);
    complex m[4], a[4], b[4];
    if (k < NCLIFF1) {
        cliff1(k, m);
    }
    switch (C->sub = k) {
    case 0:
        g.q->H(t);
        break;
    case 1:
        g.q->X(t);
        break;
    case 2:
        g.q->Y(t);
        break;
    case 3:
        g.q->Z(t);
        break;
    case 4:
        g.q->S(t);
        break;
    case 5:
        g.q->IS(t);
        break;
    case 6:
        g.q->SqrtX(t);
        break;
    case 7:
        g.q->ISqrtX(t);
        break;
    case 8:
        g.q->SqrtY(t);
        break;
    case 9:
        g.q->ISqrtY(t);
        break;
    case 10: // SH: H then S
        g.q->SH(t);
        cliff1(0, a);
        cliff1(4, b);
        rmul(g, {}, 0, t, a);
        return rmul(g, {}, 0, t, b);
    default: // HIS: IS then H
        g.q->HIS(t);
        cliff1(5, a);
        cliff1(0, b);
        rmul(g, {}, 0, t, a);
        return rmul(g, {}, 0, t, b);
    }
    rmul(g, {}, 0, t, m);
}
static void op_g1n(Reg& g, Rng& r) // named non-Clifford single-qubit gates
{
    int t = r.below(g.r.n);
    complex m[4] = { C1, C0, C0, C1 };
    real1_f a = angle(r), b = angle(r), c = angle(r);
    switch (C->sub = r.below(14)) {
    case 0:
        g.q->T(t);
        m[3] = cis(M_PI / 4);
        break;
    case 1:
        g.q->IT(t);
        m[3] = cis(-M_PI / 4);
        break;
    case 2:
        g.q->RX(a, t);
        m[0] = m[3] = complex((real1)cos(a / 2), 0);
        m[1] = m[2] = complex(0, (real1)-sin(a / 2));
        break;
    case 3:
        g.q->RY(a, t);
        m[0] = m[3] = complex((real1)cos(a / 2), 0);
        m[1] = complex((real1)-sin(a / 2), 0);
        m[2] = -m[1];
        break;
    case 4:
        g.q->RZ(a, t);
        m[0] = cis(-a / 2);
        m[3] = cis(a / 2);
        break;
    case 5:
        g.q->RT(a, t);
        m[3] = cis(a / 2);
        break;
    case 6:
        g.q->U(t, a, b, c);
        m_u(m, a, b, c);
        break;
    case 7:
        g.q->U2(t, b, c);
        m_u(m, (real1_f)(M_PI / 2), b, c);
        break;
    case 8: { // IU2 is the inverse of U2
        g.q->IU2(t, b, c);
        complex u[4];
        m_u(u, (real1_f)(M_PI / 2), b, c);
        m[0] = conj(u[0]);
        m[1] = conj(u[2]);
        m[2] = conj(u[1]);
        m[3] = conj(u[3]);
        // up to global phase
        break;
    }
    case 9: {
        g.q->AI(t, a, b);
        m[0] = m[3] = complex((real1)cos(b / 2), 0);
        m[2] = cis(a) * (real1)sin(b / 2);
        m[1] = -conj(m[2]);
        break;
    }
    case 10: {
        g.q->IAI(t, a, b);
        m[0] = m[3] = complex((real1)cos(b / 2), 0);
        complex x = cis(a) * (real1)sin(b / 2);
        m[1] = conj(x);
        m[2] = -x;
        break;
    }
    case 11: {
        int n = 1 + r.below(5);
        g.q->PhaseRootN(n, t);
        m[3] = cis(-M_PI / (1 << (n - 1)));
        break;
    }
    case 12: {
        int n = 1 + r.below(5);
        g.q->Phase(C1, cis(M_PI / (1 << (n - 1))), t);
        m[3] = cis(M_PI / (1 << (n - 1)));
        break;
    }
    default: { // SqrtH twice = H
        g.q->SqrtH(t);
        g.q->SqrtH(t);
        cliff1(0, m);
        break;
    }
    }
    rmul(g, {}, 0, t, m);
}
static void op_mtrx(Reg& g, Rng& r)
{
    int t = r.below(g.r.n);
    complex m[4];
    rand_mtrx(r, m);
    if (IS_NORM_0(m[1]) && IS_NORM_0(m[2]) && r.chance(0.5)) {
        g.q->Phase(m[0], m[3], t);
    } else if (IS_NORM_0(m[0]) && IS_NORM_0(m[3]) && r.chance(0.5)) {
        g.q->Invert(m[1], m[2], t);
    } else {
        g.q->Mtrx(m, t);
    }
    rmul(g, {}, 0, t, m);
}
static void op_cg(Reg& g, Rng& r) // named controlled Clifford gates
{
    if (g.r.n < 2) {
        return op_g1(g, r);
    }
    auto q = pick(g, r, 2);
    complex m[4];
    int k = r.below(6);
    int anti = k & 1;
    std::vector<bitLenInt> c{ q[0] };
    switch (C->sub = k) {
    case 0:
        g.q->CNOT(q[0], q[1]);
        cliff1(1, m);
        break;
    case 1:
        g.q->AntiCNOT(q[0], q[1]);
        cliff1(1, m);
        break;
    case 2:
        g.q->CY(q[0], q[1]);
        cliff1(2, m);
        break;
    case 3:
        g.q->AntiCY(q[0], q[1]);
        cliff1(2, m);
        break;
    case 4:
        g.q->CZ(q[0], q[1]);
        cliff1(3, m);
        break;
    default:
        g.q->AntiCZ(q[0], q[1]);
        cliff1(3, m);
        break;
    }
    rmul(g, c, anti ? 0 : 1, q[1], m);
}
static void op_cgn(Reg& g, Rng& r) // named controlled non-Clifford gates
{
    if (g.r.n < 3) {
        return op_cg(g, r);
    }
    auto q = pick(g, r, 3);
    complex m[4] = { C1, C0, C0, C1 };
    std::vector<bitLenInt> c1{ q[0] }, c2{ q[0], q[1] };
    real1_f a = angle(r), b = angle(r), c = angle(r);
    switch (C->sub = r.below(26)) {
    case 0:
        g.q->CCNOT(q[0], q[1], q[2]);
        cliff1(1, m);
        return rmul(g, c2, 3, q[2], m);
    case 1:
        g.q->AntiCCNOT(q[0], q[1], q[2]);
        cliff1(1, m);
        return rmul(g, c2, 0, q[2], m);
    case 2:
        g.q->CCY(q[0], q[1], q[2]);
        cliff1(2, m);
        return rmul(g, c2, 3, q[2], m);
    case 3:
        g.q->AntiCCY(q[0], q[1], q[2]);
        cliff1(2, m);
        return rmul(g, c2, 0, q[2], m);
    case 4:
        g.q->CCZ(q[0], q[1], q[2]);
        cliff1(3, m);
        return rmul(g, c2, 3, q[2], m);
    case 5:
        g.q->AntiCCZ(q[0], q[1], q[2]);
        cliff1(3, m);
        return rmul(g, c2, 0, q[2], m);
    case 6:
        g.q->CH(q[0], q[2]);
        cliff1(0, m);
        return rmul(g, c1, 1, q[2], m);
    case 7:
        g.q->AntiCH(q[0], q[2]);
        cliff1(0, m);
        return rmul(g, c1, 0, q[2], m);
    case 8:
        g.q->CS(q[0], q[2]);
        cliff1(4, m);
        return rmul(g, c1, 1, q[2], m);
    case 9:
        g.q->AntiCS(q[0], q[2]);
        cliff1(4, m);
        return rmul(g, c1, 0, q[2], m);
    case 10:
        g.q->CIS(q[0], q[2]);
        cliff1(5, m);
        return rmul(g, c1, 1, q[2], m);
    case 11:
        g.q->AntiCIS(q[0], q[2]);
        cliff1(5, m);
        return rmul(g, c1, 0, q[2], m);
    case 12:
        g.q->CT(q[0], q[2]);
        m[3] = cis(M_PI / 4);
        return rmul(g, c1, 1, q[2], m);
    case 13:
        g.q->CIT(q[0], q[2]);
        m[3] = cis(-M_PI / 4);
        return rmul(g, c1, 1, q[2], m);
    case 14: {
        int n = 1 + r.below(5);
        g.q->CPhaseRootN(n, q[0], q[2]);
        m[3] = cis(-M_PI / (1 << (n - 1)));
        return rmul(g, c1, 1, q[2], m);
    }
    case 15: {
        int n = 1 + r.below(5);
        g.q->AntiCPhaseRootN(n, q[0], q[2]);
        m[3] = cis(-M_PI / (1 << (n - 1)));
        return rmul(g, c1, 0, q[2], m);
    }
    case 16: {
        int n = 1 + r.below(5);
        g.q->CIPhaseRootN(n, q[0], q[2]);
        m[3] = cis(M_PI / (1 << (n - 1)));
        return rmul(g, c1, 1, q[2], m);
    }
    case 17: {
        int n = 1 + r.below(5);
        g.q->AntiCIPhaseRootN(n, q[0], q[2]);
        m[3] = cis(M_PI / (1 << (n - 1)));
        return rmul(g, c1, 0, q[2], m);
    }
    case 18:
        g.q->CU(c2, q[2], a, b, c);
        m_u(m, a, b, c);
        return rmul(g, c2, 3, q[2], m);
    case 19:
        g.q->AntiCU(c2, q[2], a, b, c);
        m_u(m, a, b, c);
        return rmul(g, c2, 0, q[2], m);
    case 20:
        g.q->CRZ(a, q[0], q[2]);
        m[0] = cis(-a / 2);
        m[3] = cis(a / 2);
        return rmul(g, c1, 1, q[2], m);
    case 21:
        g.q->CRY(a, q[0], q[2]);
        m[0] = m[3] = complex((real1)cos(a / 2), 0);
        m[1] = complex((real1)-sin(a / 2), 0);
        m[2] = -m[1];
        return rmul(g, c1, 1, q[2], m);
    case 22:
    case 23: {
        bool anti = r.chance(0.5);
        anti ? g.q->AntiCAI(q[0], q[2], a, b) : g.q->CAI(q[0], q[2], a, b);
        m[0] = m[3] = complex((real1)cos(b / 2), 0);
        m[2] = cis(a) * (real1)sin(b / 2);
        m[1] = -conj(m[2]);
        return rmul(g, c1, anti ? 0 : 1, q[2], m);
    }
    default: {
        bool anti = r.chance(0.5);
        anti ? g.q->AntiCIAI(q[0], q[2], a, b) : g.q->CIAI(q[0], q[2], a, b);
        m[0] = m[3] = complex((real1)cos(b / 2), 0);
        complex x = cis(a) * (real1)sin(b / 2);
        m[1] = conj(x);
        m[2] = -x;
        return rmul(g, c1, anti ? 0 : 1, q[2], m);
    }
    }
}
static void op_mc(Reg& g, Rng& r)
{
    int nc = cliff_only() ? r.below(2) : r.below(4);
    if (nc > g.r.n - 1) {
        nc = g.r.n - 1;
    }
    auto q = pick(g, r, nc + 1);
    int t = q.back();
    q.pop_back();
    complex m[4];
    if (cliff_only()) {
        int k = nc ? r.below(3) : r.below(NCLIFF1);
        cliff1(nc ? 1 + k : k, m);
    } else {
        rand_mtrx(r, m);
    }
    bool ph = IS_NORM_0(m[1]) && IS_NORM_0(m[2]);
    bool inv = IS_NORM_0(m[0]) && IS_NORM_0(m[3]);
    int64_t ones = ((int64_t)1 << nc) - 1;
    int64_t perm = ones;
    int form = r.below(3);
    bool named = r.chance(0.5);
    if (form == 0) {
        if (ph && named) {
            g.q->MCPhase(q, m[0], m[3], t);
        } else if (inv && named) {
            g.q->MCInvert(q, m[1], m[2], t);
        } else {
            g.q->MCMtrx(q, m, t);
        }
    } else if (form == 1) {
        perm = 0;
        if (ph && named) {
            g.q->MACPhase(q, m[0], m[3], t);
        } else if (inv && named) {
            g.q->MACInvert(q, m[1], m[2], t);
        } else {
            g.q->MACMtrx(q, m, t);
        }
    } else {
        perm = (int64_t)(r.next() & (uint64_t)ones);
        if (ph && named) {
            g.q->UCPhase(q, m[0], m[3], t, (bitCapInt)perm);
        } else if (inv && named) {
            g.q->UCInvert(q, m[1], m[2], t, (bitCapInt)perm);
        } else {
            g.q->UCMtrx(q, m, t, (bitCapInt)perm);
        }
    }
    rmul(g, q, perm, t, m);
}
static void ref_iswap(Reg& g, int a, int b, bool inv)
{
    complex cz[4], s[4];
    cliff1(3, cz);
    cliff1(inv ? 5 : 4, s);
    std::vector<bitLenInt> c{ (bitLenInt)a };
    ref_swap(&g.r, a, b);
    rmul(g, c, 1, b, cz);
    rmul(g, {}, 0, a, s);
    rmul(g, {}, 0, b, s);
}
// controlled application of a 4x4 acting in the {01,10} subspace: [[u00,u01],[u10,u11]]
static void ref_sub2(Reg& g, int64_t cmask, int64_t cval, int a, int b, const rcx u[4])
{
    int64_t pa = (int64_t)1 << a, pb = (int64_t)1 << b, d = (int64_t)1 << g.r.n;
    for (int64_t i = 0; i < d; ++i) {
        if (!(i & pa) || (i & pb) || (i & cmask) != cval) {
            continue;
        }
        int64_t j = (i & ~pa) | pb;
        rcx x = g.r.a[i], y = g.r.a[j];
        g.r.a[i] = rcx{ u[0].re * x.re - u[0].im * x.im + u[1].re * y.re - u[1].im * y.im,
            u[0].re * x.im + u[0].im * x.re + u[1].re * y.im + u[1].im * y.re };
        g.r.a[j] = rcx{ u[2].re * x.re - u[2].im * x.im + u[3].re * y.re - u[3].im * y.im,
            u[2].re * x.im + u[2].im * x.re + u[3].re * y.im + u[3].im * y.re };
    }
}
static void op_swap(Reg& g, Rng& r)
{
    if (g.r.n < 2 || (C->P->sc.rd_mode == 1 && r.chance(0.3))) {
        if (C->P->sc.rd_mode == 1) {
            int t = r.below(g.r.n);
            complex x[4];
            cliff1(1, x);
            g.q->X(t);
            return rmul(g, {}, 0, t, x);
        }
        return op_g1(g, r);
    }
    auto q = pick(g, r, 2);
    switch (C->sub = r.below(3)) {
    case 0:
        g.q->Swap(q[0], q[1]);
        ref_swap(&g.r, q[0], q[1]);
        break;
    case 1:
        g.q->ISwap(q[0], q[1]);
        ref_iswap(g, q[0], q[1], false);
        break;
    default:
        g.q->IISwap(q[0], q[1]);
        ref_iswap(g, q[0], q[1], true);
        break;
    }
}
static void op_swapn(Reg& g, Rng& r)
{
    if (g.r.n < 2) {
        return op_g1(g, r);
    }
    int nc = r.below(3);
    if (nc > g.r.n - 2) {
        nc = g.r.n - 2;
    }
    auto q = pick(g, r, 2 + nc);
    std::vector<bitLenInt> c(q.begin() + 2, q.end());
    int64_t cm = 0;
    for (auto x : c) {
        cm |= (int64_t)1 << x;
    }
    const rcx sw[4] = { { 0, 0 }, { 1, 0 }, { 1, 0 }, { 0, 0 } };
    const rcx sq[4] = { { 0.5, 0.5 }, { 0.5, -0.5 }, { 0.5, -0.5 }, { 0.5, 0.5 } };
    const rcx isq[4] = { { 0.5, -0.5 }, { 0.5, 0.5 }, { 0.5, 0.5 }, { 0.5, -0.5 } };
    switch (C->sub = r.below(9)) {
    case 0:
        g.q->SqrtSwap(q[0], q[1]);
        return ref_sub2(g, 0, 0, q[0], q[1], sq);
    case 1:
        g.q->ISqrtSwap(q[0], q[1]);
        return ref_sub2(g, 0, 0, q[0], q[1], isq);
    case 2:
        g.q->CSwap(c, q[0], q[1]);
        return ref_sub2(g, cm, cm, q[0], q[1], sw);
    case 3:
        g.q->AntiCSwap(c, q[0], q[1]);
        return ref_sub2(g, cm, 0, q[0], q[1], sw);
    case 4:
        g.q->CSqrtSwap(c, q[0], q[1]);
        return ref_sub2(g, cm, cm, q[0], q[1], sq);
    case 5:
        g.q->AntiCSqrtSwap(c, q[0], q[1]);
        return ref_sub2(g, cm, 0, q[0], q[1], sq);
    case 6:
        g.q->CISqrtSwap(c, q[0], q[1]);
        return ref_sub2(g, cm, cm, q[0], q[1], isq);
    case 7:
        g.q->AntiCISqrtSwap(c, q[0], q[1]);
        return ref_sub2(g, cm, 0, q[0], q[1], isq);
    default: {
        real1_f th = angle(r), ph = angle(r);
        g.q->FSim(th, ph, q[0], q[1]);
        const rcx fs[4] = { { cos(th), 0 }, { 0, -sin(th) }, { 0, -sin(th) }, { cos(th), 0 } };
        ref_sub2(g, 0, 0, q[0], q[1], fs);
        complex m[4] = { C1, C0, C0, cis(-ph) };
        std::vector<bitLenInt> c1{ q[0] };
        return rmul(g, c1, 1, q[1], m);
    }
    }
}
static int64_t rand_mask(Reg& g, Rng& r)
{
    int64_t m = (int64_t)(r.next() & (((uint64_t)1 << g.r.n) - 1));
    return m ? m : 1;
}
struct ParSel {
    int64_t mask, cm;
    int odd;
};
static int64_t par_sel(int64_t i, void* p)
{
    ParSel* s = (ParSel*)p;
    return (i & s->cm) == s->cm && (__builtin_popcountll(i & s->mask) & 1) == s->odd;
}
static void op_mask(Reg& g, Rng& r)
{
    int64_t mask = rand_mask(g, r);
    complex m[4];
    int k = r.below(cliff_only() ? 3 : 7);
    switch (C->sub = k) {
    case 0:
        g.q->XMask((bitCapInt)mask);
        break;
    case 1:
        g.q->YMask((bitCapInt)mask);
        break;
    case 2:
        g.q->ZMask((bitCapInt)mask);
        break;
    case 3: {
        int n = 1 + r.below(4);
        g.q->PhaseRootNMask(n, (bitCapInt)mask);
        m[0] = C1;
        m[1] = m[2] = C0;
        m[3] = cis(-M_PI / (1 << (n - 1)));
        for (int i = 0; i < g.r.n; ++i) {
            if ((mask >> i) & 1) {
                rmul(g, {}, 0, i, m);
            }
        }
        return;
    }
    case 4: {
        real1_f a = angle(r);
        g.q->PhaseParity(a, (bitCapInt)mask);
        ParSel s{ mask, 0, 1 };
        ref_phase(&g.r, par_sel, &s, rcx{ cos(a / 2), sin(a / 2) });
        s.odd = 0;
        return ref_phase(&g.r, par_sel, &s, rcx{ cos(a / 2), -sin(a / 2) });
    }
    case 5: {
        int st = r.below(g.r.n), len = 1 + r.below(g.r.n - st);
        g.q->ZeroPhaseFlip(st, len);
        int64_t mm = (((int64_t)1 << len) - 1) << st;
        for (int64_t i = 0; i < ((int64_t)1 << g.r.n); ++i) {
            if (!(i & mm)) {
                g.r.a[i].re = -g.r.a[i].re;
                g.r.a[i].im = -g.r.a[i].im;
            }
        }
        return;
    }
    default: {
        QParityPtr qp = std::dynamic_pointer_cast<QParity>(g.q);
        if (!qp) {
            return;
        }
        real1_f a = angle(r);
        ParSel s{ mask, 0, 1 };
        if (r.chance(0.5) && g.r.n > 1) {
            int c = r.below(g.r.n);
            s.mask &= ~((int64_t)1 << c);
            if (!s.mask) {
                return;
            }
            s.cm = (int64_t)1 << c;
            std::vector<bitLenInt> cs{ (bitLenInt)c };
            qp->CUniformParityRZ(cs, (bitCapInt)s.mask, a);
        } else {
            qp->UniformParityRZ((bitCapInt)mask, a);
        }
        ref_phase(&g.r, par_sel, &s, rcx{ cos(a), sin(a) });
        s.odd = 0;
        return ref_phase(&g.r, par_sel, &s, rcx{ cos(a), -sin(a) });
    }
    }
    cliff1(1 + k, m);
    for (int i = 0; i < g.r.n; ++i) {
        if ((mask >> i) & 1) {
            rmul(g, {}, 0, i, m);
        }
    }
}
static void op_uc(Reg& g, Rng& r)
{
    int nc = r.below(3);
    if (nc > g.r.n - 1) {
        nc = g.r.n - 1;
    }
    auto q = pick(g, r, nc + 1);
    int t = q.back();
    q.pop_back();
    int np = 1 << nc;
    int k = r.below(3);
    std::vector<complex> m(4 * np);
    std::vector<real1> ang(np);
    for (int p = 0; p < np; ++p) {
        if (k == 0) {
            rand_mtrx(r, &m[4 * p]);
        } else {
            double a = angle(r);
            ang[p] = (real1)a;
            if (k == 1) {
                m[4 * p] = m[4 * p + 3] = complex((real1)cos(a / 2), 0);
                m[4 * p + 1] = complex((real1)-sin(a / 2), 0);
                m[4 * p + 2] = -m[4 * p + 1];
            } else {
                m[4 * p] = cis(-a / 2);
                m[4 * p + 1] = m[4 * p + 2] = C0;
                m[4 * p + 3] = cis(a / 2);
            }
        }
    }
    if (k == 0) {
        g.q->UniformlyControlledSingleBit(q, t, m.data());
    } else if (k == 1) {
        g.q->UniformlyControlledRY(q, t, ang.data());
    } else {
        g.q->UniformlyControlledRZ(q, t, ang.data());
    }
    for (int p = 0; p < np; ++p) {
        rmul(g, q, p, t, &m[4 * p]);
    }
}
static void op_reg(Reg& g, Rng& r) // register-wide Clifford-ish structure operations
{
    int st = r.below(g.r.n), len = 1 + r.below(g.r.n - st);
    complex m[4];
    switch (C->sub = r.below(5)) {
    case 0:
        g.q->H(st, len);
        cliff1(0, m);
        for (int i = 0; i < len; ++i) {
            rmul(g, {}, 0, st + i, m);
        }
        break;
    case 1:
        g.q->X(st, len);
        cliff1(1, m);
        for (int i = 0; i < len; ++i) {
            rmul(g, {}, 0, st + i, m);
        }
        break;
    case 2:
    case 3: {
        bool left = r.chance(0.5);
        int sh = r.below(len + 2);
        left ? g.q->ROL(sh, st, len) : g.q->ROR(sh, st, len);
        int s = sh % len;
        if (!left) {
            s = (len - s) % len;
        }
        struct X {
            int st, len, s;
        } x{ st, len, s };
        ref_perm(
            &g.r,
            [](int64_t i, void* p) -> int64_t {
                X* x = (X*)p;
                int64_t lm = ((int64_t)1 << x->len) - 1;
                int64_t v = (i >> x->st) & lm;
                int64_t w = ((v << x->s) | (v >> (x->len - x->s))) & lm;
                return (i & ~(lm << x->st)) | (w << x->st);
            },
            &x);
        break;
    }
    default:
        g.q->Reverse(st, st + len);
        for (int a = st, b = st + len - 1; a < b; ++a, --b) {
            ref_swap(&g.r, a, b);
        }
    }
}
static void op_qft(Reg& g, Rng& r)
{
    bool sep = r.chance(0.3);
    int k = r.below(4);
    std::vector<bitLenInt> q;
    int st = r.below(g.r.n), len = 1 + r.below(g.r.n - st);
    if (k >= 2) {
        q = pick(g, r, 1 + r.below(g.r.n));
    }
    complex h[4], m[4] = { C1, C0, C0, C1 };
    cliff1(0, h);
    if (k == 0) {
        g.q->QFT(st, len, sep);
        int end = st + len - 1;
        for (int i = 0; i < len; ++i) {
            int hb = end - i;
            for (int j = 0; j < i; ++j) {
                m[3] = cis(-M_PI / (1 << (j + 1)));
                rmul(g, { (bitLenInt)hb }, 1, hb + 1 + j, m);
            }
            rmul(g, {}, 0, hb, h);
        }
    } else if (k == 1) {
        g.q->IQFT(st, len, sep);
        for (int i = 0; i < len; ++i) {
            for (int j = 0; j < i; ++j) {
                m[3] = cis(M_PI / (1 << (j + 1)));
                rmul(g, { (bitLenInt)(st + i - (j + 1)) }, 1, st + i, m);
            }
            rmul(g, {}, 0, st + i, h);
        }
    } else if (k == 2) {
        g.q->QFTR(q, sep);
        int end = (int)q.size() - 1;
        for (int i = 0; i <= end; ++i) {
            rmul(g, {}, 0, q[end - i], h);
            for (int j = 0; j < end - i; ++j) {
                m[3] = cis(-M_PI / (1 << (j + 1)));
                rmul(g, { q[end - i - (j + 1)] }, 1, q[end - i], m);
            }
        }
    } else {
        g.q->IQFTR(q, sep);
        for (int i = 0; i < (int)q.size(); ++i) {
            for (int j = 0; j < i; ++j) {
                m[3] = cis(M_PI / (1 << (j + 1)));
                rmul(g, { q[i - (j + 1)] }, 1, q[i], m);
            }
            rmul(g, {}, 0, q[i], h);
        }
    }
}
static void op_tev(Reg& g, Rng& r) // time evolution under single-qubit Hamiltonian terms
{
    int t = r.below(g.r.n);
    BitOp o(new complex[4], std::default_delete<complex[]>());
    int k = r.below(3);
    double w = 0.2 + r.unit();
    complex p[4];
    cliff1(1 + k, p); // X, Y, Z
    for (int i = 0; i < 4; ++i) {
        o.get()[i] = p[i] * (real1)w;
    }
    double dt = 0.1 + r.unit();
    Hamiltonian h;
    h.push_back(std::make_shared<HamiltonianOp>((bitLenInt)t, o));
    g.q->TimeEvolve(h, (real1_f)dt);
    // e^{-i w dt P}
    double c = cos(w * dt), s = sin(w * dt);
    complex m[4];
    for (int i = 0; i < 4; ++i) {
        m[i] = complex(0, (real1)-s) * p[i];
    }
    m[0] = m[0] + complex((real1)c, 0);
    m[3] = m[3] + complex((real1)c, 0);
    rmul(g, {}, 0, t, m);
}

// ---- classical logic / arithmetic ---------------------------------------------------------------------------------------
static void measure_bit_to(Reg& g, int b, bool v)
{
    bool res = g.q->M(b);
    observed(g, (int64_t)1 << b, (int64_t)res << b, "M");
    if (res != v) {
        complex m[4];
        cliff1(1, m);
        g.q->X(b);
        rmul(g, {}, 0, b, m);
    }
}
static void measure_reg_to0(Reg& g, int st, int len)
{
    int64_t v = (int64_t)(bitCapIntOcl)g.q->MReg(st, len);
    int64_t m = (((int64_t)1 << len) - 1) << st;
    observed(g, m, v << st, "MReg");
    if (v) {
        g.q->XMask((bitCapInt)(v << st));
        complex x[4];
        cliff1(1, x);
        for (int i = 0; i < len; ++i) {
            if ((v >> i) & 1) {
                rmul(g, {}, 0, st + i, x);
            }
        }
    }
}
struct AluX {
    int st, len, cst, clen, ov, cy, k;
    int64_t v, modn, cm;
    const unsigned char* tab;
};
static int64_t fld(int64_t i, int st, int len) { return (i >> st) & (((int64_t)1 << len) - 1); }
static int64_t put(int64_t i, int st, int len, int64_t v)
{
    int64_t m = (((int64_t)1 << len) - 1) << st;
    return (i & ~m) | ((v << st) & m);
}
// choose disjoint ranges [a,a+la) and [b,b+lb) inside n qubits; returns 0 if impossible
static int two_ranges(Reg& g, Rng& r, int la, int lb, int* a, int* b)
{
    int n = g.r.n;
    if (la + lb > n) {
        return 0;
    }
    int slack = n - la - lb;
    int g1 = r.below(slack + 1);
    int g2 = r.below(slack - g1 + 1);
    if (r.chance(0.5)) {
        *a = g1;
        *b = g1 + la + g2;
    } else {
        *b = g1;
        *a = g1 + lb + g2;
    }
    return 1;
}
static std::vector<bitLenInt> free_ctrls(Reg& g, Rng& r, int a, int la, int b, int lb, int maxc)
{
    std::vector<bitLenInt> f, o;
    for (int i = 0; i < g.r.n; ++i) {
        if ((i >= a && i < a + la) || (lb && i >= b && i < b + lb)) {
            continue;
        }
        f.push_back((bitLenInt)i);
    }
    int k = r.below(maxc + 1);
    while (k-- > 0 && !f.empty()) {
        int j = r.below((int)f.size());
        o.push_back(f[j]);
        f.erase(f.begin() + j);
    }
    return o;
}
static int64_t cmask_of(const std::vector<bitLenInt>& c)
{
    int64_t m = 0;
    for (auto x : c) {
        m |= (int64_t)1 << x;
    }
    return m;
}
static int64_t f_add(int64_t i, void* p)
{
    AluX* x = (AluX*)p;
    if ((i & x->cm) != x->cm) {
        return i;
    }
    return put(i, x->st, x->len, fld(i, x->st, x->len) + x->v);
}
static int64_t f_addc(int64_t i, void* p) // carry is known to be clear
{
    AluX* x = (AluX*)p;
    int64_t s = fld(i, x->st, x->len) + x->v;
    i = put(i, x->st, x->len, s);
    return put(i, x->cy, 1, (s >> x->len) & 1);
}
static void op_inc(Reg& g, Rng& r)
{
    int st = r.below(g.r.n), len = 1 + r.below(g.r.n - st);
    AluX x = {};
    x.st = st;
    x.len = len;
    int64_t v = (int64_t)(r.next() & (((uint64_t)1 << len) - 1));
    auto c = free_ctrls(g, r, st, len, 0, 0, 2);
    switch (C->sub = r.below(4)) {
    case 0:
        g.q->INC((bitCapInt)v, st, len);
        x.v = v;
        break;
    case 1:
        g.q->DEC((bitCapInt)v, st, len);
        x.v = -v;
        break;
    case 2:
        g.q->CINC((bitCapInt)v, st, len, c);
        x.v = v;
        x.cm = cmask_of(c);
        break;
    default:
        g.q->CDEC((bitCapInt)v, st, len, c);
        x.v = -v;
        x.cm = cmask_of(c);
        break;
    }
    ref_perm(&g.r, f_add, &x);
}
static void signed_phase(Reg& g, AluX& x, bool needflag)
{
    // flips the phase of basis states whose *result* came from signed overflow (input recovered from the result);
    // called before ref_perm with the input index
    int64_t d = (int64_t)1 << g.r.n;
    int64_t lm = ((int64_t)1 << x.len) - 1, sg = (int64_t)1 << (x.len - 1);
    for (int64_t i = 0; i < d; ++i) {
        int64_t in = fld(i, x.st, x.len), add = x.v & lm;
        int64_t res = (in + add) & lm;
        bool ovf = ((in & sg) == (add & sg)) && ((res & sg) != (in & sg));
        if (!ovf) {
            continue;
        }
        if (needflag && !((i >> x.ov) & 1)) {
            continue;
        }
        g.r.a[i].re = -g.r.a[i].re;
        g.r.a[i].im = -g.r.a[i].im;
    }
}
static void op_incs(Reg& g, Rng& r) // signed addition without carry
{
    if (g.r.n < 2) {
        return;
    }
    int a, b, len = 1 + r.below(g.r.n - 1);
    if (!two_ranges(g, r, len, 1, &a, &b)) {
        return;
    }
    AluX x = {};
    x.st = a;
    x.len = len;
    x.ov = b;
    int64_t lm = ((int64_t)1 << len) - 1;
    int64_t v = (int64_t)(r.next() & (uint64_t)lm);
    if (r.chance(0.5)) {
        g.q->INCS((bitCapInt)v, a, len, b);
        x.v = v;
    } else {
        g.q->DECS((bitCapInt)v, a, len, b);
        x.v = (((int64_t)1 << len) - v) & lm;
    }
    if (x.v & lm) {
        signed_phase(g, x, true);
    }
    ref_perm(&g.r, f_add, &x);
}
static void op_incc(Reg& g, Rng& r) // addition / subtraction with carry
{
    if (g.r.n < 2) {
        return;
    }
    int a, b, len = 1 + r.below(g.r.n - 1);
    if (!two_ranges(g, r, len, 1, &a, &b)) {
        return;
    }
    int64_t lm = ((int64_t)1 << len) - 1;
    int64_t v = (int64_t)(r.next() & (uint64_t)lm);
    bool carry = r.chance(0.5);
    measure_bit_to(g, b, carry);
    AluX x = {};
    x.st = a;
    x.len = len;
    x.cy = b;
    int k = r.below(2);
    if (k == 0) {
        g.q->INCC((bitCapInt)v, a, len, b);
        x.v = v + carry;
    } else {
        g.q->DECC((bitCapInt)v, a, len, b);
        x.v = ((int64_t)1 << len) - v - (carry ? 0 : 1);
    }
    ref_project(&g.r, (int64_t)1 << b, (int64_t)carry << b);
    struct Y {
        AluX* x;
    };
    if (carry) { // INCC clears a set carry before adding
        complex m[4];
        cliff1(1, m);
        rmul(g, {}, 0, b, m);
    }
    ref_perm(&g.r, f_addc, &x);
}
static void op_incsc(Reg& g, Rng& r) // signed add with carry
{
    QAluPtr q = std::dynamic_pointer_cast<QAlu>(g.q);
    if (!q || g.r.n < 3) {
        return;
    }
    int a, b, len = 1 + r.below(g.r.n - 2);
    if (!two_ranges(g, r, len, 2, &a, &b)) {
        return;
    }
    int cy = b, ov = b + 1;
    int64_t lm = ((int64_t)1 << len) - 1;
    int64_t v = (int64_t)(r.next() & (uint64_t)lm);
    bool carry = r.chance(0.5);
    measure_bit_to(g, cy, carry);
    AluX x = {};
    x.st = a;
    x.len = len;
    x.cy = cy;
    x.ov = ov;
    bool flag = r.chance(0.5), sub = r.chance(0.5);
    if (flag) {
        sub ? q->DECSC((bitCapInt)v, a, len, ov, cy) : q->INCSC((bitCapInt)v, a, len, ov, cy);
    } else {
        sub ? q->DECSC((bitCapInt)v, a, len, cy) : q->INCSC((bitCapInt)v, a, len, cy);
    }
    x.v = sub ? ((int64_t)1 << len) - v - (carry ? 0 : 1) : v + carry;
    if (carry) {
        complex m[4];
        cliff1(1, m);
        rmul(g, {}, 0, cy, m);
    }
    if (x.v & lm) {
        signed_phase(g, x, flag);
    }
    ref_perm(&g.r, f_addc, &x);
}
static int64_t f_mul(int64_t i, void* p)
{
    AluX* x = (AluX*)p;
    if ((i & x->cm) != x->cm) {
        return i;
    }
    int64_t in = fld(i, x->st, x->len) * x->v;
    i = put(i, x->st, x->len, in);
    return put(i, x->cst, x->len, in >> x->len);
}
static void op_mul(Reg& g, Rng& r) // (controlled) multiplication and, optionally, its inverse
{
    QAluPtr q = std::dynamic_pointer_cast<QAlu>(g.q);
    if (!q || g.r.n < 2) {
        return;
    }
    int len = 1 + (r.chance(0.4) ? 0 : r.below(g.r.n / 2));
    int a, b;
    if (!two_ranges(g, r, len, len, &a, &b)) {
        return;
    }
    auto c = free_ctrls(g, r, a, len, b, len, 4);
    AluX x = {};
    x.st = a;
    x.cst = b;
    x.len = len;
    x.cm = cmask_of(c);
    int64_t lm = ((int64_t)1 << len) - 1;
    x.v = 1 + (int64_t)(r.next() % (uint64_t)lm);
    measure_reg_to0(g, b, len);
    c.empty() && r.chance(0.5) ? q->MUL((bitCapInt)x.v, a, b, len) : q->CMUL((bitCapInt)x.v, a, b, len, c);
    // inverse only ever applied to the image of the forward operation
    if (r.chance(0.4)) {
        c.empty() && r.chance(0.5) ? q->DIV((bitCapInt)x.v, a, b, len) : q->CDIV((bitCapInt)x.v, a, b, len, c);
        return;
    }
    ref_perm(&g.r, f_mul, &x);
}
static int64_t f_modn(int64_t i, void* p)
{
    AluX* x = (AluX*)p;
    if ((i & x->cm) != x->cm) {
        return i;
    }
    int64_t in = fld(i, x->st, x->len), o = 0;
    if (x->k == 0) {
        o = (in * x->v) % x->modn;
    } else {
        o = 1 % x->modn;
        for (int64_t j = 0; j < in; ++j) {
            o = (o * x->v) % x->modn;
        }
    }
    return put(i, x->cst, x->len, o);
}
static void op_modn(Reg& g, Rng& r)
{
    QAluPtr q = std::dynamic_pointer_cast<QAlu>(g.q);
    if (g.r.n < 2) {
        return;
    }
    int len = 1 + r.below(g.r.n / 2);
    int a, b;
    if (!two_ranges(g, r, len, len, &a, &b)) {
        return;
    }
    auto c = free_ctrls(g, r, a, len, b, len, 2);
    AluX x = {};
    x.st = a;
    x.cst = b;
    x.len = len;
    x.cm = cmask_of(c);
    x.modn = 2 + (int64_t)(r.next() % ((((uint64_t)1 << len)) > 2 ? (((uint64_t)1 << len) - 1) : 1));
    if (x.modn > ((int64_t)1 << len)) {
        x.modn = (int64_t)1 << len;
    }
    x.v = 1 + (int64_t)(r.next() % (uint64_t)(x.modn > 1 ? x.modn - 1 : 1));
    measure_reg_to0(g, b, len);
    x.k = q ? r.below(2) : 0;
    if (x.k == 0) {
        bool plain = c.empty() && r.chance(0.5);
        if (q) {
            plain ? q->MULModNOut((bitCapInt)x.v, (bitCapInt)x.modn, a, b, len)
                  : q->CMULModNOut((bitCapInt)x.v, (bitCapInt)x.modn, a, b, len, c);
        } else {
            plain ? g.q->MULModNOut((bitCapInt)x.v, (bitCapInt)x.modn, a, b, len)
                  : g.q->CMULModNOut((bitCapInt)x.v, (bitCapInt)x.modn, a, b, len, c);
        }
        if (r.chance(0.4)) {
            if (q) {
                plain ? q->IMULModNOut((bitCapInt)x.v, (bitCapInt)x.modn, a, b, len)
                      : q->CIMULModNOut((bitCapInt)x.v, (bitCapInt)x.modn, a, b, len, c);
            } else {
                plain ? g.q->IMULModNOut((bitCapInt)x.v, (bitCapInt)x.modn, a, b, len)
                      : g.q->CIMULModNOut((bitCapInt)x.v, (bitCapInt)x.modn, a, b, len, c);
            }
            return;
        }
    } else {
        c.empty() && r.chance(0.5) ? q->POWModNOut((bitCapInt)x.v, (bitCapInt)x.modn, a, b, len)
                                   : q->CPOWModNOut((bitCapInt)x.v, (bitCapInt)x.modn, a, b, len, c);
    }
    ref_perm(&g.r, f_modn, &x);
}
static int64_t f_lda(int64_t i, void* p)
{
    AluX* x = (AluX*)p;
    return put(i, x->cst, x->clen, x->tab[fld(i, x->st, x->len)]);
}
static int64_t f_ladd(int64_t i, void* p)
{
    AluX* x = (AluX*)p;
    int64_t s = fld(i, x->cst, x->clen);
    int64_t t = x->tab[fld(i, x->st, x->len)];
    if (x->k == 1) {
        s = s + t + x->v; // add with carry-in
        i = put(i, x->cy, 1, (s >> x->clen) & 1);
    } else {
        // subtract: borrow when carry-in is clear; carry-out set when no borrow
        int64_t full = s + (((int64_t)1 << x->clen) - t) - (1 - x->v);
        s = full;
        i = put(i, x->cy, 1, (s >> x->clen) & 1);
    }
    return put(i, x->cst, x->clen, s);
}
static int64_t f_hash(int64_t i, void* p)
{
    AluX* x = (AluX*)p;
    return put(i, x->st, x->len, x->tab[fld(i, x->st, x->len)]);
}
static void op_table(Reg& g, Rng& r) // superposed table lookups
{
    QAluPtr q = std::dynamic_pointer_cast<QAlu>(g.q);
    if (!q || g.r.n < 3) {
        return;
    }
    unsigned char* tab = nullptr;
    std::vector<unsigned char> store(1024);
    tab = store.data();
    int k = C->sub = r.below(4);
    if (k == 3) {
        int st = r.below(g.r.n), len = 1 + r.below(g.r.n - st);
        if (len > 8) {
            len = 8;
        }
        AluX x = {};
        x.st = st;
        x.len = len;
        int n = 1 << len;
        for (int i = 0; i < n; ++i) {
            tab[i] = (unsigned char)i;
        }
        for (int i = n - 1; i > 0; --i) {
            int j = r.below(i + 1);
            std::swap(tab[i], tab[j]);
        }
        x.tab = tab;
        q->Hash(st, len, tab);
        return ref_perm(&g.r, f_hash, &x);
    }
    int li = 1 + r.below(g.r.n - 2), lv = 1 + r.below(g.r.n - li - 1 > 0 ? g.r.n - li - 1 : 1);
    if (li > 5) {
        li = 5;
    }
    if (lv > 5) {
        lv = 5;
    }
    int a, b;
    if (!two_ranges(g, r, li, lv + 1, &a, &b)) {
        return;
    }
    AluX x = {};
    x.st = a;
    x.len = li;
    x.cst = b;
    x.clen = lv;
    x.cy = b + lv;
    if (r.chance(0.5)) {
        x.cst = b + 1;
        x.cy = b;
    }
    for (int i = 0; i < (1 << li); ++i) {
        tab[i] = (unsigned char)r.below(1 << lv);
    }
    x.tab = tab;
    if (k == 0) {
        measure_reg_to0(g, x.cst, lv);
        bool reset = r.chance(0.5);
        q->IndexedLDA(a, li, x.cst, lv, tab, reset);
        return ref_perm(&g.r, f_lda, &x);
    }
    bool carry = r.chance(0.5);
    measure_bit_to(g, x.cy, carry);
    x.v = carry;
    x.k = k;
    if (k == 1) {
        q->IndexedADC(a, li, x.cst, lv, x.cy, tab);
    } else {
        q->IndexedSBC(a, li, x.cst, lv, x.cy, tab);
    }
    if (k == 1) {
        x.v = carry;
    }
    // carry bit is consumed as an input
    ref_perm(
        &g.r,
        [](int64_t i, void* p) -> int64_t {
            AluX* x = (AluX*)p;
            return put(i, x->cy, 1, ((i >> x->cy) & 1) ^ x->v);
        },
        &x);
    ref_perm(&g.r, f_ladd, &x);
}
static void op_fulladd(Reg& g, Rng& r)
{
    if (g.r.n < 4) {
        return;
    }
    auto q = pick(g, r, 4);
    // all variants are sequences of (controlled) NOTs: the reference is a bijection of basis states given by the adder
    // when carryOut is clear; on a set carryOut the XOR form applies.
    bool inv = r.chance(0.4);
    std::vector<bitLenInt> c;
    if (r.chance(0.4)) {
        c = free_ctrls(g, r, 0, 0, 0, 0, 2);
        std::vector<bitLenInt> d;
        for (auto x : c) {
            if (x != q[0] && x != q[1] && x != q[2] && x != q[3]) {
                d.push_back(x);
            }
        }
        c = d;
    }
    if (c.empty()) {
        inv ? g.q->IFullAdd(q[0], q[1], q[2], q[3]) : g.q->FullAdd(q[0], q[1], q[2], q[3]);
    } else {
        inv ? g.q->CIFullAdd(c, q[0], q[1], q[2], q[3]) : g.q->CFullAdd(c, q[0], q[1], q[2], q[3]);
    }
    struct X {
        int a, b, ci, co;
        int inv;
        int64_t cm;
    } x{ q[0], q[1], q[2], q[3], inv, cmask_of(c) };
    ref_perm(
        &g.r,
        [](int64_t i, void* p) -> int64_t {
            X* x = (X*)p;
            if ((i & x->cm) != x->cm) {
                return i;
            }
            int a = (i >> x->a) & 1, b = (i >> x->b) & 1, s = (i >> x->ci) & 1, co = (i >> x->co) & 1;
            int maj, ns;
            if (!x->inv) {
                maj = (a & b) | (s & (a ^ b));
                ns = s ^ a ^ b;
            } else {
                int ci = s ^ a ^ b;
                maj = (a & b) | (ci & (a ^ b));
                ns = ci;
            }
            return put(put(i, x->co, 1, co ^ maj), x->ci, 1, ns);
        },
        &x);
}
static void op_adcbits(Reg& g, Rng& r) // quantum-quantum adder
{
    int len = 1 + r.below(2);
    if (3 * len + 1 > g.r.n) {
        len = 1;
    }
    if (g.r.n < 4) {
        return;
    }
    int base = r.below(g.r.n - (3 * len + 1) + 1);
    int in1 = base, in2 = base + len, out = base + 2 * len, cy = base + 3 * len;
    auto c = free_ctrls(g, r, base, 3 * len + 1, 0, 0, 2);
    measure_reg_to0(g, out, len);
    bool ctl = !c.empty();
    ctl ? g.q->CADC(c, in1, in2, out, len, cy) : g.q->ADC(in1, in2, out, len, cy);
    if (r.chance(0.4)) {
        ctl ? g.q->CIADC(c, in1, in2, out, len, cy) : g.q->IADC(in1, in2, out, len, cy);
        return;
    }
    struct X {
        int a, b, o, cy, len;
        int64_t cm;
    } x{ in1, in2, out, cy, len, cmask_of(c) };
    ref_perm(
        &g.r,
        [](int64_t i, void* p) -> int64_t {
            X* x = (X*)p;
            if ((i & x->cm) != x->cm) {
                return i;
            }
            int64_t s = fld(i, x->a, x->len) + fld(i, x->b, x->len) + fld(i, x->cy, 1);
            return put(put(i, x->o, x->len, s), x->cy, 1, (s >> x->len) & 1);
        },
        &x);
}
static void op_less(Reg& g, Rng& r)
{
    QAluPtr q = std::dynamic_pointer_cast<QAlu>(g.q);
    if (!q) {
        return;
    }
    int st = r.below(g.r.n), len = 1 + r.below(g.r.n - st);
    int64_t v = (int64_t)(r.next() % (((uint64_t)1 << len) + 1));
    int64_t fm = 0;
    auto c = free_ctrls(g, r, st, len, 0, 0, 1);
    if (!c.empty()) {
        fm = (int64_t)1 << c[0];
        q->CPhaseFlipIfLess((bitCapInt)v, st, len, c[0]);
    } else {
        q->PhaseFlipIfLess((bitCapInt)v, st, len);
    }
    for (int64_t i = 0; i < ((int64_t)1 << g.r.n); ++i) {
        if (fld(i, st, len) < v && (i & fm) == fm) {
            g.r.a[i].re = -g.r.a[i].re;
            g.r.a[i].im = -g.r.a[i].im;
        }
    }
}
static void op_logic(Reg& g, Rng& r)
{
    if (g.r.n < 3) {
        return;
    }
    auto q = pick(g, r, 3);
    // documented for a cleared output bit
    measure_bit_to(g, q[2], false);
    bool cb = r.chance(0.5);
    int k = r.below(12);
    switch (C->sub = k) {
    case 0:
        g.q->AND(q[0], q[1], q[2]);
        break;
    case 1:
        g.q->OR(q[0], q[1], q[2]);
        break;
    case 2:
        g.q->XOR(q[0], q[1], q[2]);
        break;
    case 3:
        g.q->NAND(q[0], q[1], q[2]);
        break;
    case 4:
        g.q->NOR(q[0], q[1], q[2]);
        break;
    case 5:
        g.q->XNOR(q[0], q[1], q[2]);
        break;
    case 6:
        g.q->CLAND(q[0], cb, q[2]);
        break;
    case 7:
        g.q->CLOR(q[0], cb, q[2]);
        break;
    case 8:
        g.q->CLXOR(q[0], cb, q[2]);
        break;
    case 9:
        g.q->CLNAND(q[0], cb, q[2]);
        break;
    case 10:
        g.q->CLNOR(q[0], cb, q[2]);
        break;
    default:
        g.q->CLXNOR(q[0], cb, q[2]);
    }
    struct X {
        int a, b, o, k, cb;
    } x{ q[0], q[1], q[2], k, cb };
    ref_perm(
        &g.r,
        [](int64_t i, void* p) -> int64_t {
            X* x = (X*)p;
            int a = (i >> x->a) & 1, b = x->k >= 6 ? x->cb : (int)((i >> x->b) & 1), v;
            switch (x->k % 6) {
            case 0:
                v = a & b;
                break;
            case 1:
                v = a | b;
                break;
            case 2:
                v = a ^ b;
                break;
            case 3:
                v = !(a & b);
                break;
            case 4:
                v = !(a | b);
                break;
            default:
                v = !(a ^ b);
            }
            return i ^ ((int64_t)v << x->o);
        },
        &x);
}

// ---- queries ----------------------------------------------------------------------------------------------------------
static double refexp(Reg& g, double (*f)(int64_t, void*), void* p)
{
    double s = 0;
    for (int64_t i = 0; i < ((int64_t)1 << g.r.n); ++i) {
        s += f(i, p) * (g.r.a[i].re * g.r.a[i].re + g.r.a[i].im * g.r.a[i].im);
    }
    return s;
}
static void op_prob(Reg& g, Rng& r)
{
    int64_t full = ((int64_t)1 << g.r.n) - 1;
    switch (C->sub = r.below(9)) {
    case 0:
    case 1: {
        int t = r.below(g.r.n);
        return check_prob(g.q->Prob(t), ref_prob(&g.r, t), TOL_P, "Prob");
    }
    case 2: {
        int64_t p = (int64_t)(r.next() & (uint64_t)full);
        return check_prob(g.q->ProbAll((bitCapInt)p), ref_probmask(&g.r, full, p), TOL_P, "ProbAll");
    }
    case 3: {
        int64_t m = rand_mask(g, r), v = (int64_t)(r.next() & (uint64_t)m);
        return check_prob(g.q->ProbMask((bitCapInt)m, (bitCapInt)v), ref_probmask(&g.r, m, v), TOL_P, "ProbMask");
    }
    case 4: {
        int st = r.below(g.r.n), len = 1 + r.below(g.r.n - st);
        int64_t v = (int64_t)(r.next() & (((uint64_t)1 << len) - 1));
        return check_prob(g.q->ProbReg(st, len, (bitCapInt)v),
            ref_probmask(&g.r, (((int64_t)1 << len) - 1) << st, v << st), TOL_P, "ProbReg");
    }
    case 5: {
        auto q = pick(g, r, 1 + r.below(g.r.n));
        std::vector<real1> pr((size_t)1 << q.size());
        g.q->ProbBitsAll(q, pr.data());
        int64_t m = cmask_of(q);
        for (size_t i = 0; i < pr.size(); ++i) {
            int64_t v = 0;
            for (size_t j = 0; j < q.size(); ++j) {
                if ((i >> j) & 1) {
                    v |= (int64_t)1 << q[j];
                }
            }
            check_prob(pr[i], ref_probmask(&g.r, m, v), TOL_P, "ProbBitsAll");
        }
        return;
    }
    case 6: {
        int64_t m = rand_mask(g, r);
        int k = __builtin_popcountll(m);
        std::vector<real1> pr((size_t)1 << k);
        g.q->ProbMaskAll((bitCapInt)m, pr.data());
        for (size_t i = 0; i < pr.size(); ++i) {
            int64_t v = 0;
            int b = 0;
            for (int j = 0; j < g.r.n; ++j) {
                if ((m >> j) & 1) {
                    if ((i >> b) & 1) {
                        v |= (int64_t)1 << j;
                    }
                    ++b;
                }
            }
            check_prob(pr[i], ref_probmask(&g.r, m, v), TOL_P, "ProbMaskAll");
        }
        return;
    }
    case 7: {
        QParityPtr qp = std::dynamic_pointer_cast<QParity>(g.q);
        if (!qp) {
            return;
        }
        int64_t m = rand_mask(g, r);
        return check_prob(qp->ProbParity((bitCapInt)m), ref_probparity(&g.r, m), TOL_P, "ProbParity");
    }
    default: {
        if (g.r.n < 2) {
            return;
        }
        auto q = pick(g, r, 2);
        bool anti = r.chance(0.5);
        double pc = ref_prob(&g.r, q[0]);
        if (anti) {
            pc = 1 - pc;
        }
        if (pc < 0.02) {
            return;
        }
        int64_t cm = (int64_t)1 << q[0], tm = (int64_t)1 << q[1];
        double w = ref_probmask(&g.r, cm | tm, (anti ? 0 : cm) | tm) / pc;
        return check_prob(anti ? g.q->ACProb(q[0], q[1]) : g.q->CProb(q[0], q[1]), w, TOL_P / pc, "CProb");
    }
    }
}
struct EX {
    std::vector<bitLenInt>* q;
    std::vector<double>* w0;
    double off, mean;
    int power;
};
static double f_ex(int64_t i, void* p)
{
    EX* e = (EX*)p;
    double s = e->off;
    for (size_t j = 0; j < e->q->size(); ++j) {
        s += (*e->w0)[2 * j + ((i >> (*e->q)[j]) & 1)];
    }
    if (e->power == 2) {
        return (s - e->mean) * (s - e->mean);
    }
    return s;
}
static void op_expect(Reg& g, Rng& r)
{
    auto q = pick(g, r, 1 + r.below(g.r.n));
    std::vector<double> w(2 * q.size());
    EX e{ &q, &w, 0, 0, 1 };
    double scale = 1;
    int k = r.below(6);
    double want, got;
    const char* what = "";
    if (k < 2) { // BitsAll
        int off = r.below(3);
        for (size_t j = 0; j < q.size(); ++j) {
            w[2 * j] = 0;
            w[2 * j + 1] = (double)(1 << j);
            scale += w[2 * j + 1];
        }
        e.off = off;
        want = refexp(g, f_ex, &e);
        scale += off;
        if (k == 0) {
            got = g.q->ExpectationBitsAll(q, (bitCapInt)(uint64_t)off);
            what = "ExpectationBitsAll";
        } else {
            e.mean = want;
            e.power = 2;
            want = refexp(g, f_ex, &e);
            got = g.q->VarianceBitsAll(q, (bitCapInt)(uint64_t)off);
            scale *= scale;
            what = "VarianceBitsAll";
        }
    } else if (k < 4) { // BitsFactorized
        std::vector<bitCapInt> perms(2 * q.size());
        for (size_t j = 0; j < perms.size(); ++j) {
            int v = r.below(9);
            w[j] = v;
            perms[j] = (bitCapInt)(uint64_t)v;
            scale += v;
        }
        want = refexp(g, f_ex, &e);
        if (k == 2) {
            got = g.q->ExpectationBitsFactorized(q, perms, ZERO_BCI);
            what = "ExpectationBitsFactorized";
        } else {
            e.mean = want;
            e.power = 2;
            want = refexp(g, f_ex, &e);
            got = g.q->VarianceBitsFactorized(q, perms, ZERO_BCI);
            scale *= scale;
            what = "VarianceBitsFactorized";
        }
    } else { // FloatsFactorized
        std::vector<real1_f> ws(2 * q.size());
        for (size_t j = 0; j < ws.size(); ++j) {
            ws[j] = (real1_f)(r.below(9) - 4) / 2;
            w[j] = ws[j];
            scale += fabs(w[j]);
        }
        want = refexp(g, f_ex, &e);
        if (k == 4) {
            got = g.q->ExpectationFloatsFactorized(q, ws);
            what = "ExpectationFloatsFactorized";
        } else {
            e.mean = want;
            e.power = 2;
            want = refexp(g, f_ex, &e);
            got = g.q->VarianceFloatsFactorized(q, ws);
            scale *= scale;
            what = "VarianceFloatsFactorized";
        }
    }
    check_prob(got, want, TOL_P * scale, what);
}
static void op_pauliexp(Reg& g, Rng& r) // expectation in a rotated single-qubit basis; state must survive the query
{
    int t = r.below(g.r.n);
    std::vector<bitLenInt> q{ (bitLenInt)t };
    Ref c = { 0, 0 };
    ref_copy(&c, &g.r);
    complex h[4], is[4];
    cliff1(0, h);
    cliff1(5, is);
    int k = r.below(cliff_only() ? 3 : 4);
    double got, want;
    const char* what;
    if (k < 3) {
        static const Pauli ps[3] = { PauliX, PauliY, PauliZ };
        std::vector<Pauli> p{ ps[k] };
        if (k == 1) {
            rmul(g, {}, 0, t, is);
        }
        if (k < 2) {
            rmul(g, {}, 0, t, h);
        }
        want = 1 - 2 * ref_prob(&g.r, t);
        if (r.chance(0.7)) {
            got = g.q->ExpectationPauliAll(q, p);
            what = "ExpectationPauliAll";
        } else {
            got = g.q->VariancePauliAll(q, p);
            want = 1 - want * want;
            what = "VariancePauliAll";
        }
    } else {
        complex m[4], inv[4];
        rand_mtrx(r, m);
        inv[0] = conj(m[0]);
        inv[1] = conj(m[2]);
        inv[2] = conj(m[1]);
        inv[3] = conj(m[3]);
        std::shared_ptr<complex> op(new complex[4], std::default_delete<complex[]>());
        std::copy(m, m + 4, op.get());
        std::vector<std::shared_ptr<complex>> ops{ op };
        rmul(g, {}, 0, t, inv);
        want = 1 - 2 * ref_prob(&g.r, t);
        got = g.q->ExpectationUnitaryAll(q, ops);
        what = "ExpectationUnitaryAll";
    }
    ref_copy(&g.r, &c);
    ref_free(&c);
    check_prob(got, want, 2 * TOL_P, what);
}
static void op_amp(Reg& g, Rng& r)
{
    int64_t full = ((int64_t)1 << g.r.n) - 1;
    switch (C->sub = r.below(3)) {
    case 0: {
        int64_t p = (int64_t)(r.next() & (uint64_t)full);
        if (C->P->donorm) {
            g.q->NormalizeState(); // (single amplitudes are read as they are stored)
        }
        complex a = g.q->GetAmplitude((bitCapInt)p);
        double w = sqrt(ref_probmask(&g.r, full, p));
        return check_prob(sqrt((double)norm(a)), w, 0.01, "GetAmplitude");
    }
    case 1: {
        std::vector<real1> pr((size_t)full + 1);
        g.q->GetProbs(pr.data());
        for (int64_t i = 0; i <= full; ++i) {
            check_prob(pr[i], ref_probmask(&g.r, full, i), TOL_P, "GetProbs");
        }
        return;
    }
    default:
        return check_state(g, "GetQuantumState");
    }
}
static void op_rdm(Reg& g, Rng& r) // reduced-density queries agree with the exact ones on exact layers
{
    int t = r.below(g.r.n);
    int64_t full = ((int64_t)1 << g.r.n) - 1;
    for (int i = 0; i < STACKS[g.stack].n; ++i) {
        if (STACKS[g.stack].e[i] == QINTERFACE_STABILIZER_HYBRID) {
            return; // documented as an approximation (reduced to single qubits, gadgets post-selected)
        }
    }
    switch (C->sub = r.below(3)) {
    case 0:
        return check_prob(g.q->ProbRdm(t), ref_prob(&g.r, t), TOL_P, "ProbRdm");
    case 1: {
        int64_t m = rand_mask(g, r), v = (int64_t)(r.next() & (uint64_t)m);
        return check_prob(
            g.q->ProbMaskRdm(false, (bitCapInt)m, (bitCapInt)v), ref_probmask(&g.r, m, v), TOL_P, "ProbMaskRdm");
    }
    default: {
        int64_t p = (int64_t)(r.next() & (uint64_t)full);
        return check_prob(g.q->ProbAllRdm(false, (bitCapInt)p), ref_probmask(&g.r, full, p), TOL_P, "ProbAllRdm");
    }
    }
}

// ---- measurement ------------------------------------------------------------------------------------------------------
static void op_m(Reg& g, Rng& r)
{
    int t = r.below(g.r.n);
    bool v = g.q->M(t);
    observed(g, (int64_t)1 << t, (int64_t)v << t, "M");
    if (r.chance(0.5)) { // a repeated measurement returns the same outcome
        bool w = g.q->M(t);
        if (w != v) {
            ds_violation("not_repeatable", "M", "M(%d) returned %d, then %d", t, v, w);
        }
    }
}
static void op_mreg(Reg& g, Rng& r)
{
    int st = r.below(g.r.n), len = 1 + r.below(g.r.n - st);
    int64_t v = (int64_t)(bitCapIntOcl)g.q->MReg(st, len);
    int64_t m = (((int64_t)1 << len) - 1) << st;
    if (v >> len) {
        ds_violation("impossible_outcome", "MReg", "MReg(%d,%d) returned %llx", st, len, (unsigned long long)v);
    }
    observed(g, m, v << st, "MReg");
}
static void op_mall(Reg& g, Rng& r)
{
    int64_t v = (int64_t)(bitCapIntOcl)g.q->MAll();
    int64_t full = ((int64_t)1 << g.r.n) - 1;
    if (v & ~full) {
        ds_violation("impossible_outcome", "MAll", "MAll returned %llx", (unsigned long long)v);
    }
    observed(g, full, v, "MAll");
    if (r.chance(0.3)) {
        int64_t w = (int64_t)(bitCapIntOcl)g.q->MAll();
        if (w != v) {
            ds_violation("not_repeatable", "MAll", "MAll returned %llx, then %llx", (unsigned long long)v,
                (unsigned long long)w);
        }
    }
}
static void op_mvec(Reg& g, Rng& r)
{
    auto q = pick(g, r, 1 + r.below(g.r.n));
    int64_t m = cmask_of(q);
    int64_t v = (int64_t)(bitCapIntOcl)g.q->M(q);
    if (v & ~m) {
        ds_violation("impossible_outcome", "M(bits)", "M(bits) returned %llx outside mask %llx", (unsigned long long)v,
            (unsigned long long)m);
    }
    observed(g, m, v, "M(bits)");
}
static void op_forcem(Reg& g, Rng& r)
{
    int k = r.below(4);
    int64_t full = ((int64_t)1 << g.r.n) - 1;
    // force towards an outcome that the reference says is likely enough
    int64_t best = 0;
    double bp = -1;
    for (int64_t i = 0; i <= full; ++i) {
        double p = g.r.a[i].re * g.r.a[i].re + g.r.a[i].im * g.r.a[i].im;
        if (p > bp + 1e-9 && (p > 0.02) && (bp < 0 || r.chance(0.5))) {
            bp = p;
            best = i;
        }
    }
    if (bp < 0) {
        return;
    }
    if (k == 0) {
        int t = r.below(g.r.n);
        bool want = (best >> t) & 1;
        bool v = g.q->ForceM(t, want);
        if (v != want) {
            ds_violation("force_ignored", "ForceM", "ForceM(%d,%d) returned %d", t, want, v);
        }
        observed(g, (int64_t)1 << t, (int64_t)v << t, "ForceM");
    } else if (k == 1) {
        int st = r.below(g.r.n), len = 1 + r.below(g.r.n - st);
        int64_t want = fld(best, st, len);
        int64_t v = (int64_t)(bitCapIntOcl)g.q->ForceMReg(st, len, (bitCapInt)want, true);
        if (v != want) {
            ds_violation("force_ignored", "ForceMReg", "ForceMReg(%d,%d,%llx) returned %llx", st, len,
                (unsigned long long)want, (unsigned long long)v);
        }
        observed(g, (((int64_t)1 << len) - 1) << st, v << st, "ForceMReg");
    } else if (k == 2) {
        auto q = pick(g, r, 1 + r.below(g.r.n));
        int64_t m = cmask_of(q);
        std::vector<bool> vals;
        for (auto b : q) {
            vals.push_back((best >> b) & 1);
        }
        int64_t v = (int64_t)(bitCapIntOcl)g.q->ForceM(q, vals);
        if (v != (best & m)) {
            ds_violation("force_ignored", "ForceM(bits)", "ForceM(bits mask %llx, %llx) returned %llx",
                (unsigned long long)m, (unsigned long long)(best & m), (unsigned long long)v);
        }
        observed(g, m, v, "ForceM(bits)");
    } else {
        QParityPtr qp = std::dynamic_pointer_cast<QParity>(g.q);
        if (!qp) {
            return;
        }
        int64_t m = rand_mask(g, r);
        double podd = ref_probparity(&g.r, m);
        bool want = podd > 0.5;
        bool v = qp->ForceMParity((bitCapInt)m, want, true);
        if (v != want) {
            ds_violation("force_ignored", "ForceMParity", "ForceMParity(%llx,%d) returned %d", (unsigned long long)m,
                want, v);
        }
        ref_project_parity(&g.r, m, v);
    }
}
static void op_mparity(Reg& g, Rng& r)
{
    QParityPtr qp = std::dynamic_pointer_cast<QParity>(g.q);
    if (!qp) {
        return;
    }
    int64_t m = rand_mask(g, r);
    bool v = qp->MParity((bitCapInt)m);
    double p = ref_probparity(&g.r, m);
    if (!v) {
        p = 1 - p;
    }
    ds_log(v);
    if (p < 1e-9) {
        ds_violation("impossible_outcome", "MParity", "MParity(%llx) returned %d with probability %.3g",
            (unsigned long long)m, v, p);
    }
    ref_project_parity(&g.r, m, v);
    if (p < 2e-3) {
        resync(g);
    }
}
static void op_shots(Reg& g, Rng& r) // sampling: every sample possible, counts add up, state untouched
{
    auto q = pick(g, r, 1 + r.below(g.r.n));
    std::vector<bitCapInt> pw;
    for (auto b : q) {
        pw.push_back(pow2(b));
    }
    int shots = 1 + r.below(12);
    int64_t m = cmask_of(q);
    auto one = [&](int64_t s, int cnt) {
        int64_t v = 0;
        if (s >> q.size()) {
            ds_violation("impossible_outcome", "MultiShotMeasureMask", "sample %llx wider than %d bits",
                (unsigned long long)s, (int)q.size());
        }
        for (size_t j = 0; j < q.size(); ++j) {
            if ((s >> j) & 1) {
                v |= (int64_t)1 << q[j];
            }
        }
        double p = ref_probmask(&g.r, m, v);
        ++C->checks;
        if (p < 1e-9) {
            ds_violation("impossible_outcome", "MultiShotMeasureMask",
                "sample %llx (mask %llx value %llx) drawn %d time(s) with probability %.3g", (unsigned long long)s,
                (unsigned long long)m, (unsigned long long)v, cnt, p);
        }
    };
    if (r.chance(0.5)) {
        auto res = g.q->MultiShotMeasureMask(pw, (unsigned)shots);
        int tot = 0;
        for (auto& kv : res) {
            one((int64_t)(bitCapIntOcl)kv.first, kv.second);
            tot += kv.second;
            ds_log((uint64_t)(bitCapIntOcl)kv.first * 31 + kv.second);
        }
        if (tot != shots) {
            ds_violation("shot_count", "MultiShotMeasureMask", "%d shots requested, %d returned", shots, tot);
        }
    } else {
        std::vector<unsigned long long> arr(shots, ~0ull);
        g.q->MultiShotMeasureMask(pw, (unsigned)shots, arr.data());
        for (auto s : arr) {
            one((int64_t)s, 1);
        }
    }
}

// ---- overwrite / structure / life cycle ----------------------------------------------------------------------------------
static void op_setperm(Reg& g, Rng& r)
{
    int64_t p = (int64_t)(r.next() & (((uint64_t)1 << g.r.n) - 1));
    g.q->SetPermutation((bitCapInt)p, ONE_CMPLX);
    ref_setperm(&g.r, p);
    g.poisoned = 0;
}
static void op_setreg(Reg& g, Rng& r)
{
    int st = r.below(g.r.n), len = 1 + r.below(g.r.n - st);
    int64_t lm = ((int64_t)1 << len) - 1;
    int64_t v = (int64_t)(r.next() & (uint64_t)lm);
    // measure first so that the outcome of the implied measurement is known
    int64_t was = (int64_t)(bitCapIntOcl)g.q->MReg(st, len);
    observed(g, lm << st, was << st, "MReg");
    if (len == 1 && r.chance(0.5)) {
        g.q->SetBit(st, v & 1);
    } else {
        g.q->SetReg(st, len, (bitCapInt)v);
    }
    complex x[4];
    cliff1(1, x);
    for (int i = 0; i < len; ++i) {
        if (((was ^ v) >> i) & 1) {
            rmul(g, {}, 0, st + i, x);
        }
    }
    if (!C->P->randphase && len == g.r.n) { // whole-register form resets the phase
        ref_setperm(&g.r, v);
    }
}
static void rand_state(Rng& r, int n, std::vector<complex>& buf)
{
    size_t d = (size_t)1 << n;
    buf.assign(d, C0);
    int k = r.below(3);
    double s = 0;
    std::vector<double> re(d, 0), im(d, 0);
    for (size_t i = 0; i < d; ++i) {
        if (k == 0 && r.chance(0.7)) {
            continue;
        }
        re[i] = r.unit() - 0.5;
        im[i] = k == 1 ? 0 : r.unit() - 0.5;
        s += re[i] * re[i] + im[i] * im[i];
    }
    if (s < 1e-3) {
        re[0] = 1;
        im[0] = 0;
        s = 0;
        for (size_t i = 0; i < d; ++i) {
            s += re[i] * re[i] + im[i] * im[i];
        }
    }
    s = sqrt(s);
    for (size_t i = 0; i < d; ++i) {
        buf[i] = complex((real1)(re[i] / s), (real1)(im[i] / s));
    }
}
static void op_setstate(Reg& g, Rng& r)
{
    std::vector<complex> buf;
    rand_state(r, g.r.n, buf);
    g.q->SetQuantumState(buf.data());
    std::vector<rcx> b(buf.size());
    for (size_t i = 0; i < b.size(); ++i) {
        b[i] = rc(buf[i]);
    }
    ref_setstate(&g.r, b.data());
    g.poisoned = 0;
}
static void op_setamp(Reg& g, Rng& r) // rewrite every amplitude one at a time
{
    if (STACKS[g.stack].n != 1) {
        return; // (one at a time means denormalised states in between, which only an engine can hold)
    }
    std::vector<complex> buf;
    rand_state(r, g.r.n, buf);
    for (size_t i = 0; i < buf.size(); ++i) {
        g.q->SetAmplitude((bitCapInt)(uint64_t)i, buf[i]);
    }
    std::vector<rcx> b(buf.size());
    for (size_t i = 0; i < b.size(); ++i) {
        b[i] = rc(buf[i]);
    }
    ref_setstate(&g.r, b.data());
}
static void op_unnorm(Reg& g, Rng& r) // amplitudes written with a norm that is off: a normalising register corrects it
{
    if (!C->P->donorm || STACKS[g.stack].n != 1 || STACKS[g.stack].e[0] != QINTERFACE_CPU) {
        return op_setamp(g, r);
    }
    std::vector<complex> buf;
    std::vector<rcx> b;
    if (r.chance(0.5)) {
        rand_state(r, g.r.n, buf);
    } else {
        buf.resize((size_t)1 << g.r.n);
        g.q->GetQuantumState(buf.data());
        compare_buf(g, buf, "before rewriting amplitudes");
    }
    b.resize(buf.size());
    const real1 f = (real1)(0.5 + r.unit());
    const int one = r.chance(0.5) ? r.below((int)buf.size()) : -1;
    double s = 0;
    for (size_t i = 0; i < buf.size(); ++i) {
        if (one < 0) {
            buf[i] = buf[i] * f;
        } else if ((int)i == one) {
            buf[i] = buf[i] + complex((real1)0.3f, (real1)0.2f);
        }
        g.q->SetAmplitude((bitCapInt)(uint64_t)i, buf[i]);
        b[i] = rc(buf[i]);
        s += b[i].re * b[i].re + b[i].im * b[i].im;
    }
    for (auto& x : b) {
        x.re /= sqrt(s);
        x.im /= sqrt(s);
    }
    ref_setstate(&g.r, b.data());
}
static int find_free(Ctx& c)
{
    for (int i = 0; i < c.P->nregs && i < MAXREGS; ++i) {
        if (!c.regs[i].live) {
            return i;
        }
    }
    return -1;
}
static Reg* other_reg(Ctx& c, Reg& g, Rng& r)
{
    std::vector<Reg*> v;
    for (int i = 0; i < c.P->nregs && i < MAXREGS; ++i) {
        if (c.P->sc.nfaults && c.regs[i].live && &c.regs[i] != &g) {
            // the next call on a register may be the one to report that an operation queued earlier failed
            try {
                c.regs[i].q->Finish();
            } catch (const std::exception&) {
                c.regs[i].poisoned = 1;
            }
        }
        if (c.regs[i].live && &c.regs[i] != &g && !c.regs[i].poisoned && c.regs[i].stack == g.stack) {
            v.push_back(&c.regs[i]);
        }
    }
    return v.empty() ? nullptr : v[r.below((int)v.size())];
}
static Reg* other_reg(Ctx& c, Reg& g, Rng& r);
static void op_page(Reg& g, Rng& r) // raw access to the amplitudes of an engine
{
    QEnginePtr e = std::dynamic_pointer_cast<QEngine>(g.q);
    if (!e || g.r.n < 1) {
        return;
    }
    const size_t d = (size_t)1 << g.r.n;
    switch (C->sub = r.below(6)) {
    case 0:
    case 1: { // read in pieces
        std::vector<complex> buf(d);
        size_t at = 0;
        bool norm = C->P->donorm;
        if (norm) {
            g.q->NormalizeState();
        }
        while (at < d) {
            size_t k = 1 + (size_t)r.below((int)(d - at));
            e->GetAmplitudePage(buf.data() + at, (bitCapIntOcl)at, (bitCapIntOcl)k);
            at += k;
        }
        return compare_buf(g, buf, "GetAmplitudePage");
    }
    case 2: { // write in pieces
        std::vector<complex> buf;
        rand_state(r, g.r.n, buf);
        size_t at = 0;
        while (at < d) {
            size_t k = 1 + (size_t)r.below((int)(d - at));
            e->SetAmplitudePage(buf.data() + at, (bitCapIntOcl)at, (bitCapIntOcl)k);
            at += k;
        }
        std::vector<rcx> b(d);
        for (size_t i = 0; i < d; ++i) {
            b[i] = rc(buf[i]);
        }
        return ref_setstate(&g.r, b.data());
    }
    case 3: { // copy another register's amplitudes
        Reg* o = other_reg(*C, g, r);
        if (!o || o->r.n != g.r.n) {
            return;
        }
        QEnginePtr s = std::dynamic_pointer_cast<QEngine>(o->q);
        if (r.chance(0.5)) {
            e->CopyStateVec(s);
        } else {
            size_t k = d >> 1;
            e->SetAmplitudePage(s, 0, 0, (bitCapIntOcl)k);
            e->SetAmplitudePage(s, (bitCapIntOcl)k, (bitCapIntOcl)k, (bitCapIntOcl)(d - k));
        }
        ref_free(&g.r);
        return ref_copy(&g.r, &o->r);
    }
    case 4: { // exchange the upper half of one with the lower half of the other, and back
        Reg* o = other_reg(*C, g, r);
        if (!o || o->r.n != g.r.n) {
            return;
        }
        QEnginePtr s = std::dynamic_pointer_cast<QEngine>(o->q);
        C->also = o;
        e->ShuffleBuffers(s);
        std::vector<complex> x(d), y(d), z(d);
        e->GetAmplitudePage(x.data(), 0, (bitCapIntOcl)d);
        s->GetAmplitudePage(y.data(), 0, (bitCapIntOcl)d);
        // this: own lower half, other's lower half; other: own (this) upper half, its upper half
        for (size_t i = 0; i < d / 2; ++i) {
            z[i] = x[i];
            z[i + d / 2] = y[i];
        }
        e->ShuffleBuffers(s);
        return C->P->donorm ? check_state(g, "ShuffleBuffers back") : compare_buf(g, z, "ShuffleBuffers");
    }
    default:
        if (e->IsZeroAmplitude()) {
            ds_violation("wrong_value", "IsZeroAmplitude", "a register with a state is reported as empty");
        }
        check_prob((double)e->GetMaxQPower(), (double)d, 0.5, "GetMaxQPower");
    }
}
static void drop(Reg& x)
{
    x.q.reset();
    ref_free(&x.r);
    x.live = 0;
    x.poisoned = 0;
}
static void op_clone(Reg& g, Rng& r)
{
    Ctx& c = *C;
    int i = find_free(c);
    Reg* d;
    if (i >= 0) {
        d = &c.regs[i];
    } else {
        d = other_reg(c, g, r);
        if (!d) {
            return;
        }
        drop(*d);
    }
    d->q = g.q->Clone();
    ref_copy(&d->r, &g.r);
    d->live = 1;
    d->poisoned = 0;
    d->stack = g.stack;
    d->tol = g.tol;
    d->nerr = g.nerr;
}
static void op_destroy(Reg& g, Rng& r)
{
    if (!other_reg(*C, g, r)) {
        return;
    }
    drop(g);
}
static void op_create(Reg&, Rng& r)
{
    Ctx& c = *C;
    int i = find_free(c);
    if (i < 0) {
        return;
    }
    Reg& d = c.regs[i];
    int n = 1 + r.below(c.P->nq);
    int64_t p = (int64_t)(r.next() & (((uint64_t)1 << n) - 1));
    d.q = make_q(c.P, c.P->stack, n, p, c.rng);
    ref_free(&d.r);
    ref_init(&d.r, n, p);
    d.live = 1;
    d.poisoned = 0;
    d.stack = c.P->stack;
}
static int maxq() { return C->P->nq + 3 > 9 ? 9 : C->P->nq + 3; }
static void op_compose(Reg& g, Rng& r)
{
    Reg* o = other_reg(*C, g, r);
    if (!o || o->r.n + g.r.n > maxq()) {
        return;
    }
    const int where0 = g.r.n;
    g.nerr += o->nerr;
    int start;
    switch (C->sub = r.below(10)) {
    case 0:
    case 1:
    case 2:
    case 3:
        start = g.q->Compose(o->q);
        if (start != where0) {
            ds_violation("wrong_value", "Compose", "Compose returned %d, expected %d", start, where0);
        }
        break;
    case 4: { // several at once
        std::vector<QInterfacePtr> v{ o->q };
        std::vector<Reg*> w{ o };
        int tot = g.r.n + o->r.n;
        for (int i = 0; i < C->P->nregs && i < MAXREGS; ++i) {
            Reg* x = &C->regs[i];
            if (x->live && x != &g && x != o && !x->poisoned && x->stack == g.stack && tot + x->r.n <= maxq()) {
                tot += x->r.n;
                v.push_back(x->q);
                w.push_back(x);
            }
        }
        if (!g.r.n) {
            return;
        }
        for (auto x : w) {
            if (!x->r.n) {
                return;
            }
        }
        std::map<QInterfacePtr, bitLenInt> m = g.q->Compose(v);
        for (auto x : w) {
            if ((int)m[x->q] != g.r.n) {
                ds_violation("wrong_value", "Compose", "Compose of several registers returned %d, expected %d",
                    (int)m[x->q], g.r.n);
            }
            ref_compose(&g.r, &x->r, g.r.n);
        }
        return;
    }
    case 5: // the other register is consumed
        start = g.q->ComposeNoClone(o->q);
        if (start != where0) {
            ds_violation("wrong_value", "Compose", "ComposeNoClone returned %d, expected %d", start, where0);
        }
        ref_compose(&g.r, &o->r, start);
        drop(*o);
        return;
    default: {
        start = r.below(g.r.n + 1);
        int s2 = g.q->Compose(o->q, (bitLenInt)start);
        if (s2 != start && s2 != where0) {
            ds_violation("wrong_value", "Compose", "Compose at %d returned %d", start, s2);
        }
    }
    }
    ref_compose(&g.r, &o->r, start);
}
static int sep_range(Reg& g, Rng& r, int* st, int* len)
{
    // look for a separable range, starting from a random one
    int n = g.r.n;
    if (n < 2) {
        return 0;
    }
    int tries = 12;
    while (tries--) {
        *len = 1 + r.below(n - 1);
        *st = r.below(n - *len + 1);
        if (ref_separability(&g.r, *st, *len) < 1e-9) {
            return 1;
        }
    }
    return 0;
}
static void op_decompose(Reg& g, Rng& r)
{
    int st = 0, len = g.r.n;
    const int whole = r.chance(0.08), attempt = r.chance(0.25);
    int may = 1; // the range is separable
    if (!whole && !sep_range(g, r, &st, &len)) {
        if (!attempt || g.r.n < 2) {
            return;
        }
        len = 1 + r.below(g.r.n - 1);
        st = r.below(g.r.n - len + 1);
        const double s = ref_separability(&g.r, st, len);
        if (s < 0.05) {
            return; // (too close to call)
        }
        may = 0;
    }
    ds_probe(2);
    Ctx& c = *C;
    int i = find_free(c);
    if (i < 0) {
        Reg* o = other_reg(c, g, r);
        if (!o) {
            return;
        }
        drop(*o);
        i = find_free(c);
        if (i < 0) {
            return;
        }
    }
    Reg& d = c.regs[i];
    if (attempt && !whole) {
        QInterfacePtr q = make_q(c.P, g.stack, len, 0, c.rng);
        C->sub = 8 + may;
        const bool ok = g.q->TryDecompose((bitLenInt)st, q, (real1_f)1e-4);
        if (ok && !may) {
            ds_violation("wrong_value", "TryDecompose", "TryDecompose(%d,%d) split an entangled range", st, len);
        }
        if (!ok) {
            // a range may be found inseparable for numerical reasons, but then nothing may have changed
            return;
        }
        d.q = q;
    } else if (r.chance(0.5) && !whole) {
        d.q = g.q->Decompose((bitLenInt)st, (bitLenInt)len);
    } else {
        d.q = make_q(c.P, g.stack, len, 0, c.rng);
        g.q->Decompose((bitLenInt)st, d.q);
    }
    d.live = 1;
    d.poisoned = 0;
    d.stack = g.stack;
    ref_decompose(&g.r, st, len, &d.r);
    // only the product is defined up to a relative phase between the two factors: compare up to global phase
}
static void op_dispose(Reg& g, Rng& r)
{
    int st, len;
    if (r.chance(0.5)) {
        // measured qubits can always be disposed
        int n = g.r.n;
        if (r.chance(0.1)) {
            len = n;
            st = 0;
        } else {
            if (n < 2) {
                return;
            }
            len = 1 + r.below(n - 1);
            st = r.below(n - len + 1);
        }
        int64_t v = (int64_t)(bitCapIntOcl)g.q->MReg(st, len);
        observed(g, (((int64_t)1 << len) - 1) << st, v << st, "MReg");
        if (r.chance(0.5)) {
            g.q->Dispose((bitLenInt)st, (bitLenInt)len, (bitCapInt)v);
        } else {
            g.q->Dispose((bitLenInt)st, (bitLenInt)len);
        }
    } else {
        if (!sep_range(g, r, &st, &len)) {
            return;
        }
        ds_probe(3);
        g.q->Dispose((bitLenInt)st, (bitLenInt)len);
    }
    ref_decompose(&g.r, st, len, nullptr);
}
static void op_allocate(Reg& g, Rng& r)
{
    int len = 1 + r.below(2);
    if (g.r.n + len > maxq()) {
        return;
    }
    int st = g.r.n;
    if (r.chance(0.5)) {
        g.q->Allocate((bitLenInt)len);
    } else {
        st = r.below(g.r.n + 1);
        g.q->Allocate((bitLenInt)st, (bitLenInt)len);
    }
    ref_allocate(&g.r, st, len);
}
static void op_trysep(Reg& g, Rng& r) // separability hints must never change the state
{
    switch (C->sub = r.below(3)) {
    case 0:
        g.q->TrySeparate((bitLenInt)r.below(g.r.n));
        return;
    case 1: {
        if (g.r.n < 2) {
            return;
        }
        auto q = pick(g, r, 2);
        g.q->TrySeparate(q[0], q[1]);
        return;
    }
    default: {
        auto q = pick(g, r, 1 + r.below(g.r.n > 3 ? 3 : g.r.n));
        g.q->TrySeparate(q, (real1_f)1e-6);
    }
    }
}
static void op_compare(Reg& g, Rng& r)
{
    QInterfacePtr c = g.q->Clone();
    double d = g.q->SumSqrDiff(c);
    check_prob(d, 0, 0.01, "SumSqrDiff(clone)");
    if (r.chance(0.5)) {
        // a definitely different state must be reported as different
        int t = r.below(g.r.n);
        complex x[4];
        cliff1(1, x);
        Ref rr = { 0, 0 };
        ref_copy(&rr, &g.r);
        int cs[1];
        rcx mm[4] = { rc(x[0]), rc(x[1]), rc(x[2]), rc(x[3]) };
        ref_mtrx(&rr, cs, 0, 0, t, mm);
        double f = ref_overlap2_rr(&rr, &g.r);
        ref_free(&rr);
        c->X(t);
        double d2 = g.q->SumSqrDiff(c);
        check_prob(d2, 1 - f, 0.02, "SumSqrDiff");
    }
}
static void op_misc(Reg& g, Rng& r)
{
    switch (C->sub = r.below(6)) {
    case 0:
        g.q->Finish();
        return;
    case 1:
        (void)g.q->isFinished();
        return;
    case 2:
        g.q->UpdateRunningNorm();
        return;
    case 3:
        g.q->NormalizeState();
        return;
    case 4:
        g.q->SetConcurrency(1 + r.below(8));
        return;
    default:
        (void)g.q->GetUnitaryFidelity();
        if ((int)g.q->GetQubitCount() != g.r.n) {
            ds_violation("wrong_size", "GetQubitCount", "%d vs %d", (int)g.q->GetQubitCount(), g.r.n);
        }
    }
}

struct OpDef {
    const char* name;
    void (*fn)(Reg&, Rng&);
    int flags;
    double w;
};
static const OpDef OPS[] = {
    { "g1", op_g1, OF_GATE | OF_CLIFF, 6 },
    { "g1n", op_g1n, OF_GATE, 6 },
    { "mtrx", op_mtrx, OF_GATE | OF_CLIFF, 4 },
    { "cg", op_cg, OF_GATE | OF_CLIFF, 8 },
    { "cgn", op_cgn, OF_GATE, 6 },
    { "mc", op_mc, OF_GATE | OF_CLIFF, 6 },
    { "swap", op_swap, OF_GATE | OF_CLIFF, 3 },
    { "swapn", op_swapn, OF_GATE, 2 },
    { "mask", op_mask, OF_GATE | OF_CLIFF, 3 },
    { "uc", op_uc, OF_GATE, 2 },
    { "reg", op_reg, OF_GATE | OF_CLIFF, 2 },
    { "qft", op_qft, OF_GATE, 1 },
    { "tev", op_tev, OF_GATE, 1 },
    { "inc", op_inc, OF_ALU, 3 },
    { "incs", op_incs, OF_ALU, 1 },
    { "incc", op_incc, OF_ALU, 2 },
    { "incsc", op_incsc, OF_ALU, 1 },
    { "mul", op_mul, OF_ALU, 2 },
    { "modn", op_modn, OF_ALU, 2 },
    { "table", op_table, OF_ALU, 2 },
    { "fulladd", op_fulladd, OF_ALU, 1 },
    { "adcbits", op_adcbits, OF_ALU, 1 },
    { "less", op_less, OF_ALU, 1 },
    { "logic", op_logic, OF_ALU, 1 },
    { "prob", op_prob, OF_QUERY | OF_CLIFF, 5 },
    { "expect", op_expect, OF_QUERY | OF_CLIFF, 2 },
    { "pauliexp", op_pauliexp, OF_QUERY | OF_CLIFF, 1 },
    { "amp", op_amp, OF_QUERY | OF_CLIFF, 2 },
    { "rdm", op_rdm, OF_QUERY | OF_CLIFF, 1 },
    { "m", op_m, OF_MEAS | OF_CLIFF, 2 },
    { "mreg", op_mreg, OF_MEAS | OF_CLIFF, 1 },
    { "mall", op_mall, OF_MEAS | OF_CLIFF, 0.5 },
    { "mvec", op_mvec, OF_MEAS | OF_CLIFF, 1 },
    { "forcem", op_forcem, OF_MEAS | OF_CLIFF | OF_FORCE, 1 },
    { "mparity", op_mparity, OF_MEAS, 1 },
    { "shots", op_shots, OF_MEAS | OF_CLIFF, 1 },
    { "setperm", op_setperm, OF_OVER | OF_CLIFF, 1 },
    { "setreg", op_setreg, OF_OVER | OF_CLIFF, 1 },
    { "setstate", op_setstate, OF_OVER, 1 },
    { "setamp", op_setamp, OF_OVER, 0.5 },
    { "unnorm", op_unnorm, OF_OVER, 1.5 },
    { "page", op_page, OF_QUERY, 1.5 },
    { "clone", op_clone, OF_LIFE | OF_CLIFF, 2 },
    { "destroy", op_destroy, OF_LIFE | OF_CLIFF, 1 },
    { "create", op_create, OF_LIFE | OF_CLIFF, 1 },
    { "compose", op_compose, OF_STRUCT | OF_CLIFF, 1.5 },
    { "decompose", op_decompose, OF_STRUCT | OF_CLIFF, 1 },
    { "dispose", op_dispose, OF_STRUCT | OF_CLIFF, 1 },
    { "allocate", op_allocate, OF_STRUCT | OF_CLIFF, 0.7 },
    { "trysep", op_trysep, OF_MISC | OF_CLIFF, 1 },
    { "compare", op_compare, OF_QUERY | OF_CLIFF, 1 },
    { "misc", op_misc, OF_MISC | OF_CLIFF, 2 },
};
static const int NOPS = sizeof(OPS) / sizeof(OPS[0]);
int op_count() { return NOPS; }
int op_by_name(const char* s)
{
    for (int i = 0; i < NOPS; ++i) {
        if (!strcmp(OPS[i].name, s)) {
            return i;
        }
    }
    return -1;
}
const char* op_name(int c) { return c >= 0 && c < NOPS ? OPS[c].name : "?"; }
int op_flags(int c) { return OPS[c].flags; }
double op_weight(int c) { return OPS[c].w; }

void exec_op(Ctx& c, const Op& op)
{
    int ri = op.reg % c.P->nregs;
    for (int k = 0; k < c.P->nregs && !c.regs[ri].live; ++k) {
        ri = (ri + 1) % c.P->nregs;
    }
    Reg& g = c.regs[ri];
    if (!g.live) {
        return;
    }
    const int fl = OPS[op.code].flags;
    c.cur = OPS[op.code].name;
    if (g.poisoned && strcmp(c.cur, "setperm") && strcmp(c.cur, "setstate") && strcmp(c.cur, "destroy")
        && strcmp(c.cur, "create")) {
        return;
    }
    if (!g.r.n && strcmp(OPS[op.code].name, "compose") && strcmp(OPS[op.code].name, "allocate")
        && strcmp(OPS[op.code].name, "clone") && strcmp(OPS[op.code].name, "destroy")
        && strcmp(OPS[op.code].name, "create")) {
        return; // (a register whose qubits were all taken away)
    }
    c.sub = 0;
    c.also = nullptr;
    c.rng0 = *c.rng;
    c.rd0 = ds_rd_extreme();
    Rng r(op.seed);
    const uint64_t fired = ds_fault_fired_total();
    try {
        ds_sut(1);
        OPS[op.code].fn(g, r);
        ds_sut(0);
    } catch (const std::exception& e) {
        ds_sut(0);
        if (!c.P->sc.nfaults) {
            ds_violation("exception", c.cur, "op %s (#%d) threw %s", c.cur, c.cur_op, e.what());
        }
        (void)fired;
        ds_probe(4);
        // whatever the failed operation was writing is unspecified now; everything else must be untouched
        // (a clone may be the first to report that an earlier, queued operation failed)
        if (strcmp(c.cur, "create")) {
            g.poisoned = 1;
        }
        if (c.also) {
            c.also->poisoned = 1;
        }
    }
}

#include "capi.inc"
