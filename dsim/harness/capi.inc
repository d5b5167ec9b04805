// Operations on the C interface (included at the end of ops.cpp). Every client holds views: a view is a set of qubit ids of one
// simulator with a reference state of its own. A private view covers all qubits of its simulator; in a shared simulator each
// client has a view of its own qubits and never entangles them with those of others, so that whatever the order in which the
// calls of several clients take effect, what a client sees through its view is determined by its own calls.
#define init capi_unused_init // (the header defines it, and so does the library)
#include "pinvoke_api.hpp"
#undef init
#include <functional>

struct View {
    int live, priv, sticky;
    uintq sid;
    std::vector<uintq> ids;
    Reg g;
    View()
        : live(0)
        , priv(1)
        , sticky(0)
        , sid(0)
    {
    }
};
static const int MAXVIEWS = 6;
struct CClient {
    Ctx c;
    View v[MAXVIEWS];
    uintq nextid;
};
static CClient CC[MAXCLIENTS];
static CClient* cc() { return (CClient*)C; } // (the context is the first member)
static std::vector<uintq> DEAD; // ids of destroyed simulators, nothing is created afterwards (single client runs)

static int64_t fn_perm(int64_t i, void* p) { return (*(std::function<int64_t(int64_t)>*)p)(i); }
static void rperm(Reg& g, std::function<int64_t(int64_t)> f) { ref_perm(&g.r, fn_perm, &f); }
static std::vector<uintq> idv(View& v, const std::vector<bitLenInt>& q)
{
    std::vector<uintq> o;
    for (auto b : q) {
        o.push_back(v.ids[b]);
    }
    o.push_back(~0ull); // (never a null pointer)
    return o;
}
static void c_init(View& v, int n, int type)
{
    const StackDef& s = STACKS[type];
    bool sd = false, sh = false, bdt = false;
    for (int i = 0; i < s.n; ++i) {
        sd |= s.e[i] == QINTERFACE_QUNIT;
        sh |= s.e[i] == QINTERFACE_STABILIZER_HYBRID;
        bdt |= s.e[i] == QINTERFACE_BDT;
    }
    v.sid = init_count_type((uintq)n, false, false, sd, sh, bdt, false, false, false, false, false);
    v.live = 1;
    v.priv = 1;
    v.sticky = 0;
    v.ids.clear();
    for (int i = 0; i < n; ++i) {
        v.ids.push_back((uintq)i);
    }
    v.g.q = nullptr;
    v.g.stack = type;
    v.g.poisoned = 0;
    v.g.nerr = 0;
    v.g.live = 1;
    v.g.tol = 2e-4;
    ref_free(&v.g.r);
    ref_init(&v.g.r, n, 0);
}
static View* c_free()
{
    for (int i = 0; i < MAXVIEWS; ++i) {
        if (!cc()->v[i].live) {
            return &cc()->v[i];
        }
    }
    return nullptr;
}
static void c_drop(View& v)
{
    destroy(v.sid);
    v.live = 0;
    ref_free(&v.g.r);
}
static void c_observed(View& v, int64_t mask, int64_t val, const char* what)
{
    const double p = ref_probmask(&v.g.r, mask, val);
    ++C->checks;
    ds_log((uint64_t)val);
    if (p < 1e-9) {
        if (ds_rd_extreme() != C->rd0) {
            ds_probe(5);
            v.g.poisoned = 1;
            return;
        }
        ds_violation("impossible_outcome", what, "%s (#%d) returned outcome %llx on mask %llx whose probability is %.3g", what,
            C->cur_op, (unsigned long long)val, (unsigned long long)mask, p);
    }
    ref_project(&v.g.r, mask, val);
    v.g.nerr = (v.g.nerr + 3e-7) / p;
    if (p < 2e-3 || v.g.nerr > 2e-4) {
        ds_probe(1);
        v.g.poisoned = 1;
    }
}
static bool c_m(View& v, int i)
{
    const uintq o = M(v.sid, v.ids[i]);
    if (o > 1) {
        ds_violation("wrong_value", "M", "M() returned %llu", o);
    }
    c_observed(v, (int64_t)1 << i, (int64_t)o << i, "M");
    return o != 0;
}
static void c_clear(View& v, int i) // measure and reset a qubit
{
    if (c_m(v, i)) {
        X(v.sid, v.ids[i]);
        complex m[4];
        cliff1(1, m);
        rmul(v.g, {}, 0, i, m);
    }
}
// qubit `i` of the reference state has rank rk[i] among the ids
static std::vector<int> ranks(View& v)
{
    std::vector<int> rk(v.ids.size());
    for (size_t i = 0; i < rk.size(); ++i) {
        rk[i] = 0;
        for (size_t j = 0; j < rk.size(); ++j) {
            rk[i] += v.ids[j] < v.ids[i];
        }
    }
    return rk;
}
static int64_t to_rank(const std::vector<int>& rk, int64_t x)
{
    int64_t y = 0;
    for (size_t i = 0; i < rk.size(); ++i) {
        y |= ((x >> i) & 1) << rk[i];
    }
    return y;
}
static int64_t from_rank(const std::vector<int>& rk, int64_t y)
{
    int64_t x = 0;
    for (size_t i = 0; i < rk.size(); ++i) {
        x |= ((y >> rk[i]) & 1) << i;
    }
    return x;
}
static double c_joint_ref(View& v, const std::vector<bitLenInt>& q, const std::vector<int>& b) // probability of odd parity
{
    Ref save = { 0, 0 };
    ref_copy(&save, &v.g.r);
    complex h[4], is[4];
    cliff1(0, h);
    cliff1(5, is);
    int64_t mask = 0;
    for (size_t i = 0; i < q.size(); ++i) {
        if (b[i] == PauliY) {
            rmul(v.g, {}, 0, q[i], is);
        }
        if (b[i] == PauliX || b[i] == PauliY) {
            rmul(v.g, {}, 0, q[i], h);
        }
        if (b[i] != PauliI) {
            mask |= (int64_t)1 << q[i];
        }
    }
    const double p = mask ? ref_probparity(&v.g.r, mask) : 0;
    ref_copy(&v.g.r, &save);
    ref_free(&save);
    return p;
}
static void c_check_state(View& v, const char* where)
{
    if (v.g.poisoned || !v.live || !v.g.r.n) {
        return;
    }
    if (v.priv) {
        if ((int)num_qubits(v.sid) != v.g.r.n) {
            ds_violation("wrong_size", where, "num_qubits() is %d, reference %d (op %s)", (int)num_qubits(v.sid), v.g.r.n, CUR);
        }
        std::vector<complex> ket((size_t)1 << v.g.r.n), buf(ket.size());
        OutKet(v.sid, (float*)ket.data());
        const std::vector<int> rk = ranks(v);
        for (size_t i = 0; i < buf.size(); ++i) {
            buf[i] = ket[(size_t)to_rank(rk, (int64_t)i)];
        }
        return compare_buf(v.g, buf, where);
    }
    // the qubits of others are in the way of reading the state: sample the expectation values that determine it
    Rng r(v.g.r.n * 1000003ull + C->cur_op * 7919ull + C->P->seed);
    for (int t = 0; t < 6; ++t) {
        std::vector<bitLenInt> q = pick(v.g, r, 1 + r.below(v.g.r.n));
        std::vector<int> b;
        static const int PB[] = { PauliX, PauliY, PauliZ };
        for (size_t i = 0; i < q.size(); ++i) {
            b.push_back(PB[r.below(3)]);
        }
        auto ids = idv(v, q);
        check_prob(JointEnsembleProbability(v.sid, q.size(), b.data(), ids.data()), c_joint_ref(v, q, b), TOL_P, where);
    }
}

typedef void (*c_fn)(View&, Rng&);
// ---- gates --------------------------------------------------------------------------------------------------------------
static void c_g1(View& v, Rng& r)
{
    const int t = r.below(v.g.r.n);
    const uintq q = v.ids[t], s = v.sid;
    complex m[4] = { C1, C0, C0, C1 };
    const int k = C->sub = r.below(cliff_only() ? 10 : 14);
    if (k < 10) {
        cliff1(k, m);
    }
    switch (k) {
    case 0:
        H(s, q);
        break;
    case 1:
        X(s, q);
        break;
    case 2:
        Y(s, q);
        break;
    case 3:
        Z(s, q);
        break;
    case 4:
        S(s, q);
        break;
    case 5:
        AdjS(s, q);
        break;
    case 6:
        SX(s, q);
        break;
    case 7:
        AdjSX(s, q);
        break;
    case 8:
        SY(s, q);
        break;
    case 9:
        AdjSY(s, q);
        break;
    case 10:
        T(s, q);
        m[3] = cis(M_PI / 4);
        break;
    case 11:
        AdjT(s, q);
        m[3] = cis(-M_PI / 4);
        break;
    case 12: {
        const real1_f a = angle(r), b = angle(r), c = angle(r);
        U(s, q, a, b, c);
        m_u(m, a, b, c);
        break;
    }
    default: {
        rand_mtrx(r, m);
        double d[8];
        for (int i = 0; i < 4; ++i) {
            d[2 * i] = real(m[i]);
            d[2 * i + 1] = imag(m[i]);
        }
        Mtrx(s, d, q);
    }
    }
    rmul(v.g, {}, 0, t, m);
}
static void c_mc(View& v, Rng& r)
{
    const int n = v.g.r.n;
    if (n < 2) {
        return;
    }
    int nc = 1 + r.below(n - 1);
    if (cliff_only()) {
        nc = 1;
    }
    nc = nc > 3 ? 3 : nc;
    auto q = pick(v.g, r, nc + 1);
    const int t = q.back();
    q.pop_back();
    auto ci = idv(v, q);
    uintq* c = ci.data();
    const uintq s = v.sid, tq = v.ids[t];
    complex m[4] = { C1, C0, C0, C1 };
    const bool anti = r.chance(0.4);
    int64_t perm = anti ? 0 : ((int64_t)1 << nc) - 1;
    const int k = C->sub = r.below(cliff_only() ? 3 : 12);
    double d[8];
    auto dm = [&]() {
        for (int i = 0; i < 4; ++i) {
            d[2 * i] = real(m[i]);
            d[2 * i + 1] = imag(m[i]);
        }
    };
    switch (k) {
    case 0:
        anti ? MACX(s, nc, c, tq) : MCX(s, nc, c, tq);
        cliff1(1, m);
        break;
    case 1:
        anti ? MACY(s, nc, c, tq) : MCY(s, nc, c, tq);
        cliff1(2, m);
        break;
    case 2:
        anti ? MACZ(s, nc, c, tq) : MCZ(s, nc, c, tq);
        cliff1(3, m);
        break;
    case 3:
        anti ? MACH(s, nc, c, tq) : MCH(s, nc, c, tq);
        cliff1(0, m);
        break;
    case 4:
        anti ? MACS(s, nc, c, tq) : MCS(s, nc, c, tq);
        cliff1(4, m);
        break;
    case 5:
        anti ? MACAdjS(s, nc, c, tq) : MCAdjS(s, nc, c, tq);
        cliff1(5, m);
        break;
    case 6:
        anti ? MACT(s, nc, c, tq) : MCT(s, nc, c, tq);
        m[3] = cis(M_PI / 4);
        break;
    case 7:
        anti ? MACAdjT(s, nc, c, tq) : MCAdjT(s, nc, c, tq);
        m[3] = cis(-M_PI / 4);
        break;
    case 8: {
        const real1_f x = angle(r), y = angle(r), z = angle(r);
        anti ? MACU(s, nc, c, tq, x, y, z) : MCU(s, nc, c, tq, x, y, z);
        m_u(m, x, y, z);
        break;
    }
    case 9:
        rand_mtrx(r, m);
        dm();
        anti ? MACMtrx(s, nc, c, d, tq) : MCMtrx(s, nc, c, d, tq);
        break;
    case 10:
        rand_mtrx(r, m);
        dm();
        perm = (int64_t)(r.next() & (((uint64_t)1 << nc) - 1));
        UCMtrx(s, nc, c, d, tq, (uintq)perm);
        break;
    default: {
        std::vector<complex> ms((size_t)4 << nc);
        std::vector<double> dd(2 * ms.size());
        for (int p = 0; p < (1 << nc); ++p) {
            rand_mtrx(r, &ms[4 * p]);
        }
        for (size_t i = 0; i < ms.size(); ++i) {
            dd[2 * i] = real(ms[i]);
            dd[2 * i + 1] = imag(ms[i]);
        }
        Multiplex1Mtrx(s, nc, c, tq, dd.data());
        for (int p = 0; p < (1 << nc); ++p) {
            rmul(v.g, q, p, t, &ms[4 * p]);
        }
        return;
    }
    }
    rmul(v.g, q, perm, t, m);
}
static void c_mask(View& v, Rng& r)
{
    auto q = pick(v.g, r, 1 + r.below(v.g.r.n));
    auto ids = idv(v, q);
    complex m[4];
    const int k = C->sub = r.below(cliff_only() ? 3 : 5);
    if (k == 0) {
        MX(v.sid, q.size(), ids.data());
    } else if (k == 1) {
        MY(v.sid, q.size(), ids.data());
    } else if (k == 2) {
        MZ(v.sid, q.size(), ids.data());
    } else if (k == 3) {
        const int n = 1 + r.below(4);
        PhaseRootN(v.sid, (uintq)n, q.size(), ids.data());
        m[0] = C1;
        m[1] = m[2] = C0;
        m[3] = cis(-M_PI / (1 << (n - 1)));
    } else {
        const real1_f a = angle(r);
        PhaseParity(v.sid, a, q.size(), ids.data());
        ParSel s{ cmask_of(q), 0, 1 };
        ref_phase(&v.g.r, par_sel, &s, rcx{ cos(a / 2), sin(a / 2) });
        s.odd = 0;
        return ref_phase(&v.g.r, par_sel, &s, rcx{ cos(a / 2), -sin(a / 2) });
    }
    if (k < 3) {
        cliff1(1 + k, m);
    }
    for (auto b : q) {
        rmul(v.g, {}, 0, b, m);
    }
}
static void rot_mtrx(int b, double phi, complex* m)
{
    const real1 c = (real1)cos(phi / 2), s = (real1)sin(phi / 2);
    m[0] = m[3] = complex(c, 0);
    m[1] = m[2] = C0;
    if (b == PauliX) {
        m[1] = m[2] = complex(0, -s);
    } else if (b == PauliY) {
        m[1] = complex(-s, 0);
        m[2] = complex(s, 0);
    } else {
        m[0] = complex(c, -s);
        m[3] = complex(c, s);
    }
}
static void c_rot(View& v, Rng& r) // rotations about Pauli axes
{
    static const int PB[] = { PauliX, PauliY, PauliZ };
    const int n = v.g.r.n;
    const int b = PB[r.below(3)];
    const real1_f phi = angle(r);
    complex m[4];
    rot_mtrx(b, phi, m);
    auto q = pick(v.g, r, 1 + r.below(n > 3 ? 3 : n));
    const int t = q.back();
    q.pop_back();
    auto ids = idv(v, q);
    C->sub = (int)q.size();
    if (q.empty()) {
        R(v.sid, (uintq)b, phi, v.ids[t]);
    } else {
        MCR(v.sid, (uintq)b, phi, q.size(), ids.data(), v.ids[t]);
    }
    rmul(v.g, q, ((int64_t)1 << q.size()) - 1, t, m);
}
static void c_exp(View& v, Rng& r) // exponential of a tensor product of Pauli operators
{
    static const int PB[] = { PauliI, PauliX, PauliY, PauliZ };
    const int n = v.g.r.n;
    auto q = pick(v.g, r, 1 + r.below(n));
    std::vector<bitLenInt> c;
    if (n > (int)q.size() && r.chance(0.5)) {
        std::vector<bitLenInt> rest;
        for (int i = 0; i < n; ++i) {
            if (!(cmask_of(q) >> i & 1)) {
                rest.push_back((bitLenInt)i);
            }
        }
        rest.resize(1 + r.below((int)rest.size() > 2 ? 2 : (int)rest.size()));
        c = rest;
    }
    std::vector<int> b;
    int some = 0;
    for (size_t i = 0; i < q.size(); ++i) {
        b.push_back(PB[r.below(4)]);
        some += b.back() != PauliI;
    }
    if (!some) {
        b[0] = PauliZ;
    }
    const real1_f phi = angle(r);
    auto qi = idv(v, q), ci = idv(v, c);
    C->sub = (int)(c.size() * 10 + q.size());
    if (c.empty()) {
        Exp(v.sid, q.size(), b.data(), phi, qi.data());
    } else {
        MCExp(v.sid, q.size(), b.data(), phi, c.size(), ci.data(), qi.data());
    }
    // exp(i phi P) = cos(phi) + i sin(phi) P
    Ref t = { 0, 0 };
    ref_copy(&t, &v.g.r);
    for (size_t i = 0; i < q.size(); ++i) {
        complex m[4];
        if (b[i] != PauliI) {
            cliff1(b[i] == PauliX ? 1 : b[i] == PauliY ? 2 : 3, m);
            rmul(v.g, {}, 0, q[i], m);
        }
    }
    const double co = cos(phi), si = sin(phi);
    const int64_t cm = cmask_of(c);
    for (int64_t i = 0; i < ((int64_t)1 << n); ++i) {
        const rcx p = v.g.r.a[i];
        rcx& o = t.a[i];
        if ((i & cm) == cm) {
            o = rcx{ co * o.re - si * p.im, co * o.im + si * p.re };
        }
    }
    ref_copy(&v.g.r, &t);
    ref_free(&t);
}
static void c_swap(View& v, Rng& r)
{
    if (v.g.r.n < 2) {
        return;
    }
    auto q = pick(v.g, r, 2 + r.below(v.g.r.n > 3 ? 3 : v.g.r.n - 1));
    const int a = q[0], b = q[1];
    std::vector<bitLenInt> c(q.begin() + 2, q.end());
    const uintq qa = v.ids[a], qb = v.ids[b];
    const int k = C->sub = r.below(cliff_only() ? 3 : 6);
    const double h = R2;
    (void)h;
    switch (k) {
    case 0:
        SWAP(v.sid, qa, qb);
        return ref_swap(&v.g.r, a, b);
    case 1:
        ISWAP(v.sid, qa, qb);
        return ref_iswap(v.g, a, b, false);
    case 2:
        AdjISWAP(v.sid, qa, qb);
        return ref_iswap(v.g, a, b, true);
    case 3: {
        const real1_f th = angle(r), ph = angle(r);
        FSim(v.sid, th, ph, qa, qb);
        const double ct = cos(th), st = sin(th);
        rcx u[4] = { { ct, 0 }, { 0, -st }, { 0, -st }, { ct, 0 } };
        ref_sub2(v.g, 0, 0, a, b, u);
        complex m[4] = { C1, C0, C0, cis(-ph) };
        std::vector<bitLenInt> cb{ (bitLenInt)a };
        return rmul(v.g, cb, 1, b, m);
    }
    default: {
        if (c.empty()) {
            return;
        }
        auto ci = idv(v, c);
        const bool anti = k == 5;
        anti ? ACSWAP(v.sid, c.size(), ci.data(), qa, qb) : CSWAP(v.sid, c.size(), ci.data(), qa, qb);
        const int64_t cm = cmask_of(c), cv = anti ? 0 : cm;
        rperm(v.g, [=](int64_t i) -> int64_t {
            if ((i & cm) != cv || ((i >> a) & 1) == ((i >> b) & 1)) {
                return i;
            }
            return i ^ ((int64_t)1 << a) ^ ((int64_t)1 << b);
        });
    }
    }
}
static void c_qft(View& v, Rng& r)
{
    auto q = pick(v.g, r, 1 + r.below(v.g.r.n));
    auto ids = idv(v, q);
    const bool inv = r.chance(0.5);
    C->sub = inv;
    inv ? IQFT(v.sid, q.size(), ids.data()) : QFT(v.sid, q.size(), ids.data());
    complex h[4];
    cliff1(0, h);
    const int n = (int)q.size();
    auto cp = [&](int k, int a, int b, bool i) {
        std::vector<bitLenInt> cb{ q[a] };
        complex m[4] = { C1, C0, C0, cis((i ? -1 : 1) * M_PI / (1 << (k - 1))) };
        rmul(v.g, cb, 1, q[b], m);
    };
    if (!inv) {
        for (int i = 0; i < n; ++i) {
            rmul(v.g, {}, 0, q[n - 1 - i], h);
            for (int j = 0; j < n - 1 - i; ++j) {
                cp(j + 2, n - 1 - i - (j + 1), n - 1 - i, false);
            }
        }
    } else {
        for (int i = 0; i < n; ++i) {
            for (int j = 0; j < i; ++j) {
                cp(j + 2, i - (j + 1), i, true);
            }
            rmul(v.g, {}, 0, q[i], h);
        }
    }
}
static void c_logic(View& v, Rng& r)
{
    if (v.g.r.n < 3) {
        return;
    }
    auto q = pick(v.g, r, 3);
    c_clear(v, q[2]);
    if (v.g.poisoned) {
        return;
    }
    const bool cb = r.chance(0.5);
    const int k = C->sub = r.below(12);
    const uintq s = v.sid, a = v.ids[q[0]], b = v.ids[q[1]], o = v.ids[q[2]];
    switch (k) {
    case 0:
        AND(s, a, b, o);
        break;
    case 1:
        OR(s, a, b, o);
        break;
    case 2:
        XOR(s, a, b, o);
        break;
    case 3:
        NAND(s, a, b, o);
        break;
    case 4:
        NOR(s, a, b, o);
        break;
    case 5:
        XNOR(s, a, b, o);
        break;
    case 6:
        CLAND(s, cb, a, o);
        break;
    case 7:
        CLOR(s, cb, a, o);
        break;
    case 8:
        CLXOR(s, cb, a, o);
        break;
    case 9:
        CLNAND(s, cb, a, o);
        break;
    case 10:
        CLNOR(s, cb, a, o);
        break;
    default:
        CLXNOR(s, cb, a, o);
    }
    rperm(v.g, [=](int64_t i) -> int64_t {
        int x = (i >> q[0]) & 1, y = k >= 6 ? (int)cb : (int)((i >> q[1]) & 1), z;
        switch (k % 6) {
        case 0:
            z = x & y;
            break;
        case 1:
            z = x | y;
            break;
        case 2:
            z = x ^ y;
            break;
        case 3:
            z = !(x & y);
            break;
        case 4:
            z = !(x | y);
            break;
        default:
            z = !(x ^ y);
        }
        return i ^ ((int64_t)z << q[2]);
    });
}
// ---- arithmetic: register operands are lists of qubit ids, in any order ---------------------------------------------------
static int64_t gat(int64_t i, const std::vector<bitLenInt>& q)
{
    int64_t x = 0;
    for (size_t j = 0; j < q.size(); ++j) {
        x |= ((i >> q[j]) & 1) << j;
    }
    return x;
}
static int64_t sca(int64_t i, const std::vector<bitLenInt>& q, int64_t x)
{
    for (size_t j = 0; j < q.size(); ++j) {
        i = (i & ~((int64_t)1 << q[j])) | (((x >> j) & 1) << q[j]);
    }
    return i;
}
static std::vector<bitLenInt> part(std::vector<bitLenInt>& q, int n)
{
    std::vector<bitLenInt> o(q.end() - n, q.end());
    q.resize(q.size() - n);
    return o;
}
static void c_add(View& v, Rng& r)
{
    auto q = pick(v.g, r, v.g.r.n);
    const int len = 1 + r.below((int)q.size());
    auto x = part(q, len);
    const int64_t lm = ((int64_t)1 << len) - 1;
    uintq a[2] = { r.next() & (uint64_t)lm, 0 };
    uintq na = 1;
    if (r.chance(0.2)) { // (a number wider than one word; what exceeds the register has no effect)
        na = 2;
        a[1] = r.chance(0.5) ? 0 : r.next();
    }
    auto xi = idv(v, x);
    const int k = C->sub = r.below(4);
    int64_t add = (int64_t)a[0];
    int64_t cm = 0;
    if (k >= 2) {
        int nc = r.below((int)q.size() + 1);
        nc = nc > 2 ? 2 : nc;
        auto c = part(q, nc);
        auto ci = idv(v, c);
        cm = cmask_of(c);
        k == 2 ? MCADD(v.sid, na, a, nc, ci.data(), len, xi.data()) : MCSUB(v.sid, na, a, nc, ci.data(), len, xi.data());
    } else {
        k == 0 ? ADD(v.sid, na, a, len, xi.data()) : SUB(v.sid, na, a, len, xi.data());
    }
    if (k & 1) {
        add = -add;
    }
    rperm(v.g, [=](int64_t i) -> int64_t { return (i & cm) == cm ? sca(i, x, (gat(i, x) + add) & lm) : i; });
}
static void c_mul(View& v, Rng& r)
{
    if (v.g.r.n < 2) {
        return;
    }
    auto q = pick(v.g, r, v.g.r.n);
    const int len = 1 + r.below((int)q.size() / 2);
    auto x = part(q, len), o = part(q, len);
    int nc = r.below((int)q.size() + 1);
    nc = nc > 2 ? 2 : nc;
    auto c = part(q, nc);
    for (auto b : o) {
        c_clear(v, b);
        if (v.g.poisoned) {
            return;
        }
    }
    auto xi = idv(v, x), oi = idv(v, o), ci = idv(v, c);
    const int64_t lm = ((int64_t)1 << len) - 1, cm = cmask_of(c);
    const int k = C->sub = r.below(3);
    const bool plain = c.empty() && r.chance(0.5), back = r.chance(0.3);
    uintq a[1], m[1];
    if (k == 0) {
        a[0] = 1 + r.next() % (uint64_t)lm;
        plain ? MUL(v.sid, 1, a, len, xi.data(), oi.data()) : MCMUL(v.sid, 1, a, nc, ci.data(), len, xi.data(), oi.data());
        if (back) {
            plain ? DIV(v.sid, 1, a, len, xi.data(), oi.data()) : MCDIV(v.sid, 1, a, nc, ci.data(), len, xi.data(), oi.data());
            return;
        }
        const int64_t av = (int64_t)a[0];
        return rperm(v.g, [=](int64_t i) -> int64_t {
            if ((i & cm) != cm) {
                return i;
            }
            const int64_t p = gat(i, x) * av;
            return sca(sca(i, x, p & lm), o, p >> len);
        });
    }
    m[0] = lm < 2 ? 2 : 2 + r.next() % (uint64_t)lm;
    if (m[0] > (uintq)lm + 1) {
        m[0] = lm + 1;
    }
    a[0] = 1 + r.next() % (m[0] > 1 ? m[0] - 1 : 1);
    const int64_t av = (int64_t)a[0], mv = (int64_t)m[0];
    if (k == 1) {
        plain ? MULN(v.sid, 1, a, m, len, xi.data(), oi.data())
              : MCMULN(v.sid, 1, a, nc, ci.data(), m, len, xi.data(), oi.data());
        if (back) {
            plain ? DIVN(v.sid, 1, a, m, len, xi.data(), oi.data())
                  : MCDIVN(v.sid, 1, a, nc, ci.data(), m, len, xi.data(), oi.data());
            return;
        }
    } else {
        plain ? POWN(v.sid, 1, a, m, len, xi.data(), oi.data())
              : MCPOWN(v.sid, 1, a, nc, ci.data(), m, len, xi.data(), oi.data());
    }
    rperm(v.g, [=](int64_t i) -> int64_t {
        if ((i & cm) != cm) {
            return i;
        }
        const int64_t in = gat(i, x);
        int64_t res = 1 % mv;
        if (k == 1) {
            res = (in * av) % mv;
        } else {
            for (int64_t j = 0; j < in; ++j) {
                res = (res * av) % mv;
            }
        }
        return sca(i, o, res);
    });
}
static void c_table(View& v, Rng& r)
{
    if (v.g.r.n < 2) {
        return;
    }
    auto q = pick(v.g, r, v.g.r.n);
    const int k = C->sub = r.below(4);
    std::vector<unsigned char> tab(512);
    if (k == 3) {
        const int len = 1 + r.below((int)q.size() > 6 ? 6 : (int)q.size());
        auto x = part(q, len);
        const int n = 1 << len;
        for (int i = 0; i < n; ++i) {
            tab[i] = (unsigned char)i;
        }
        for (int i = n - 1; i > 0; --i) {
            std::swap(tab[i], tab[r.below(i + 1)]);
        }
        auto xi = idv(v, x);
        Hash(v.sid, len, xi.data(), tab.data());
        return rperm(v.g, [=](int64_t i) -> int64_t { return sca(i, x, tab[(size_t)gat(i, x)]); });
    }
    if (q.size() < 3) {
        return;
    }
    auto cy = part(q, 1);
    const int li = 1 + r.below((int)q.size() - 1 > 4 ? 4 : (int)q.size() - 1);
    auto x = part(q, li);
    const int lv = 1 + r.below((int)q.size() > 4 ? 4 : (int)q.size());
    auto y = part(q, lv);
    for (int i = 0; i < (1 << li); ++i) {
        tab[i] = (unsigned char)r.below(1 << lv);
    }
    auto xi = idv(v, x), yi = idv(v, y);
    const int64_t vm = ((int64_t)1 << lv) - 1;
    if (k == 0) {
        for (auto b : y) {
            c_clear(v, b);
            if (v.g.poisoned) {
                return;
            }
        }
        LDA(v.sid, li, xi.data(), lv, yi.data(), tab.data());
        return rperm(v.g, [=](int64_t i) -> int64_t { return sca(i, y, tab[(size_t)gat(i, x)]); });
    }
    const int carry = c_m(v, cy[0]);
    if (v.g.poisoned) {
        return;
    }
    k == 1 ? ADC(v.sid, v.ids[cy[0]], li, xi.data(), lv, yi.data(), tab.data())
           : SBC(v.sid, v.ids[cy[0]], li, xi.data(), lv, yi.data(), tab.data());
    rperm(v.g, [=](int64_t i) -> int64_t {
        const int64_t t = tab[(size_t)gat(i, x)], s = gat(i, y);
        const int64_t w = k == 1 ? s + t + carry : s + (vm + 1 - t) - (1 - carry);
        i = sca(i, cy, (w >> lv) & 1);
        return sca(i, y, w & vm);
    });
}
// ---- measurement ------------------------------------------------------------------------------------------------------------
static void c_meas(View& v, Rng& r)
{
    const int n = v.g.r.n, t = r.below(n);
    const int k = C->sub = r.below(5);
    if (k == 0) {
        c_m(v, t);
    } else if (k == 1) {
        const double p1 = ref_prob(&v.g.r, t);
        bool f = r.chance(0.5);
        if ((f ? p1 : 1 - p1) < 0.01) {
            f = !f;
        }
        const uintq o = ForceM(v.sid, v.ids[t], f);
        if (o != (uintq)f) {
            ds_violation("wrong_value", "ForceM", "ForceM(%d) returned %llu", (int)f, o);
        }
        c_observed(v, (int64_t)1 << t, (int64_t)f << t, "ForceM");
    } else if (k == 2) {
        if (!v.priv) {
            return;
        }
        const uintq o = MAll(v.sid);
        const int64_t full = ((int64_t)1 << n) - 1;
        if (o & ~(uintq)full) {
            ds_violation("impossible_outcome", "MAll", "MAll() returned %llx for %d qubits", o, n);
        }
        c_observed(v, full, from_rank(ranks(v), (int64_t)o), "MAll");
    } else if (k == 3) { // joint parity in a product of Pauli bases
        static const int PB[] = { PauliI, PauliX, PauliY, PauliZ };
        auto q = pick(v.g, r, 1 + r.below(n));
        std::vector<int> b;
        int64_t mask = 0;
        for (size_t i = 0; i < q.size(); ++i) {
            b.push_back(PB[r.below(4)]);
            if (b[i] != PauliI) {
                mask |= (int64_t)1 << q[i];
            }
        }
        if (!mask) {
            return;
        }
        auto ids = idv(v, q);
        const uintq o = Measure(v.sid, q.size(), b.data(), ids.data());
        ds_log(o);
        const double p1 = c_joint_ref(v, q, b), p = o ? p1 : 1 - p1;
        ++C->checks;
        if (o > 1) {
            ds_violation("wrong_value", "Measure", "Measure() returned %llu", o);
        }
        if (p < 1e-9) {
            if (ds_rd_extreme() != C->rd0) {
                v.g.poisoned = 1;
                return;
            }
            ds_violation("impossible_outcome", "Measure", "Measure() (#%d) returned parity %llu whose probability is %.3g",
                C->cur_op, o, p);
        }
        complex h[4], s[4], is[4];
        cliff1(0, h);
        cliff1(4, s);
        cliff1(5, is);
        for (size_t i = 0; i < q.size(); ++i) {
            if (b[i] == PauliY) {
                rmul(v.g, {}, 0, q[i], is);
            }
            if (b[i] == PauliX || b[i] == PauliY) {
                rmul(v.g, {}, 0, q[i], h);
            }
        }
        ref_project_parity(&v.g.r, mask, (int)o);
        for (size_t i = 0; i < q.size(); ++i) {
            if (b[i] == PauliX || b[i] == PauliY) {
                rmul(v.g, {}, 0, q[i], h);
            }
            if (b[i] == PauliY) {
                rmul(v.g, {}, 0, q[i], s);
            }
        }
        v.g.nerr = (v.g.nerr + 3e-7) / p;
        if (p < 2e-3 || v.g.nerr > 2e-4) {
            v.g.poisoned = 1;
        }
    } else {
        auto q = pick(v.g, r, 1 + r.below(n));
        auto ids = idv(v, q);
        const int shots = 1 + r.below(10);
        std::vector<uintq> res(shots, ~0ull);
        MeasureShots(v.sid, q.size(), ids.data(), shots, res.data());
        const int64_t m = cmask_of(q);
        for (auto s : res) {
            ds_log(s);
            const double p = s >> q.size() ? 0 : ref_probmask(&v.g.r, m, sca(0, q, (int64_t)s));
            ++C->checks;
            if (p < 1e-9 && ds_rd_extreme() == C->rd0) {
                ds_violation("impossible_outcome", "MeasureShots", "sample %llx of probability %.3g", s, p);
            }
        }
    }
}
// ---- queries ------------------------------------------------------------------------------------------------------------------
static void c_query(View& v, Rng& r)
{
    const int n = v.g.r.n;
    auto q = pick(v.g, r, 1 + r.below(n));
    auto ids = idv(v, q);
    const int k = C->sub = r.below(11);
    EX e{ &q, nullptr, 0, 0, 1 };
    std::vector<double> w(2 * q.size());
    e.w0 = &w;
    double scale = 1, got, want;
    const bool sh = strstr(STACKS[v.g.stack].name, "sh_") != nullptr;
    switch (k) {
    case 0:
        got = sh || r.chance(0.5) ? Prob(v.sid, ids[0]) : ProbRdm(v.sid, ids[0]);
        return check_prob(got, ref_prob(&v.g.r, q[0]), TOL_P, "Prob");
    case 1: {
        const int64_t x = (int64_t)(r.next() & (((uint64_t)1 << q.size()) - 1));
        bool c[16];
        for (size_t i = 0; i < q.size(); ++i) {
            c[i] = (x >> i) & 1;
        }
        got = sh || r.chance(0.5) ? PermutationProb(v.sid, q.size(), ids.data(), c)
                                  : PermutationProbRdm(v.sid, q.size(), ids.data(), c, r.chance(0.5));
        return check_prob(got, ref_probmask(&v.g.r, cmask_of(q), sca(0, q, x)), TOL_P, "PermutationProb");
    }
    case 2: {
        std::vector<float> p((size_t)1 << q.size());
        ProbAll(v.sid, q.size(), ids.data(), p.data());
        for (size_t x = 0; x < p.size(); ++x) {
            check_prob(p[x], ref_probmask(&v.g.r, cmask_of(q), sca(0, q, (int64_t)x)), TOL_P, "ProbAll");
        }
        return;
    }
    case 3:
    case 4:
        for (size_t j = 0; j < q.size(); ++j) {
            w[2 * j] = 0;
            w[2 * j + 1] = (double)(1 << j);
            scale += w[2 * j + 1];
        }
        want = refexp(v.g, f_ex, &e);
        if (k == 3) {
            got = PermutationExpectation(v.sid, q.size(), ids.data());
            return check_prob(got, want, TOL_P * scale, "PermutationExpectation");
        }
        e.mean = want;
        e.power = 2;
        want = refexp(v.g, f_ex, &e);
        got = Variance(v.sid, q.size(), ids.data());
        return check_prob(got, want, TOL_P * scale * scale, "Variance");
    case 5:
    case 6: { // integer weights, possibly given as several words
        const int m = 1 + r.below(2);
        std::vector<uintq> c;
        for (size_t j = 0; j < w.size(); ++j) {
            const int x = r.below(9);
            w[j] = x;
            scale += x;
            for (int i = 0; i + 1 < m; ++i) {
                c.push_back(0);
            }
            c.push_back((uintq)x);
        }
        want = refexp(v.g, f_ex, &e);
        if (k == 5) {
            got = FactorizedExpectation(v.sid, q.size(), ids.data(), (uintq)m, c.data());
            return check_prob(got, want, TOL_P * scale, "FactorizedExpectation");
        }
        e.mean = want;
        e.power = 2;
        want = refexp(v.g, f_ex, &e);
        got = FactorizedVariance(v.sid, q.size(), ids.data(), (uintq)m, c.data());
        return check_prob(got, want, TOL_P * scale * scale, "FactorizedVariance");
    }
    case 7:
    case 8: {
        std::vector<float> c(w.size());
        for (size_t j = 0; j < w.size(); ++j) {
            c[j] = (float)(r.below(9) - 4) / 2;
            w[j] = c[j];
            scale += fabs(w[j]);
        }
        want = refexp(v.g, f_ex, &e);
        if (k == 7) {
            got = FactorizedExpectationFp(v.sid, q.size(), ids.data(), c.data());
            return check_prob(got, want, TOL_P * scale, "FactorizedExpectationFp");
        }
        e.mean = want;
        e.power = 2;
        want = refexp(v.g, f_ex, &e);
        got = FactorizedVarianceFp(v.sid, q.size(), ids.data(), c.data());
        return check_prob(got, want, TOL_P * scale * scale, "FactorizedVarianceFp");
    }
    case 9: { // parity in a product of Pauli bases
        static const int PB[] = { PauliI, PauliX, PauliY, PauliZ };
        std::vector<int> b;
        for (size_t i = 0; i < q.size(); ++i) {
            b.push_back(PB[r.below(4)]);
        }
        got = JointEnsembleProbability(v.sid, q.size(), b.data(), ids.data());
        return check_prob(got, c_joint_ref(v, q, b), TOL_P, "JointEnsembleProbability");
    }
    default: { // one Pauli operator among identities
        static const int PB[] = { PauliX, PauliY, PauliZ };
        std::vector<uintq> b(q.size(), PauliI);
        const size_t i = (size_t)r.below((int)q.size());
        b[i] = (uintq)PB[r.below(3)];
        std::vector<bitLenInt> qq{ q[i] };
        std::vector<int> bb{ (int)b[i] };
        want = 1 - 2 * c_joint_ref(v, qq, bb);
        if (r.chance(0.7)) {
            got = PauliExpectation(v.sid, q.size(), ids.data(), b.data());
            return check_prob(got, want, 2 * TOL_P, "PauliExpectation");
        }
        got = PauliVariance(v.sid, q.size(), ids.data(), b.data());
        return check_prob(got, 1 - want * want, 2 * TOL_P, "PauliVariance");
    }
    }
}
static std::vector<uintq>* DUMPIDS;
static void dump_id(uintq id) { DUMPIDS->push_back(id); }
static std::vector<complex>* DUMPKET;
static bool dump_amp(size_t i, double re, double im)
{
    if (i < DUMPKET->size()) {
        (*DUMPKET)[i] = complex((real1)re, (real1)im);
    }
    return true;
}
static void c_ket(View& v, Rng& r) // whole-state access: bit k of an index stands for the qubit with the k-th smallest id
{
    if (!v.priv) {
        return;
    }
    const int n = v.g.r.n;
    const std::vector<int> rk = ranks(v);
    std::vector<complex> ket((size_t)1 << n), buf(ket.size());
    const int k = C->sub = r.below(5);
    if (k == 0) {
        rand_state(r, n, buf);
        for (size_t i = 0; i < buf.size(); ++i) {
            ket[(size_t)to_rank(rk, (int64_t)i)] = buf[i];
        }
        InKet(v.sid, (float*)ket.data());
        std::vector<rcx> b(buf.size());
        for (size_t i = 0; i < buf.size(); ++i) {
            b[i] = rc(buf[i]);
        }
        ref_setstate(&v.g.r, b.data());
        v.g.poisoned = 0;
        v.g.nerr = 0;
    } else if (k == 1) {
        std::vector<float> p(ket.size());
        OutProbs(v.sid, p.data());
        for (size_t i = 0; i < buf.size(); ++i) {
            const rcx a = v.g.r.a[i];
            check_prob(p[(size_t)to_rank(rk, (int64_t)i)], a.re * a.re + a.im * a.im, TOL_P, "OutProbs");
        }
    } else if (k == 2 && C->P->nclients == 1) {
        DUMPKET = &ket;
        Dump(v.sid, dump_amp);
        for (size_t i = 0; i < buf.size(); ++i) {
            buf[i] = ket[(size_t)to_rank(rk, (int64_t)i)];
        }
        compare_buf(v.g, buf, "Dump");
    } else if (k == 3 && C->P->nclients == 1) {
        std::vector<uintq> got, want = v.ids;
        DUMPIDS = &got;
        DumpIds(v.sid, dump_id);
        std::sort(want.begin(), want.end());
        if (got != want) {
            ds_violation("wrong_value", "DumpIds", "DumpIds() lists %d ids, expected %d or other ids", (int)got.size(),
                (int)want.size());
        }
    } else {
        c_check_state(v, "OutKet");
    }
}
static void c_reset(View& v, Rng& r)
{
    (void)r;
    if (!v.priv) {
        return;
    }
    ResetAll(v.sid);
    v.g.poisoned = 0;
    v.g.nerr = 0;
    ref_setperm(&v.g.r, 0);
}
// ---- structure ----------------------------------------------------------------------------------------------------------------
static uintq fresh_id(View& v, Rng& r)
{
    if (!v.priv) {
        return cc()->nextid++;
    }
    for (;;) { // any id that is not in use, out of order on purpose
        const uintq id = r.chance(0.1) ? 256 + (uintq)r.below(1000) : (uintq)r.below(12);
        if (std::find(v.ids.begin(), v.ids.end(), id) == v.ids.end()) {
            return id;
        }
    }
}
static void c_alloc(View& v, Rng& r)
{
    if (v.g.r.n >= maxq()) {
        return;
    }
    const uintq id = fresh_id(v, r);
    allocateQubit(v.sid, id);
    v.ids.push_back(id);
    if (v.g.r.n) {
        ref_allocate(&v.g.r, v.g.r.n, 1);
    } else {
        ref_free(&v.g.r);
        ref_init(&v.g.r, 1, 0);
        v.g.nerr = 0;
    }
}
static void c_release(View& v, Rng& r)
{
    const int n = v.g.r.n, t = r.below(n);
    if (n == 1 && !v.priv) {
        return;
    }
    if (r.chance(0.7)) {
        c_clear(v, t);
    } else if (r.chance(0.5)) {
        c_m(v, t);
    }
    if (v.g.poisoned) {
        return;
    }
    // move it to the end of the reference state
    if (t != n - 1) {
        ref_swap(&v.g.r, t, n - 1);
        std::swap(v.ids[t], v.ids[n - 1]);
    }
    if (ref_separability(&v.g.r, n - 1, 1) > 1e-9) {
        return;
    }
    const double p = ref_prob(&v.g.r, n - 1);
    const bool ok = release(v.sid, v.ids[n - 1]);
    if (fabs(p - 0.01) > 0.003 && ok != (p < 0.01)) {
        ds_violation("wrong_value", "release", "release() of a qubit with probability %.3g of being set returned %d", p, (int)ok);
    }
    v.ids.pop_back();
    if (n > 1) {
        ref_decompose(&v.g.r, n - 1, 1, nullptr);
    } else {
        ref_free(&v.g.r);
        ref_init(&v.g.r, 0, 0);
    }
}
static int c_range(View& v, Rng& r) // bring a separable set of qubits to the end; returns how many
{
    const int n = v.g.r.n;
    for (int t = 0; t < 8 && n > 1; ++t) {
        auto q = pick(v.g, r, 1 + r.below(n - 1));
        std::sort(q.begin(), q.end());
        for (int i = (int)q.size() - 1, e = n - 1; i >= 0; --i, --e) {
            if (q[i] != e) {
                ref_swap(&v.g.r, q[i], e);
                std::swap(v.ids[q[i]], v.ids[e]);
            }
        }
        if (ref_separability(&v.g.r, n - (int)q.size(), (int)q.size()) < 1e-9) {
            // (in any order)
            for (int i = n - 1; i > n - (int)q.size(); --i) {
                const int j = n - (int)q.size() + r.below(i - (n - (int)q.size()) + 1);
                if (i != j) {
                    ref_swap(&v.g.r, i, j);
                    std::swap(v.ids[i], v.ids[j]);
                }
            }
            return (int)q.size();
        }
        if (r.chance(0.3)) {
            for (int i = 0; i < (int)q.size(); ++i) {
                c_m(v, n - 1 - i);
                if (v.g.poisoned) {
                    return 0;
                }
            }
        }
    }
    return 0;
}
static void c_decompose(View& v, Rng& r)
{
    View* f = c_free();
    if (!f) {
        return;
    }
    const int n = v.g.r.n, k = c_range(v, r);
    if (!k) {
        return;
    }
    std::vector<uintq> q(v.ids.end() - k, v.ids.end());
    f->sid = Decompose(v.sid, (uintq)k, q.data());
    f->live = 1;
    f->priv = 1;
    f->sticky = 0;
    f->g.live = 1;
    f->g.poisoned = 0;
    f->g.stack = v.g.stack;
    f->g.nerr = v.g.nerr;
    f->g.tol = v.g.tol;
    f->ids.clear();
    for (int i = 0; i < k; ++i) {
        f->ids.push_back((uintq)i);
    }
    ref_free(&f->g.r);
    ref_decompose(&v.g.r, n - k, k, &f->g.r);
    v.ids.resize(n - k);
    c_check_state(*f, "Decompose");
}
static void c_dispose(View& v, Rng& r)
{
    const int n = v.g.r.n, k = c_range(v, r);
    if (!k) {
        return;
    }
    std::vector<uintq> q(v.ids.end() - k, v.ids.end());
    Dispose(v.sid, (uintq)k, q.data());
    ref_decompose(&v.g.r, n - k, k, nullptr);
    v.ids.resize(n - k);
}
static void c_compose(View& v, Rng& r)
{
    View* o = nullptr;
    for (int i = 0; i < MAXVIEWS; ++i) {
        View* x = &cc()->v[i];
        if (x->live && x != &v && x->priv && !x->g.poisoned && x->g.r.n && x->g.r.n + v.g.r.n <= maxq()) {
            o = x;
        }
    }
    if (!o) {
        return;
    }
    std::vector<uintq> q(o->ids.size()), add;
    const std::vector<int> rk = ranks(*o);
    for (size_t i = 0; i < q.size(); ++i) { // new ids, given in the order of the old ones
        const size_t m = v.ids.size();
        v.ids.push_back(fresh_id(v, r));
        q[rk[i]] = v.ids[m];
    }
    Compose(v.sid, o->sid, q.data());
    ref_compose(&v.g.r, &o->g.r, v.g.r.n);
    v.g.nerr += o->g.nerr;
}
static void c_trysep(View& v, Rng& r)
{
    auto q = pick(v.g, r, 1 + r.below(v.g.r.n));
    auto ids = idv(v, q);
    const int k = C->sub = r.below(4);
    if (k == 0) {
        TrySeparate1Qb(v.sid, ids[0]);
    } else if (k == 1) {
        if (q.size() < 2) {
            return;
        }
        TrySeparate2Qb(v.sid, ids[0], ids[1]);
    } else if (k == 2) {
        TrySeparateTol(v.sid, q.size(), ids.data(), 1e-6);
    } else {
        const int n = v.g.r.n, m = c_range(v, r);
        if (!m) {
            return;
        }
        std::vector<uintq> s(v.ids.end() - m, v.ids.end());
        (void)n;
        Separate(v.sid, (uintq)m, s.data());
    }
}
static void c_clone(View& v, Rng& r)
{
    View* f = c_free();
    if (!f) {
        return;
    }
    f->sid = init_clone(v.sid);
    f->live = 1;
    f->priv = v.priv;
    f->sticky = 0;
    f->g.live = 1;
    f->g.poisoned = v.g.poisoned;
    f->g.stack = v.g.stack;
    f->g.nerr = v.g.nerr;
    f->g.tol = v.g.tol;
    f->ids = v.ids;
    ref_free(&f->g.r);
    ref_copy(&f->g.r, &v.g.r);
    if (!v.priv) { // the clone also holds the qubits of the other clients, in a state nobody knows
        c_check_state(*f, "init_clone");
        c_drop(*f);
    }
}
static void c_create(View&, Rng& r)
{
    View* f = c_free();
    if (!f) {
        return;
    }
    c_init(*f, r.chance(0.2) ? 0 : 1 + r.below(C->P->nq), C->P->stack);
}
static void c_destroy(View& v, Rng&)
{
    if (!v.priv) {
        return;
    }
    c_drop(v);
}
static void c_misc(View& v, Rng& r)
{
    const int k = C->sub = r.below(8);
    switch (k) {
    case 0:
        Normalize(v.sid);
        break;
    case 1:
        SetReactiveSeparate(v.sid, r.chance(0.5));
        break;
    case 2:
        if (C->P->nclients == 1) {
            seed(v.sid, r.next());
        }
        break;
    case 3:
        set_concurrency(v.sid, 1 + (uintq)r.below(4));
        break;
    case 4: {
        const double f = GetUnitaryFidelity(v.sid);
        check_prob(f, 1, 0.02, "GetUnitaryFidelity");
        break;
    }
    case 5:
        ResetUnitaryFidelity(v.sid);
        break;
    case 6:
        if (v.priv && (int)num_qubits(v.sid) != v.g.r.n) {
            ds_violation("wrong_size", "num_qubits", "num_qubits() is %d, reference %d", (int)num_qubits(v.sid), v.g.r.n);
        }
        break;
    default:
        SetTInjection(v.sid, r.chance(0.7));
    }
}
// ---- circuits -------------------------------------------------------------------------------------------------------------------
// A circuit is built, transformed (clone, inverse, swap, text round trip) and run on a private simulator.
static void c_circuit(View& v, Rng& r)
{
    if (!v.priv) {
        return;
    }
    const int n = v.g.r.n;
    struct G {
        std::vector<bitLenInt> c;
        int64_t p;
        int t;
        complex m[4];
    };
    std::vector<G> gs;
    const std::vector<int> rk = ranks(v);
    std::vector<int> at(n); // reference qubit with a given rank
    for (int i = 0; i < n; ++i) {
        at[rk[i]] = i;
    }
    const bool collapse = r.chance(0.7);
    uintq cid = init_qcircuit(collapse, false);
    const int ng = 1 + r.below(12);
    auto inv = [&]() {
        std::reverse(gs.begin(), gs.end());
        for (auto& g : gs) {
            std::swap(g.m[1], g.m[2]);
            for (int i = 0; i < 4; ++i) {
                g.m[i] = conj(g.m[i]);
            }
        }
    };
    for (int i = 0; i < ng; ++i) {
        const int what = r.below(12);
        if (what < 9) {
            G g;
            int nc = r.below(n > 4 ? 4 : n);
            if (cliff_only()) {
                nc = nc > 1 ? 1 : nc;
            }
            g.c = pick(v.g, r, nc + 1);
            g.t = g.c.back();
            g.c.pop_back();
            if (cliff_only() && nc) {
                cliff1(1 + r.below(3), g.m);
            } else {
                rand_mtrx(r, g.m);
            }
            double d[8];
            for (int j = 0; j < 4; ++j) {
                d[2 * j] = real(g.m[j]);
                d[2 * j + 1] = imag(g.m[j]);
            }
            if (nc) {
                std::vector<uintq> c;
                for (auto b : g.c) {
                    c.push_back((uintq)rk[b]);
                }
                g.p = (int64_t)(r.next() & (((uint64_t)1 << nc) - 1));
                qcircuit_append_mc(cid, d, nc, c.data(), (uintq)rk[g.t], (uintq)g.p);
            } else {
                g.p = 0;
                qcircuit_append_1qb(cid, d, (uintq)rk[g.t]);
            }
            gs.push_back(g);
        } else if (what == 9) {
            if (n < 2) {
                continue;
            }
            auto q = pick(v.g, r, 2);
            qcircuit_swap(cid, (uintq)rk[q[0]], (uintq)rk[q[1]]);
            // three CNOTs
            for (int j = 0; j < 3; ++j) {
                G g;
                g.c = { q[j & 1] };
                g.t = q[1 - (j & 1)];
                g.p = 1;
                cliff1(1, g.m);
                gs.push_back(g);
            }
        } else if (what == 10) {
            const bool iv = r.chance(0.5);
            const uintq o = cid;
            cid = iv ? qcircuit_inverse(o) : init_qcircuit_clone(o);
            destroy_qcircuit(o);
            if (iv) {
                inv();
            }
        } else {
            const size_t len = qcircuit_out_to_string_length(cid);
            std::vector<char> s(len + 8, (char)0x5a);
            qcircuit_out_to_string(cid, s.data());
            if (s[len - 1] || s[len] != 0x5a) {
                ds_violation("wrong_value", "qcircuit_out_to_string", "text does not have the announced length");
            }
            char f[64];
            snprintf(f, sizeof f, "/simfs/c%d.txt", C->client);
            if (r.chance(0.5)) {
                ds_fs_put(f, s.data(), len - 1);
            } else {
                qcircuit_out_to_file(cid, f);
            }
            const uintq o = cid;
            if (r.chance(0.8)) {
                cid = init_qcircuit(collapse, false);
                qcircuit_in_from_file(cid, f);
                destroy_qcircuit(o);
            } else {
                qcircuit_in_from_file(cid, f); // (replaces the gates)
            }
        }
    }
    int top = 0;
    for (auto& g : gs) {
        top = std::max(top, rk[g.t] + 1);
        for (auto b : g.c) {
            top = std::max(top, rk[b] + 1);
        }
    }
    const uintq nq = get_qcircuit_qubit_count(cid);
    if ((int)nq > n) {
        ds_violation("wrong_value", "get_qcircuit_qubit_count", "circuit on %d qubits reports %llu", n, nq);
    }
    if (!(v.g.poisoned)) {
        qcircuit_run(cid, v.sid);
        for (auto& g : gs) {
            rmul(v.g, g.c, g.p, g.t, g.m);
        }
    }
    destroy_qcircuit(cid);
}
// ---- misuse: rejected with an error, without any effect ---------------------------------------------------------------------------
static void c_misuse(View& v, Rng& r)
{
    const int k = C->sub = r.below(10);
    uintq bad = v.sid; // an id that names no simulator
    if (r.chance(0.3)) {
        bad = 1000 + (uintq)r.below(5);
    } else if (r.chance(0.5)) {
        int top = 0;
        for (auto& x : cc()->v) {
            top = x.live && (int)x.sid >= top ? (int)x.sid + 1 : top;
        }
        bad = (uintq)top + 64;
    }
    uintq q[2] = { v.ids[0], 4242 };
    uintq a[1] = { 1 };
    if (bad == v.sid) { // a qubit id that names no qubit
        switch (k) {
        case 0:
            X(bad, 4242);
            break;
        case 1:
            H(bad, 4242);
            break;
        case 2:
            MCX(bad, 1, q, 4242);
            break;
        case 3:
            MCX(bad, 1, q + 1, v.ids[0]);
            break;
        case 4:
            SWAP(bad, v.ids[0], 4242);
            break;
        case 5:
            M(bad, 4242);
            break;
        case 6:
            Prob(bad, 4242);
            break;
        case 7:
            ADD(bad, 1, a, 2, q);
            break;
        case 8:
            MX(bad, 2, q);
            break;
        default:
            PermutationExpectation(bad, 2, q);
        }
        if (!get_error(v.sid)) {
            ds_violation("no_error", "bad qubit", "no error after a call with a qubit id that does not exist (%d)", k);
        }
        v.sticky = 1;
        return;
    }
    if (C->P->nclients > 1) {
        return; // (the interface-wide error flag is reported to whoever asks first)
    }
    switch (k) {
    case 0:
        X(bad, 0);
        break;
    case 1:
        M(bad, 0);
        break;
    case 2:
        init_clone(bad);
        break;
    case 3:
        allocateQubit(bad, 0);
        break;
    case 4:
        release(bad, 0);
        break;
    case 5:
        destroy(bad);
        break;
    case 6:
        num_qubits(bad);
        break;
    case 7:
        Prob(bad, 0);
        break;
    case 8:
        Compose(v.sid, bad, q);
        break;
    default:
        get_error(bad);
    }
    if (k < 9) {
        if (get_error(v.sid) != 2) {
            ds_violation("no_error", "bad simulator", "no error after a call with a simulator id that does not exist (%d)", k);
        }
    } else {
        get_error(v.sid);
    }
    if (!v.sticky && get_error(v.sid)) {
        ds_violation("wrong_value", "get_error", "the error of a call on another simulator id sticks");
    }
}

struct COp {
    const char* name;
    c_fn fn;
    double w;
    int alu, cliff, poisoned_ok, empty_ok;
};
static const COp COPS[] = {
    { "c_g1", c_g1, 6, 0, 1, 0, 0 },
    { "c_mc", c_mc, 6, 0, 1, 0, 0 },
    { "c_mask", c_mask, 2, 0, 1, 0, 0 },
    { "c_rot", c_rot, 2, 0, 0, 0, 0 },
    { "c_exp", c_exp, 2, 0, 0, 0, 0 },
    { "c_swap", c_swap, 2, 0, 1, 0, 0 },
    { "c_qft", c_qft, 1, 0, 0, 0, 0 },
    { "c_logic", c_logic, 1.5, 0, 0, 0, 0 },
    { "c_add", c_add, 3, 1, 0, 0, 0 },
    { "c_mul", c_mul, 2, 1, 0, 0, 0 },
    { "c_table", c_table, 2, 1, 0, 0, 0 },
    { "c_meas", c_meas, 3, 0, 1, 0, 0 },
    { "c_query", c_query, 4, 0, 1, 0, 0 },
    { "c_ket", c_ket, 2, 0, 0, 0, 0 },
    { "c_reset", c_reset, 0.7, 0, 1, 1, 0 },
    { "c_alloc", c_alloc, 2, 0, 1, 0, 1 },
    { "c_release", c_release, 2, 0, 1, 0, 0 },
    { "c_decompose", c_decompose, 1.5, 0, 1, 0, 0 },
    { "c_dispose", c_dispose, 1, 0, 1, 0, 0 },
    { "c_compose", c_compose, 1.5, 0, 1, 0, 0 },
    { "c_trysep", c_trysep, 1, 0, 1, 0, 0 },
    { "c_clone", c_clone, 1.5, 0, 1, 0, 0 },
    { "c_create", c_create, 1.5, 0, 1, 1, 1 },
    { "c_destroy", c_destroy, 1, 0, 1, 1, 1 },
    { "c_misc", c_misc, 1, 0, 1, 0, 0 },
    { "c_circuit", c_circuit, 2, 0, 1, 0, 0 },
    { "c_misuse", c_misuse, 0.7, 1, 1, 0, 0 },
};
static const int NCOPS = sizeof(COPS) / sizeof(COPS[0]);
int cop_count() { return NCOPS; }
int cop_by_name(const char* s)
{
    for (int i = 0; i < NCOPS; ++i) {
        if (!strcmp(COPS[i].name, s)) {
            return i;
        }
    }
    return -1;
}
const char* cop_name(int c) { return c >= 0 && c < NCOPS ? COPS[c].name : "?"; }
double cop_weight(int i, int cliff, int alu)
{
    return (cliff && !COPS[i].cliff) || (COPS[i].alu && !alu) ? 0 : COPS[i].w;
}

static void c_exec(CClient& k, const Op& op)
{
    int vi = op.reg % MAXVIEWS;
    for (int i = 0; i < MAXVIEWS && !k.v[vi].live; ++i) {
        vi = (vi + 1) % MAXVIEWS;
    }
    View& v = k.v[vi];
    const COp& o = COPS[op.code];
    k.c.cur = o.name;
    if (!v.live && o.fn != c_create) {
        return;
    }
    if (v.live && ((v.g.poisoned && !o.poisoned_ok) || (!v.g.r.n && !o.empty_ok))) {
        return;
    }
    k.c.sub = 0;
    k.c.rd0 = ds_rd_extreme();
    const uint64_t fired = ds_fault_fired_total();
    Rng r(op.seed);
    try {
        ds_sut(1);
        o.fn(v, r);
        ds_sut(0);
    } catch (const std::exception& e) {
        ds_sut(0);
        ds_violation("exception", k.c.cur, "op %s/%d (#%d): exception left the C interface: %s", k.c.cur, k.c.sub, k.c.cur_op,
            e.what());
    }
    if (!v.live || v.sticky) {
        return;
    }
    const int err = get_error(v.sid);
    if (err) {
        if (ds_fault_fired_total() == fired) {
            ds_violation("error", k.c.cur, "op %s/%d (#%d): valid call reported error %d", k.c.cur, k.c.sub, k.c.cur_op, err);
        }
        v.sticky = 1;
        v.g.poisoned = 1;
    }
}
static void c_client(CClient& k)
{
    CTXS[ds_self() & 4095] = &k.c;
    const Program* P = k.c.P;
    for (int i = 0; i < P->nops; ++i) {
        if (P->ops[i].client != k.c.client) {
            continue;
        }
        k.c.cur_op = i;
        c_exec(k, P->ops[i]);
        ds_result()->ops++;
        if (P->checkevery) {
            Rng r(P->ops[i].seed ^ 0xabcdef);
            if (r.below(P->checkevery) == 0) {
                for (int j = 0; j < MAXVIEWS; ++j) {
                    c_check_state(k.v[j], "step");
                }
            }
        }
    }
    k.c.cur = "final";
    for (int j = 0; j < MAXVIEWS; ++j) {
        c_check_state(k.v[j], "final");
    }
    ds_result()->checks += k.c.checks;
    if (k.c.maxerr > ds_result()->maxerr) {
        ds_result()->maxerr = k.c.maxerr;
    }
}
static void c_client_fiber(void* a) { c_client(*(CClient*)a); }
void capi_main(const Program* P)
{
    const StackDef& s = STACKS[P->stack];
    for (int i = 0; i < s.n; ++i) {
        if (s.e[i] == QINTERFACE_STABILIZER_HYBRID && P->nops > 10) {
            ds_soft_budget(1);
        }
    }
    Rng r(P->seed * 77 + 5);
    for (int i = 0; i < P->nclients; ++i) {
        CClient& k = CC[i];
        k.c.P = P;
        k.c.client = i;
        k.c.cur = "setup";
        k.c.rng = std::make_shared<qrack_rand_gen>();
        k.nextid = 10000 * (uintq)(i + 1);
    }
    CTXS[ds_self() & 4095] = &CC[0].c;
    // simulators shared by all clients
    int used = 0;
    if (P->nclients > 1) {
        const int ns = 1 + (P->variant & 1);
        for (; used < ns; ++used) {
            std::vector<int> n;
            int tot = 0;
            for (int i = 0; i < P->nclients; ++i) {
                n.push_back(1 + r.below(2));
                tot += n.back();
            }
            View t;
            c_init(t, tot, P->stack);
            tot = 0;
            for (int i = 0; i < P->nclients; ++i) {
                View& v = CC[i].v[used];
                v.sid = t.sid;
                v.live = 1;
                v.priv = 0;
                v.g.live = 1;
                v.g.stack = P->stack;
                v.g.tol = 2e-4;
                for (int j = 0; j < n[i]; ++j) {
                    v.ids.push_back((uintq)tot++);
                }
                ref_init(&v.g.r, n[i], 0);
            }
            ref_free(&t.g.r);
        }
    }
    for (int i = 0; i < P->nclients; ++i) {
        if (P->nclients == 1 || (P->variant & 2)) {
            c_init(CC[i].v[used], 1 + r.below(P->nq), P->stack);
        }
    }
    if (P->sc.nfaults) {
        ds_arm(1);
    }
    if (P->nclients == 1) {
        c_client(CC[0]);
    } else {
        int id[MAXCLIENTS];
        for (int i = 0; i < P->nclients; ++i) {
            id[i] = ds_spawn(c_client_fiber, &CC[i]);
        }
        for (int i = 0; i < P->nclients; ++i) {
            ds_join(id[i]);
        }
    }
    ds_arm(0);
    if (ds_locks_held_total()) {
        ds_violation("lock_leak", "end", "%d mutexes still held at the end", ds_locks_held_total());
    }
    ds_result()->nontrivial = 1;
}
