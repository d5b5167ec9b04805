#include "ref.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>

extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);

static int64_t dim(const Ref* r) { return (int64_t)1 << r->n; }
static rcx* alloc_amps(int64_t d)
{
    rcx* p = (rcx*)__real_malloc(sizeof(rcx) * (size_t)d);
    for (int64_t i = 0; i < d; ++i) {
        p[i].re = p[i].im = 0;
    }
    return p;
}
static inline rcx mul(rcx a, rcx b) { return rcx{ a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re }; }
static inline rcx add(rcx a, rcx b) { return rcx{ a.re + b.re, a.im + b.im }; }
static inline double nrm(rcx a) { return a.re * a.re + a.im * a.im; }

void ref_init(Ref* r, int n, int64_t perm)
{
    r->n = n;
    r->a = alloc_amps((int64_t)1 << n);
    r->a[perm].re = 1;
}
void ref_free(Ref* r)
{
    if (r->a) {
        __real_free(r->a);
    }
    r->a = 0;
}
void ref_copy(Ref* d, const Ref* s)
{
    ref_free(d);
    d->n = s->n;
    d->a = alloc_amps(dim(s));
    for (int64_t i = 0; i < dim(s); ++i) {
        d->a[i] = s->a[i];
    }
}
void ref_setperm(Ref* r, int64_t perm)
{
    for (int64_t i = 0; i < dim(r); ++i) {
        r->a[i].re = r->a[i].im = 0;
    }
    r->a[perm].re = 1;
}
void ref_setstate(Ref* r, const rcx* a)
{
    for (int64_t i = 0; i < dim(r); ++i) {
        r->a[i] = a[i];
    }
}
void ref_mtrx(Ref* r, const int* ctrl, int nc, int64_t perm, int target, const rcx m[4])
{
    int64_t cm = 0, cv = 0;
    for (int i = 0; i < nc; ++i) {
        cm |= (int64_t)1 << ctrl[i];
        if ((perm >> i) & 1) {
            cv |= (int64_t)1 << ctrl[i];
        }
    }
    const int64_t t = (int64_t)1 << target;
    for (int64_t i = 0; i < dim(r); ++i) {
        if ((i & t) || (i & cm) != cv) {
            continue;
        }
        rcx x = r->a[i], y = r->a[i | t];
        r->a[i] = add(mul(m[0], x), mul(m[1], y));
        r->a[i | t] = add(mul(m[2], x), mul(m[3], y));
    }
}
void ref_perm(Ref* r, ref_mapfn f, void* ctx)
{
    rcx* b = alloc_amps(dim(r));
    for (int64_t i = 0; i < dim(r); ++i) {
        int64_t j = f(i, ctx);
        b[j] = add(b[j], r->a[i]);
    }
    __real_free(r->a);
    r->a = b;
}
void ref_phase(Ref* r, int64_t (*sel)(int64_t, void*), void* ctx, rcx ph)
{
    for (int64_t i = 0; i < dim(r); ++i) {
        if (sel(i, ctx)) {
            r->a[i] = mul(r->a[i], ph);
        }
    }
}
void ref_swap(Ref* r, int p, int q)
{
    if (p == q) {
        return;
    }
    int64_t a = (int64_t)1 << p, b = (int64_t)1 << q;
    for (int64_t i = 0; i < dim(r); ++i) {
        if ((i & a) && !(i & b)) {
            int64_t j = (i & ~a) | b;
            rcx t = r->a[i];
            r->a[i] = r->a[j];
            r->a[j] = t;
        }
    }
}
double ref_prob(const Ref* r, int q) { return ref_probmask(r, (int64_t)1 << q, (int64_t)1 << q); }
double ref_probmask(const Ref* r, int64_t mask, int64_t val)
{
    double s = 0;
    for (int64_t i = 0; i < dim(r); ++i) {
        if ((i & mask) == val) {
            s += nrm(r->a[i]);
        }
    }
    return s;
}
double ref_probparity(const Ref* r, int64_t mask)
{
    double s = 0;
    for (int64_t i = 0; i < dim(r); ++i) {
        if (__builtin_popcountll(i & mask) & 1) {
            s += nrm(r->a[i]);
        }
    }
    return s;
}
double ref_norm(const Ref* r) { return ref_probmask(r, 0, 0); }
static void renorm(Ref* r)
{
    double s = sqrt(ref_norm(r));
    if (s <= 0) {
        return;
    }
    for (int64_t i = 0; i < dim(r); ++i) {
        r->a[i].re /= s;
        r->a[i].im /= s;
    }
}
void ref_project(Ref* r, int64_t mask, int64_t val)
{
    for (int64_t i = 0; i < dim(r); ++i) {
        if ((i & mask) != val) {
            r->a[i].re = r->a[i].im = 0;
        }
    }
    renorm(r);
}
void ref_project_parity(Ref* r, int64_t mask, int odd)
{
    for (int64_t i = 0; i < dim(r); ++i) {
        if ((__builtin_popcountll(i & mask) & 1) != odd) {
            r->a[i].re = r->a[i].im = 0;
        }
    }
    renorm(r);
}
void ref_compose(Ref* r, const Ref* o, int start)
{
    int n = r->n + o->n;
    rcx* b = alloc_amps((int64_t)1 << n);
    int64_t lowm = ((int64_t)1 << start) - 1;
    for (int64_t i = 0; i < ((int64_t)1 << n); ++i) {
        int64_t lo = i & lowm;
        int64_t mid = (i >> start) & (((int64_t)1 << o->n) - 1);
        int64_t hi = (i >> (start + o->n)) << start;
        b[i] = mul(r->a[lo | hi], o->a[mid]);
    }
    __real_free(r->a);
    r->a = b;
    r->n = n;
}
static int64_t join_idx(int64_t rest, int64_t part, int start, int len)
{
    int64_t lowm = ((int64_t)1 << start) - 1;
    return (rest & lowm) | (part << start) | ((rest >> start) << (start + len));
}
double ref_separability(const Ref* r, int start, int len)
{
    // 1 - largest-row projection residual: take the row (rest index) with largest weight as candidate factor
    int64_t dp = (int64_t)1 << len, dr = (int64_t)1 << (r->n - len);
    int64_t best = 0;
    double bw = -1;
    for (int64_t x = 0; x < dr; ++x) {
        double w = 0;
        for (int64_t p = 0; p < dp; ++p) {
            w += nrm(r->a[join_idx(x, p, start, len)]);
        }
        if (w > bw) {
            bw = w;
            best = x;
        }
    }
    double res = 0;
    for (int64_t x = 0; x < dr; ++x) {
        rcx ip = { 0, 0 };
        double w = 0;
        for (int64_t p = 0; p < dp; ++p) {
            rcx c = r->a[join_idx(best, p, start, len)];
            c.im = -c.im;
            ip = add(ip, mul(c, r->a[join_idx(x, p, start, len)]));
            w += nrm(r->a[join_idx(x, p, start, len)]);
        }
        res += w - nrm(ip) / bw;
    }
    return res;
}
int ref_decompose(Ref* r, int start, int len, Ref* out)
{
    int64_t dp = (int64_t)1 << len, dr = (int64_t)1 << (r->n - len);
    int64_t best = 0;
    double bw = -1;
    for (int64_t x = 0; x < dr; ++x) {
        double w = 0;
        for (int64_t p = 0; p < dp; ++p) {
            w += nrm(r->a[join_idx(x, p, start, len)]);
        }
        if (w > bw) {
            bw = w;
            best = x;
        }
    }
    rcx* part = alloc_amps(dp);
    rcx* rest = alloc_amps(dr);
    double s = sqrt(bw);
    for (int64_t p = 0; p < dp; ++p) {
        part[p] = r->a[join_idx(best, p, start, len)];
        part[p].re /= s;
        part[p].im /= s;
    }
    for (int64_t x = 0; x < dr; ++x) {
        rcx ip = { 0, 0 };
        for (int64_t p = 0; p < dp; ++p) {
            rcx c = part[p];
            c.im = -c.im;
            ip = add(ip, mul(c, r->a[join_idx(x, p, start, len)]));
        }
        rest[x] = ip;
    }
    __real_free(r->a);
    r->a = rest;
    r->n -= len;
    renorm(r);
    if (out) {
        ref_free(out);
        out->n = len;
        out->a = part;
        renorm(out);
    } else {
        __real_free(part);
    }
    return 1;
}
void ref_allocate(Ref* r, int start, int len)
{
    Ref z;
    ref_init(&z, len, 0);
    ref_compose(r, &z, start);
    ref_free(&z);
}
double ref_overlap2(const Ref* r, const rcx* b, double* nb)
{
    rcx ip = { 0, 0 };
    double n = 0;
    for (int64_t i = 0; i < dim(r); ++i) {
        rcx c = r->a[i];
        c.im = -c.im;
        ip = add(ip, mul(c, b[i]));
        n += nrm(b[i]);
    }
    *nb = n;
    return nrm(ip);
}
double ref_overlap2_rr(const Ref* a, const Ref* b)
{
    double nb;
    return ref_overlap2(a, b->a, &nb);
}
double ref_maxdiff(const Ref* r, const rcx* b)
{
    double m = 0;
    for (int64_t i = 0; i < dim(r); ++i) {
        double d = fabs(r->a[i].re - b[i].re);
        if (d > m || d != d) {
            m = d != d ? 1e9 : d;
        }
        d = fabs(r->a[i].im - b[i].im);
        if (d > m || d != d) {
            m = d != d ? 1e9 : d;
        }
    }
    return m;
}
