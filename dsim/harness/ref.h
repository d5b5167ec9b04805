// Reference model: a dense state vector in double precision, nothing else. Deliberately naive.
#pragma once
#include <stdint.h>
typedef struct {
    double re, im;
} rcx;
#define REF_MAXQ 12
typedef struct {
    int n;
    rcx* a;
} Ref;
typedef int64_t (*ref_mapfn)(int64_t idx, void* ctx); // permutation of basis states: source -> destination
void ref_init(Ref* r, int n, int64_t perm);
void ref_free(Ref* r);
void ref_copy(Ref* dst, const Ref* src);
void ref_setperm(Ref* r, int64_t perm);
void ref_setstate(Ref* r, const rcx* a);
// apply 2x2 matrix m (row major) on target where all controls (list) match bits of perm (bit i of perm for controls[i])
void ref_mtrx(Ref* r, const int* ctrl, int nc, int64_t perm, int target, const rcx m[4]);
void ref_perm(Ref* r, ref_mapfn f, void* ctx);
void ref_phase(Ref* r, int64_t (*sel)(int64_t, void*), void* ctx, rcx ph); // multiply where sel()!=0
void ref_swap(Ref* r, int a, int b);
double ref_prob(const Ref* r, int q);
double ref_probmask(const Ref* r, int64_t mask, int64_t val);
double ref_probparity(const Ref* r, int64_t mask);
double ref_norm(const Ref* r);
void ref_project(Ref* r, int64_t mask, int64_t val); // project and renormalise
void ref_project_parity(Ref* r, int64_t mask, int odd);
void ref_compose(Ref* r, const Ref* o, int start); // insert o's qubits at start
// factor out qubits [start,start+len): returns 1 and fills out (if not null) and shrinks r when separable
double ref_separability(const Ref* r, int start, int len); // purity-like residual; 0 = product
int ref_decompose(Ref* r, int start, int len, Ref* out);
void ref_allocate(Ref* r, int start, int len);
double ref_overlap2(const Ref* r, const rcx* b, double* norm_b); // |<r|b>|^2
double ref_maxdiff(const Ref* r, const rcx* b);
double ref_overlap2_rr(const Ref* a, const Ref* b);
