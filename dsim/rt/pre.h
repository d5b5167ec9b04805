// Force-included into every translation unit of the system under test: puts the hardware random number generator
// instruction behind a seam owned by the simulator. (The intrinsic is an inline function, so the header is included
// first and only later uses are renamed.)
#pragma once
#include <immintrin.h>
#ifdef __cplusplus
extern "C"
#endif
    int
    dsim_rdrand32(unsigned int* pv);
#define _rdrand32_step(p) dsim_rdrand32(p)
