// Workload generation, reference product and comparison.  Implemented in support.cpp,
// which is compiled without access hooks: it is the oracle, not the code under test.
#pragma once
#include "sim.h"
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace drv {
enum data_mode { D_SMALL, D_POS, D_BIG, D_PERM, D_DYADIC, D_SPARSE, D_ONEHOT, D_MODES };
extern const char *const mode_name[];
// every product and every partial sum is exact in double precision for n <= 1024
void fill(double *m, size_t n, int mode, int which);
void reference(const double *A, const double *B, bool transposed, double *C, size_t n);
// index of the first difference (bitwise on values, -0 == 0), or -1
long first_diff(const double *a, const double *b, size_t n);
std::string show(double v);

struct cfg_hint { int lo, hi; };
size_t pick_n(int big);                                   // matrix size, biased to small and to boundaries
uint64_t pick_block(size_t n, bool allow_zero);           // block size
uint64_t pick(std::initializer_list<uint64_t> v);
uint64_t pick_reps();     // repetition count; now and then a high one
int pick_team(int usual); // team size; now and then a large one
std::vector<int> cluster(int max_loc, int max_workers, int omp_max, int wide = 13);
std::string capture(int locality);                        // what the code printed at a locality
void capture_on();
void capture_clear();
} // namespace drv
