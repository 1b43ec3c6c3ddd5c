// 64-bit METIS interface; the partition METIS would choose is supplied by the
// model checker, which enumerates every answer METIS could give.
#ifndef MCRT_METIS_H
#define MCRT_METIS_H
#include <cstdint>
typedef int64_t idx_t;
typedef double real_t;
#define METIS_NOPTIONS 40
#define METIS_OK 1
#ifdef __cplusplus
extern "C" {
#endif
int METIS_SetDefaultOptions(idx_t*);
int METIS_PartGraphKway(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*);
int METIS_PartGraphRecursive(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*);
#ifdef __cplusplus
}
#endif
#endif
