#include "vp.h"
// every pair of representations, both operations, both assignment forms
#define PAIR(N, MA, MB) \
DRV drv_add_##N(MA const& A, MB const& B) { probe("A", A); probe("B", B); auto C = A + B; probe("C", C); probe("A2", A); probe("B2", B); } \
DRV drv_sub_##N(MA const& A, MB const& B) { probe("A", A); probe("B", B); auto C = A - B; probe("C", C); probe("A2", A); probe("B2", B); } \
DRV drv_ads_##N(MA& A, MB const& B) { probe("A", A); probe("B", B); A += B; probe("C", A); probe("B2", B); } \
DRV drv_sus_##N(MA& A, MB const& B) { probe("A", A); probe("B", B); A -= B; probe("C", A); probe("B2", B); }
#define ROW(a, X, s) PAIR(a##dd##s, X, DD##s) PAIR(a##df##s, X, DF##s) PAIR(a##sd##s, X, SD##s) PAIR(a##sf##s, X, SF##s) PAIR(a##zz##s, X, ZZ##s)
#ifdef PART1
ROW(dd_, DD,) ROW(df_, DF,)
#endif
#ifdef PART2
ROW(sd_, SD,) ROW(sf_, SF,) ROW(zz_, ZZ,)
#endif
#ifdef PART3
ROW(rdd_, DDr, r) ROW(rdf_, DFr, r)
#endif
#ifdef PART4
ROW(rsd_, SDr, r) ROW(rzz_, ZZr, r)
#endif
