#pragma once
// Stand-in for KaHIP (not installed here): same interface, partition chosen by the
// simulator (see sim/core/simkahip.cpp).
const int FAST = 0, ECO = 1, STRONG = 2, FASTSOCIAL = 3, ECOSOCIAL = 4, STRONGSOCIAL = 5, FASTSOCIALMULTITRY_PARALLEL = 6;
void kaffpa(int *n, int *vwgt, int *xadj, int *adjcwgt, int *adjncy, int *nparts, double *imbalance, bool suppress_output, int seed, int mode, int num_threads, int *edgecut, int *part);
inline void kaffpa(int *n, int *vwgt, int *xadj, int *adjcwgt, int *adjncy, int *nparts, double *imbalance, bool suppress_output, int seed, int mode, int *edgecut, int *part) { kaffpa(n, vwgt, xadj, adjcwgt, adjncy, nparts, imbalance, suppress_output, seed, mode, 1, edgecut, part); }
