// Stand-in for KaHIP's kaffpa (not installed): a deterministic partition of the vertices, shape chosen by the seed.
// Like kaffpa it gives every vertex a block in [0,nparts); blocks are non-empty when there are enough vertices.
#include "sim.h"
#include "kaHIP_interface.h"
#include "simkahip.h"
#include <iostream>
#include <vector>
namespace simkahip { std::function<void(const Call &)> observer; }
void kaffpa(int *n, int *, int *xadj, int *adjcwgt, int *adjncy, int *nparts, double *, bool quiet, int seed, int, int, int *edgecut, int *part) {
    sim::NoPreempt np;
    int N = *n, K = *nparts;
    if (simkahip::observer) simkahip::observer(simkahip::Call{N, K, xadj, adjncy, adjcwgt});
    if (!quiet) std::cout << "io: log of the graph partitioner\n";          // as KaHIP does unless told otherwise
    if (K < 2) { for (int i = 0; i < N; ++i) part[i] = -1; *edgecut = 0; return; }   // KaHIP does not cope with a single block
    int mode = (int) ((uint32_t) seed % 3);                                          // like kaffpa, a function of graph and seed
    if (mode == 1 || N < K) { for (int i = 0; i < N; ++i) part[i] = i % K; }
    else {
        std::vector<int> order; std::vector<char> seen((size_t) N, 0);
        if (mode == 0) for (int s = 0; s < N; ++s) {           // breadth-first order cut into equal chunks
            if (seen[(size_t) s]) continue;
            size_t head = order.size(); order.push_back(s); seen[(size_t) s] = 1;
            while (head < order.size()) { int v = order[head++]; for (int e = xadj[v]; e < xadj[v + 1]; ++e) { int w = adjncy[e]; if (w >= 0 && w < N && !seen[(size_t) w]) { seen[(size_t) w] = 1; order.push_back(w); } } }
        } else for (int i = 0; i < N; ++i) order.push_back(i);
        for (int i = 0; i < N; ++i) part[order[(size_t) i]] = (int) ((long long) i * K / N);
    }
    int cut = 0; for (int v = 0; v < N; ++v) for (int e = xadj[v]; e < xadj[v + 1]; ++e) if (adjncy[e] >= 0 && adjncy[e] < N && part[v] != part[adjncy[e]]) cut += adjcwgt ? adjcwgt[e] : 1;
    *edgecut = cut / 2;
}
