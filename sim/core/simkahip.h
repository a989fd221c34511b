#pragma once
#include <functional>
namespace simkahip { struct Call { int n, k; const int *xadj, *adjncy, *adjcwgt; }; extern std::function<void(const Call &)> observer; }
