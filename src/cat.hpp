// small catalogue of shapes shared by several harnesses
#pragma once
#include "prob.hpp"
inline std::vector<Prob> catalogue(bool more) {
    std::vector<Prob> C; auto add = [&](int n, int m, int p, V P, V c, V G, V h, V A, V b, const char *t) { Prob q; q.n = n; q.m = m; q.p = p; q.P = P; q.c = c; q.G = G; q.h = h; q.A = A; q.b = b; q.tag = t; C.push_back(q); };
    add(1, 1, 0, {1}, {-1}, {1}, {0}, {}, {}, "single-variable"); add(2, 2, 1, {1, 0, 0, 0}, {0, 1}, {0, -1, 0, 1}, {0, 4}, {1, 1}, {1}, "zero-column-of-P"); add(2, 2, 0, {2, 1, 1, 2}, {-3, 1}, {1, 1, -1, 2}, {1, 3}, {}, {}, "two-variables");
    add(1, 2, 0, {1}, {0}, {1, -1}, {-1, -1}, {}, {}, "infeasible"); add(1, 3, 0, {0}, {1}, {-1, 1, 0}, {0, 5, 1}, {}, {}, "zero-P+zero-row"); add(1, 1, 1, {1}, {0}, {1}, {2}, {1}, {1}, "single-variable+equality");
    C.push_back(structured(6, 3, 1)); C.push_back(structured(3, 2, 1)); C.push_back(structured(2, 4, 2)); C.push_back(structured(0, 6, 2));
    if (more) { add(2, 1, 0, {0, 0, 0, 0}, {-1, 0}, {0, 1}, {1}, {}, {}, "unbounded"); add(2, 1, 0, {2, 0, 0, 1}, {1, 1}, {0, 0}, {1}, {}, {}, "zero-G"); for (int k : {1, 4, 5, 7, 8, 9, 10, 13, 14, 15}) C.push_back(structured(k, 5, 1 + k % 3)); }
    return C;
}
