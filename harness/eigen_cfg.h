// Force-included: Eigen's own bound checks stay active in NDEBUG builds and abort with a readable message.
#pragma once
#include <cstdio>
#include <cstdlib>
#define eigen_assert(X) \
    do { if (!(X)) { std::fprintf(stderr, "EIGEN-ASSERT %s at %s:%d\n", #X, __FILE__, __LINE__); std::abort(); } } while (0)
