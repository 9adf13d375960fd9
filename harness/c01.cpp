#include "geom.hpp"
#include "elems.hpp"
using namespace vh;
#define X(NAME, ...) \
extern "C" void NAME##_L (const double * xi, double * out) { using E = __VA_ARGS__; E e; wr(e.L(rd_vec<typename E::LocalCoordinates>(xi)), out); } \
extern "C" void NAME##_dL(const double * xi, double * out) { using E = __VA_ARGS__; E e; wr(e.dL(rd_vec<typename E::LocalCoordinates>(xi)), out); } \
extern "C" void NAME##_cn(double * out) { using E = __VA_ARGS__; E e; wr(e.nodes(), out); }
ELEMS
