#include "geom.hpp"
#include "elems.hpp"
using namespace vh;
#define X(NAME, ...) \
extern "C" void NAME##_world(const double * n, const double * xi, double * out) { using E = __VA_ARGS__; E e = Make<E>::of(n); wr(e.world_coordinates(rd_vec<typename E::LocalCoordinates>(xi)), out); } \
extern "C" void NAME##_jac(const double * n, const double * xi, double * out) { using E = __VA_ARGS__; E e = Make<E>::of(n); wr(e.jacobian(rd_vec<typename E::LocalCoordinates>(xi)), out); } \
extern "C" void NAME##_center(const double * n, double * out) { using E = __VA_ARGS__; E e = Make<E>::of(n); wr(e.center(), out); } \
extern "C" void NAME##_nodes(const double * n, double * out, double * out2) { using E = __VA_ARGS__; E e = Make<E>::of(n); wr(e.nodes(), out); \
    for (unsigned i = 0; i < E::NumberOfNodesAtCompileTime; ++i) wr(e.node(i).transpose(), out2 + i * E::Dimension); } \
extern "C" long long NAME##_nn(const double * n) { using E = __VA_ARGS__; E e = Make<E>::of(n); return e.number_of_nodes(); } \
extern "C" double NAME##_interp1(const double * n, const double * xi, const double * vals) { using E = __VA_ARGS__; E e = Make<E>::of(n); \
    Eigen::Matrix<double, E::NumberOfNodesAtCompileTime, 1> v = rd_vec<Eigen::Matrix<double, E::NumberOfNodesAtCompileTime, 1>>(vals); \
    return e.interpolate(rd_vec<typename E::LocalCoordinates>(xi), v); } \
extern "C" void NAME##_interp2(const double * n, const double * xi, const double * vals, double * out) { using E = __VA_ARGS__; E e = Make<E>::of(n); \
    auto v = rd_mat<Eigen::Matrix<double, E::NumberOfNodesAtCompileTime, 2>>(vals); \
    Eigen::Matrix<double, 2, 1> r = e.interpolate(rd_vec<typename E::LocalCoordinates>(xi), v); wr(r, out); }
ELEMS
#if PART == 6
#undef X
#define X(NAME, ...) extern "C" void NAME##_T(const double * n, const double * xi, double * out) { using E = __VA_ARGS__; E e = Make<E>::of(n); wr(e.T(rd_vec<typename E::LocalCoordinates>(xi)), out); }
ELEMS
#endif
