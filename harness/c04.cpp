#include "geom.hpp"
#include "elems.hpp"
using namespace vh;
#define X(NAME, ...) \
extern "C" void NAME##_loc(const double * n, const double * x, double * out) { using E = __VA_ARGS__; E e = Make<E>::of(n); wr(e.local_coordinates(rd_vec<typename E::WorldCoordinates>(x)), out); } \
extern "C" void NAME##_rt(const double * n, const double * xi, double * out) { using E = __VA_ARGS__; E e = Make<E>::of(n); wr(e.local_coordinates(e.world_coordinates(rd_vec<typename E::LocalCoordinates>(xi))), out); }
ELEMS
#undef X
#if PART != 7
#define X(NAME, ...) \
extern "C" void NAME##_loc4(const double * n, const double * x, const double * s, double tol, long long maxit, double * out) { using E = __VA_ARGS__; E e = Make<E>::of(n); \
    wr(e.local_coordinates(rd_vec<typename E::WorldCoordinates>(x), rd_vec<typename E::LocalCoordinates>(s), tol, (UNSIGNED_INTEGER_TYPE) maxit), out); }
ELEMS
#undef X
#else
#define X(NAME, ...) \
extern "C" void NAME##_wl(const double * n, const double * x, double * out) { using E = __VA_ARGS__; E e = Make<E>::of(n); wr(e.world_coordinates(e.local_coordinates(rd_vec<typename E::WorldCoordinates>(x))), out); } \
extern "C" long long NAME##_has(const double * n, const double * x) { using E = __VA_ARGS__; E e = Make<E>::of(n); return e.contains(rd_vec<typename E::WorldCoordinates>(x)) ? 1 : 0; }
ELEMS
#undef X
#endif
