// intersection of hexahedra with segments and triangles
#include "geom.hpp"
using namespace vh;
#define W(i) rd_vec<typename E::WorldCoordinates>(x + 3 * i)
#define X(NAME, ...) \
extern "C" long long NAME##_seg(const double * n, const double * x) { using E = __VA_ARGS__; E e = Make<E>::of(n); return e.intersects(Segment<_3D, Linear>(W(0), W(1))) ? 1 : 0; } \
extern "C" long long NAME##_tri(const double * n, const double * x) { using E = __VA_ARGS__; E e = Make<E>::of(n); return e.intersects(Triangle<_3D, Linear>(W(0), W(1), W(2))) ? 1 : 0; } \
extern "C" long long NAME##_has(const double * n, const double * x) { using E = __VA_ARGS__; E e = Make<E>::of(n); return HAS(e, W(0)) ? 1 : 0; }
#define HAS(e, x) e.contains_local(e.local_coordinates(x))
X(HexL, Hexahedron<Linear>)
X(HexQ, Hexahedron<Quadratic>)
#undef HAS
#define HAS(e, x) e.contains(x)
X(RHexL, RectangularHexahedron<Linear>)
X(RHexQ, RectangularHexahedron<Quadratic>)
