// rectangular elements built from general ones, frames and normals
#include "geom.hpp"
using namespace vh;
typedef Quad<2, Linear> TQ2L; typedef Quad<2, Quadratic> TQ2Q; typedef Quad<3, Linear> TQ3L; typedef Quad<3, Quadratic> TQ3Q;
typedef RectangularQuad<2, Linear> TRQ2L; typedef RectangularQuad<2, Quadratic> TRQ2Q; typedef RectangularQuad<3, Linear> TRQ3L; typedef RectangularQuad<3, Quadratic> TRQ3Q;
typedef Triangle<3, Linear> TT3L; typedef Triangle<3, Quadratic> TT3Q;
#define RECT(NAME, G, RE) extern "C" void NAME(const double * n, double * o) { G g = Make<G>::of(n); RE r(g); wr(r.nodes(), o); }
#define MAT(NAME, G, RE) \
 extern "C" void NAME##_m(const double * n, double * o) { auto N = rd_nodes<G>(n); RE r(N); wr(r.nodes(), o); } \
 extern "C" void NAME##_cm(const double * n, double * o) { const auto N = rd_nodes<G>(n); RE r(N); wr(r.nodes(), o); }
#define RW(N, G, RE) RECT(N, G, RE) MAT(N, G, RE)
#define CTORS(NAME, RE) \
 extern "C" void NAME##_c(const double * c, double * o) { RE r(rd_vec<typename RE::WorldCoordinates>(c)); wr(r.nodes(), o); } \
 extern "C" void NAME##_ch(const double * c, const double * h, double * o) { RE r(rd_vec<typename RE::WorldCoordinates>(c), rd_vec<typename RE::Size>(h)); wr(r.nodes(), o); wr(r.size(), o + RE::NumberOfNodesAtCompileTime * RE::Dimension); wr(r.rotation(), o + RE::NumberOfNodesAtCompileTime * RE::Dimension + r.size().size()); } \
 extern "C" void NAME##_cr(const double * c, const double * R, double * o) { RE r(rd_vec<typename RE::WorldCoordinates>(c), rd_mat<typename RE::Rotation>(R)); wr(r.nodes(), o); wr(r.size(), o + RE::NumberOfNodesAtCompileTime * RE::Dimension); wr(r.rotation(), o + RE::NumberOfNodesAtCompileTime * RE::Dimension + r.size().size()); }
#define FRAME(NAME, G) extern "C" void NAME##_frame(const double * n, const double * xi, double * o) { G g = Make<G>::of(n); wr(g.frame(rd_vec<typename G::LocalCoordinates>(xi)), o); } \
 extern "C" void NAME##_frame0(const double * n, double * o) { G g = Make<G>::of(n); wr(g.frame(), o); }
#if PART == 1
RW(Quad2L_RQuad2L, TQ2L, TRQ2L)
RW(Quad2Q_RQuad2Q, TQ2Q, TRQ2Q)
RECT(Quad2L_RQuad2Q, TQ2L, TRQ2Q)
CTORS(RQuad2L, TRQ2L)
CTORS(RQuad2Q, TRQ2Q)
FRAME(Quad2L, TQ2L) FRAME(Quad2Q, TQ2Q)
#elif PART == 2
RW(Quad3L_RQuad3L, TQ3L, TRQ3L)
RW(Quad3Q_RQuad3Q, TQ3Q, TRQ3Q)
RECT(Quad3L_RQuad3Q, TQ3L, TRQ3Q)
CTORS(RQuad3L, TRQ3L)
CTORS(RQuad3Q, TRQ3Q)
FRAME(Quad3L, TQ3L) FRAME(Quad3Q, TQ3Q)
extern "C" void Tri3L_normal(const double * n, double * o) { auto t = Make<TT3L>::of(n); wr(t.normal(), o); }
extern "C" void Tri3Q_normal(const double * n, double * o) { auto t = Make<TT3Q>::of(n); wr(t.normal(), o); }
#else
RW(HexL_RHexL, Hexahedron<Linear>, RectangularHexahedron<Linear>)
RW(HexQ_RHexQ, Hexahedron<Quadratic>, RectangularHexahedron<Quadratic>)
RW(HexL_RHexQ, Hexahedron<Linear>, RectangularHexahedron<Quadratic>)
CTORS(RHexL, RectangularHexahedron<Linear>)
CTORS(RHexQ, RectangularHexahedron<Quadratic>)
FRAME(HexL, Hexahedron<Linear>) FRAME(HexQ, Hexahedron<Quadratic>)
extern "C" void TetL_frame0(const double * n, double * o) { auto t = Make<Tetrahedron<Linear>>::of(n); wr(t.frame(), o); }
extern "C" void TetQ_frame0(const double * n, double * o) { auto t = Make<Tetrahedron<Quadratic>>::of(n); wr(t.frame(), o); }
#endif
