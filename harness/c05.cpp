// contains_local, gauss nodes, boundary tables, constructors
#include "geom.hpp"
#include "elems.hpp"
#include <utility>
using namespace vh;
#define X(NAME, ...) \
extern "C" long long NAME##_contains(const double * n, const double * xi, double eps) { using E = __VA_ARGS__; E e = Make<E>::of(n); return e.contains_local(rd_vec<typename E::LocalCoordinates>(xi), eps) ? 1 : 0; } \
extern "C" long long NAME##_contains_d(const double * n, const double * xi) { using E = __VA_ARGS__; E e = Make<E>::of(n); return e.contains_local(rd_vec<typename E::LocalCoordinates>(xi)) ? 1 : 0; } \
extern "C" void NAME##_gauss(const double * n, double * pos, double * w, double * pos2, double * w2, long long * cnt) { using E = __VA_ARGS__; E e = Make<E>::of(n); \
    const auto & g = e.gauss_nodes(); const unsigned d = E::CanonicalDimension; \
    for (unsigned i = 0; i < 16; ++i) { w[i] = w2[i] = 0; for (unsigned j = 0; j < d; ++j) pos[i * d + j] = pos2[i * d + j] = 0; } \
    for (unsigned i = 0; i < g.size() && i < 16; ++i) { w[i] = g[i].weight; for (unsigned j = 0; j < d; ++j) pos[i * d + j] = g[i].position[j]; \
        const auto & h = e.gauss_node(i); w2[i] = h.weight; for (unsigned j = 0; j < d; ++j) pos2[i * d + j] = h.position[j]; } \
    cnt[0] = g.size(); cnt[1] = e.number_of_gauss_nodes(); cnt[2] = E::NumberOfGaussNodesAtCompileTime; }
ELEMS
#undef X
#if PART != 1
template <class T> void wt(const T & t, long long * o, long long cap) { long long k = 0; for (const auto & r : t) for (const auto & x : r) { if (k < cap) o[k] = (long long) x; ++k; } }
#define X(NAME, ...) \
extern "C" long long NAME##_nb(const double * n) { using E = __VA_ARGS__; E e = Make<E>::of(n); return (long long) e.number_of_boundary_elements(); } \
extern "C" long long NAME##_nbc() { using E = __VA_ARGS__; return (long long) traits<E>::NumberOfBoundaryElementsAtCompileTime; } \
extern "C" long long NAME##_bnd(const double * n, long long * o) { using E = __VA_ARGS__; E e = Make<E>::of(n); const auto & t = e.boundary_elements_node_indices(); wt(t, o, 48); return (long long) t.size(); } \
extern "C" long long NAME##_edges(const double * n, long long * o) { using E = __VA_ARGS__; E e = Make<E>::of(n); const auto t = e.edges(); wt(t, o, 36); return (long long) t.size(); } \
extern "C" void NAME##_bel(const double * n, long long i, double * o, long long * idx) { using E = __VA_ARGS__; E e = Make<E>::of(n); auto b = e.boundary_element((UNSIGNED_INTEGER_TYPE) i); wr(b.nodes(), o); long long k = 0; for (const auto & x : e.boundary_elements_node_indices()[i]) idx[k++] = (long long) x; }
ELEMS
#undef X
#else
#define X(NAME, ...) extern "C" long long NAME##_nb(const double * n) { using E = __VA_ARGS__; E e = Make<E>::of(n); return (long long) e.number_of_boundary_elements(); }
ELEMS
#undef X
#endif
#if PART == 4 || PART == 5 || PART == 7
#define X(NAME, ...) extern "C" long long NAME##_faces(const double * n, long long * o) { using E = __VA_ARGS__; E e = Make<E>::of(n); const auto t = e.faces(); wt(t, o, 48); return (long long) t.size(); }
ELEMS
#undef X
#endif
// constructors
#define X(NAME, ...) extern "C" void NAME##_def(double * o) { using E = __VA_ARGS__; E e; wr(e.nodes(), o); }
ELEMS
#undef X
#if PART <= 5
template <class E, size_t... I> E series(const double * n, std::index_sequence<I...>) { return E(rd_vec<typename E::WorldCoordinates>(n + I * E::Dimension)...); }
template <class E, size_t... I> E series_lv(const double * n, std::index_sequence<I...>) { typename E::WorldCoordinates p[] = {rd_vec<typename E::WorldCoordinates>(n + I * E::Dimension)...}; return E(p[I]...); }
#define X(NAME, ...) extern "C" void NAME##_series(const double * n, double * o) { using E = __VA_ARGS__; wr(series<E>(n, std::make_index_sequence<E::NumberOfNodesAtCompileTime>()).nodes(), o); } \
  extern "C" void NAME##_lref(const double * n, double * o) { using E = __VA_ARGS__; auto N = rd_nodes<E>(n); E e(N); wr(e.nodes(), o); }
ELEMS
#undef X
template <class L, class Q, int C> void from_linear(const double * n, double * o, double * o2, double * o3) {
    L l = Make<L>::of(n); Q q(l); wr(q.nodes(), o); wr(series<Q>(n, std::make_index_sequence<C>()).nodes(), o2); wr(series_lv<Q>(n, std::make_index_sequence<C>()).nodes(), o3); }
#define FL(NAME, C, L, Q) extern "C" void NAME##_fromlin(const double * n, double * o, double * o2, double * o3) { from_linear<L, Q, C>(n, o, o2, o3); }
#define COMMA ,
#if PART == 2
FL(Tri2Q, 3, Triangle<2 COMMA Linear>, Triangle<2 COMMA Quadratic>)
FL(Tri3Q, 3, Triangle<3 COMMA Linear>, Triangle<3 COMMA Quadratic>)
#elif PART == 3
FL(Quad2Q, 4, Quad<2 COMMA Linear>, Quad<2 COMMA Quadratic>)
FL(Quad3Q, 4, Quad<3 COMMA Linear>, Quad<3 COMMA Quadratic>)
#elif PART == 4
FL(TetQ, 4, Tetrahedron<Linear>, Tetrahedron<Quadratic>)
#elif PART == 5
FL(HexQ, 8, Hexahedron<Linear>, Hexahedron<Quadratic>)
#endif
#endif
