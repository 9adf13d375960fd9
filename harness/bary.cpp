// BarycentricContainer wrappers: a domain of two elements over 2N+1 nodes
#include "geom.hpp"
#include "elems.hpp"
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <Caribou/Topology/BarycentricContainer.h>
using namespace vh;
using namespace caribou::topology;
typedef long long ll;
typedef UNSIGNED_INTEGER_TYPE ull;
template <class E> struct World {
    static constexpr int N = E::NumberOfNodesAtCompileTime, D = E::Dimension, NB = 2 * N + 1;
    using Dm = Domain<E>; using B = BarycentricContainer<Dm>;
    Eigen::Matrix<double, NB, D> P; Mesh<D> m; typename Dm::ElementsIndices I; Dm d;
    static typename Dm::ElementsIndices ind(const ll * idx, int ne) { typename Dm::ElementsIndices r(ne, N); for (int e = 0; e < ne; ++e) for (int a = 0; a < N; ++a) r(e, a) = (ull) idx[e * N + a]; return r; }
    World(const double * x, const ll * idx, int ne = 2) : P(rd_mat<Eigen::Matrix<double, NB, D>>(x)), m(P), I(ind(idx, ne)), d(&m, I) {}
};
template <class V> static void wv(const V & v, double * o) { for (int i = 0; i < v.size(); ++i) o[i] = v[i]; }
// the observers of the hash grid
template <class G> __attribute__((noinline)) double vh_cellsize(const G & g) { return g.p_cell_size; }
template <class G> __attribute__((noinline)) ll vh_present(const G & g, ll id) { for (const auto & e : g.p_hash_table) for (auto x : e.second) if ((ll) x == id) return 1; return 0; }
__attribute__((noinline)) ll vh_ssize(const std::set<ull> & s) { return (ll) s.size(); }
#define X(NAME, ...) \
extern "C" void NAME##_bctor(const double * x, const ll * idx, double * o, ll * c) { using W = World<__VA_ARGS__>; W w(x, idx); typename W::B b(&w.d); o[0] = vh_cellsize(*b.p_hash_grid); for (int e = 0; e < 4; ++e) c[e] = vh_present(*b.p_hash_grid, e); c[4] = (ll) b.barycentric_points().size(); c[5] = (ll) b.outside_nodes().size(); } \
extern "C" void NAME##_bpoint(const double * x, const ll * idx, const double * p, ll * i, double * o) { using W = World<__VA_ARGS__>; W w(x, idx); typename W::B b(&w.d); const auto r = b.barycentric_point(rd_vec<typename W::B::WorldCoordinates>(p)); i[0] = r.element_index; wv(r.local_coordinates, o); } \
extern "C" void NAME##_bclosest(const double * x, const ll * idx, const double * p, ll * i, double * o) { using W = World<__VA_ARGS__>; W w(x, idx); typename W::B b(&w.d); const auto r = b.closest_elements(rd_vec<typename W::B::WorldCoordinates>(p)); i[0] = (ll) r.size(); i[1] = i[2] = -9; \
    for (int k = 0; k < 2; ++k) { constexpr int cd = W::B::LocalCoordinates::RowsAtCompileTime; if (k < (int) r.size()) { i[1 + k] = r[k].element_index; wv(r[k].local_coordinates, o + k * cd); } else for (int j = 0; j < cd; ++j) o[k * cd + j] = 0; } } \
template <class M> static void embed_##NAME(const double * x, const ll * idx, const M & Q, ll * i, double * o) { using W = World<__VA_ARGS__>; W w(x, idx); typename W::B b(&w.d, Q); \
    i[0] = (ll) b.barycentric_points().size(); i[1] = (ll) b.outside_nodes().size(); for (int k = 0; k < 6; ++k) i[2 + k] = -9; constexpr int cd = W::B::LocalCoordinates::RowsAtCompileTime; \
    for (int k = 0; k < 3; ++k) { if (k < i[0]) { i[2 + k] = b.barycentric_points()[k].element_index; wv(b.barycentric_points()[k].local_coordinates, o + k * cd); } else for (int j = 0; j < cd; ++j) o[k * cd + j] = 0; if (k < i[1]) i[5 + k] = (ll) b.outside_nodes()[k]; } } \
extern "C" void NAME##_bembed(const double * x, const ll * idx, const double * q, ll * i, double * o) { embed_##NAME(x, idx, rd_mat<Eigen::Matrix<double, 3, World<__VA_ARGS__>::D>>(q), i, o); } \
extern "C" void NAME##_bembedd(const double * x, const ll * idx, const double * q, ll * i, double * o) { Eigen::MatrixXd Q(3, World<__VA_ARGS__>::D); for (int r = 0; r < 3; ++r) for (int c = 0; c < Q.cols(); ++c) Q(r, c) = q[r * Q.cols() + c]; embed_##NAME(x, idx, Q, i, o); }
// interpolation: the embedded points are given
#define Y(NAME, ...) \
template <class V, class O> static void interp_##NAME(const double * x, const ll * idx, const ll * el, const double * xi, const V & f, O & out) { using W = World<__VA_ARGS__>; W w(x, idx); typename W::B b(&w.d); using L = typename W::B::LocalCoordinates; constexpr int cd = L::RowsAtCompileTime; \
    for (int k = 0; k < 3; ++k) { b.p_barycentric_points.emplace_back(el[k], rd_vec<L>(xi + k * cd)); if (el[k] < 0) b.p_outside_nodes.emplace_back((ull) k); } b.interpolate(f, out); } \
extern "C" void NAME##_binterp1(const double * x, const ll * idx, const ll * el, const double * xi, const double * f, double * io) { constexpr int NB = World<__VA_ARGS__>::NB; Eigen::Matrix<double, NB, 1> F; for (int i = 0; i < NB; ++i) F[i] = f[i]; Eigen::Matrix<double, 3, 1> O; for (int i = 0; i < 3; ++i) O[i] = io[i]; interp_##NAME(x, idx, el, xi, F, O); for (int i = 0; i < 3; ++i) io[i] = O[i]; } \
extern "C" void NAME##_binterp2(const double * x, const ll * idx, const ll * el, const double * xi, const double * f, double * io) { constexpr int NB = World<__VA_ARGS__>::NB; auto F = rd_mat<Eigen::Matrix<double, NB, 2, Eigen::RowMajor>>(f); auto O = rd_mat<Eigen::Matrix<double, 3, 2>>(io); interp_##NAME(x, idx, el, xi, F, O); wr(O, io); } \
extern "C" void NAME##_binterpd(const double * x, const ll * idx, const ll * el, const double * xi, const double * f, double * io) { constexpr int NB = World<__VA_ARGS__>::NB; Eigen::MatrixXd F(NB, 2), O(3, 2); for (int i = 0; i < NB; ++i) for (int j = 0; j < 2; ++j) F(i, j) = f[i * 2 + j]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) O(i, j) = io[i * 2 + j]; interp_##NAME(x, idx, el, xi, F, O); for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) io[i * 2 + j] = O(i, j); }
#ifdef VH_NATIVE
#define TRY(S) try { S; } catch (const std::runtime_error &) { vh_threw = 1; }
#else
#define TRY(S) S;
#endif
#define Z(NAME, ...) \
extern "C" void NAME##_bempty(const double * x, const ll * idx, ll ne) { using W = World<__VA_ARGS__>; W w(x, idx, (int) ne); TRY(typename W::B b(&w.d)) } \
extern "C" void NAME##_bsizes(const double * x, const ll * idx, ll fr, ll fc, ll er, ll ec) { using W = World<__VA_ARGS__>; W w(x, idx); typename W::B b(&w.d); using L = typename W::B::LocalCoordinates; for (int k = 0; k < 3; ++k) { b.p_barycentric_points.emplace_back(-1, L::Zero()); b.p_outside_nodes.emplace_back((ull) k); } \
    Eigen::Matrix<double, 1, 1> one; one[0] = 0; Eigen::Map<Eigen::MatrixXd> F(one.data(), fr, fc), O(one.data(), er, ec); TRY(b.interpolate(F, O)) } \
extern "C" void NAME##_bcols(const double * x, const ll * idx, ll qc) { using W = World<__VA_ARGS__>; W w(x, idx); Eigen::MatrixXd Q(0, qc); TRY(typename W::B b(&w.d, Q)) }
#if PART == 1
X(Seg1L, Segment<1, Linear>) Y(Seg1L, Segment<1, Linear>) X(Tri2L, Triangle<2, Linear>) Y(Tri2L, Triangle<2, Linear>) Z(Tri2L, Triangle<2, Linear>) Y(Tri2Q, Triangle<2, Quadratic>)
#elif PART == 2
X(TetL, Tetrahedron<Linear>) Y(TetL, Tetrahedron<Linear>) Z(TetL, Tetrahedron<Linear>)
#elif PART == 3
Y(Quad2L, Quad<2, Linear>) Y(HexL, Hexahedron<Linear>)
#endif
