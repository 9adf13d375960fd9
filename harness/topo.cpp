// Mesh and Domain wrappers (compiled with -fno-access-control: the node matrix of the mesh is laid over the caller's buffer)
#include "geom.hpp"
#include "elems.hpp"
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <new>
using namespace vh;
using namespace caribou::topology;
typedef long long ll;
typedef UNSIGNED_INTEGER_TYPE ull;
template <int D> struct RawMesh {          // never destroyed: the buffer is not ours
    alignas(16) unsigned char raw[sizeof(Mesh<D>)];
    Mesh<D> * m;
    RawMesh(const double * x, ll n) { m = new (raw) Mesh<D>(); m->p_nodes.p_nodes.m_storage.m_data = const_cast<double *>(x); m->p_nodes.p_nodes.m_storage.m_rows = n; }
};
#define DIM(D) \
extern "C" ll m##D##_count(const double * x, ll n) { RawMesh<D> m(x, n); return (ll) m.m->number_of_nodes(); } \
extern "C" void m##D##_node(const double * x, ll n, ll i, double * o) { RawMesh<D> m(x, n); const BaseMesh * b = m.m; auto p = b->node((ull) i); for (int k = 0; k < 3; ++k) o[k] = p[k]; } \
extern "C" void m##D##_position(const double * x, ll n, ll i, double * o) { RawMesh<D> m(x, n); auto p = m.m->position((ull) i); for (int k = 0; k < D; ++k) o[k] = p[k]; } \
extern "C" void m##D##_positions_c(const double * x, ll n, const ll * i, double * o) { RawMesh<D> m(x, n); const ll q[3] = {i[0], i[1], i[2]}; auto p = m.m->positions(q); wr(p, o); } \
extern "C" void m##D##_positions_a(const double * x, ll n, const ll * i, double * o) { RawMesh<D> m(x, n); std::array<ll, 3> q {{i[0], i[1], i[2]}}; auto p = m.m->positions(q); wr(p, o); } \
extern "C" void m##D##_positions_v(const double * x, ll n, const ll * i, double * o) { RawMesh<D> m(x, n); std::vector<ll> q {i[0], i[1], i[2]}; auto p = m.m->positions(q); wr(p, o); } \
extern "C" void m##D##_positions_e(const double * x, ll n, const ll * i, double * o) { RawMesh<D> m(x, n); Eigen::Matrix<ll, 3, 1> q (i[0], i[1], i[2]); auto p = m.m->positions(q); wr(p, o); } \
extern "C" void m##D##_positions_r(const double * x, ll n, const ll * i, double * o) { RawMesh<D> m(x, n); Eigen::Matrix<ll, 1, Eigen::Dynamic> q (3); q << i[0], i[1], i[2]; auto p = m.m->positions(q); wr(p, o); } \
extern "C" void m##D##_positions_s(const double * x, ll n, const ll * i, double * o) { RawMesh<D> m(x, n); const ll q[5] = {i[0], -1, i[1], -1, i[2]}; Eigen::Map<const Eigen::Matrix<ll, 3, 1>, Eigen::Unaligned, Eigen::InnerStride<2>> w(q); auto p = m.m->positions(w); wr(p, o); } \
extern "C" void m##D##_positions_b(const double * x, ll n, const ll * i, double * o) { RawMesh<D> m(x, n); Eigen::Matrix<ll, Eigen::Dynamic, 2, Eigen::RowMajor> q (3, 2); q << -1, i[0], -1, i[1], -1, i[2]; auto p = m.m->positions(q.col(1)); wr(p, o); } \
extern "C" void m##D##_ctor_v(const double * x, double * o, ll * c) { std::vector<typename Mesh<D>::WorldCoordinates> v; for (int i = 0; i < 3; ++i) { typename Mesh<D>::WorldCoordinates w; for (int k = 0; k < D; ++k) w[k] = x[i * D + k]; v.push_back(w); } \
    Mesh<D> m(v); v.clear(); c[0] = (ll) m.number_of_nodes(); c[1] = (ll) m.dimension(); c[2] = (ll) m.number_of_domains(); for (int i = 0; i < 3; ++i) for (int k = 0; k < D; ++k) o[i * D + k] = m.position(i)[k]; } \
extern "C" void m##D##_ctor_e(const double * x, double * o, ll * c) { Eigen::Matrix<double, Eigen::Dynamic, D, D == 1 ? Eigen::ColMajor : Eigen::RowMajor> v(3, D); for (int i = 0; i < 3; ++i) for (int k = 0; k < D; ++k) v(i, k) = x[i * D + k]; \
    Mesh<D> m(v); v.setZero(); c[0] = (ll) m.number_of_nodes(); c[1] = (ll) m.dimension(); c[2] = (ll) m.number_of_domains(); for (int i = 0; i < 3; ++i) for (int k = 0; k < D; ++k) o[i * D + k] = m.position(i)[k]; } \
extern "C" void m##D##_ctor_x(const double * x, double * o, ll * c) { Eigen::MatrixXd v(3, D); for (int i = 0; i < 3; ++i) for (int k = 0; k < D; ++k) v(i, k) = x[i * D + k]; \
    Mesh<D> m(v); v.setZero(); c[0] = (ll) m.number_of_nodes(); c[1] = (ll) m.dimension(); c[2] = (ll) m.number_of_domains(); for (int i = 0; i < 3; ++i) for (int k = 0; k < D; ++k) o[i * D + k] = m.position(i)[k]; } \
extern "C" void m##D##_copy(const double * x, const double * y, double * o, ll * c) { Eigen::MatrixXd v(3, D), w(2, D); for (int i = 0; i < 3; ++i) for (int k = 0; k < D; ++k) v(i, k) = x[i * D + k]; for (int i = 0; i < 2; ++i) for (int k = 0; k < D; ++k) w(i, k) = y[i * D + k]; \
    Mesh<D> m(v); Mesh<D> q(m); Mesh<D> e(w); m = e; c[0] = (ll) q.number_of_nodes(); c[1] = (ll) m.number_of_nodes(); c[2] = (ll) e.number_of_nodes(); Mesh<D> r(std::move(m)); c[3] = (ll) r.number_of_nodes(); \
    for (int i = 0; i < 3; ++i) for (int k = 0; k < D; ++k) o[i * D + k] = q.position(i)[k]; for (int i = 0; i < 2; ++i) for (int k = 0; k < D; ++k) { o[(3 + i) * D + k] = r.position(i)[k]; o[(5 + i) * D + k] = e.position(i)[k]; } }
#if PART == 0
DIM(1) DIM(2) DIM(3)
#else
#define X(NAME, ...) \
extern "C" void NAME##_dcounts(const ll * idx, ll ne, ll os, ll is, ll * o) { using E = __VA_ARGS__; Domain<E> d(nullptr, reinterpret_cast<const ull *>(idx), ne, E::NumberOfNodesAtCompileTime, os, is); const BaseDomain & b = d; o[0] = (ll) b.number_of_elements(); o[1] = (ll) b.number_of_nodes_per_elements(); o[2] = (ll) b.canonical_dimension(); o[3] = b.mesh() == nullptr; } \
extern "C" void NAME##_dindices(const ll * idx, ll ne, ll os, ll is, ll e, ll * o) { using E = __VA_ARGS__; Domain<E> d(nullptr, reinterpret_cast<const ull *>(idx), ne, E::NumberOfNodesAtCompileTime, os, is); auto q = d.element_indices((ull) e); for (int i = 0; i < (int) E::NumberOfNodesAtCompileTime; ++i) o[i] = (ll) q[i]; } \
extern "C" void NAME##_delement(const double * x, ll n, const ll * idx, ll ne, ll os, ll is, ll e, double * o) { using E = __VA_ARGS__; RawMesh<E::Dimension> m(x, n); Domain<E> d(m.m, reinterpret_cast<const ull *>(idx), ne, E::NumberOfNodesAtCompileTime, os, is); const E el = d.element((ull) e); wr(el.nodes(), o); } \
extern "C" void NAME##_delementd(const double * x, ll n, const ll * idx, ll ne, ll e, double * o) { using E = __VA_ARGS__; RawMesh<E::Dimension> m(x, n); Domain<E> d(m.m, reinterpret_cast<const ull *>(idx), ne, E::NumberOfNodesAtCompileTime); const E el = d.element((ull) e); wr(el.nodes(), o); } \
extern "C" void NAME##_delementp(const double * x, ll n, const ll * idx, ll ne, ll e, double * o) { using E = __VA_ARGS__; Domain<E> d(nullptr, reinterpret_cast<const ull *>(idx), ne, E::NumberOfNodesAtCompileTime); \
    Eigen::Map<const Eigen::Matrix<double, Eigen::Dynamic, E::Dimension, E::Dimension == 1 ? Eigen::ColMajor : Eigen::RowMajor>> P(x, n, E::Dimension); const E el = d.element((ull) e, P); wr(el.nodes(), o); } \
template <class DD> void put_##NAME(const DD & d, const BaseMesh * m, ll * o) { o[0] = (ll) d.number_of_elements(); o[1] = (ll) d.number_of_nodes_per_elements(); o[2] = d.mesh() == m ? 1 : d.mesh() == nullptr ? 0 : -1; ll k = 3; for (int e = 0; e < 2; ++e) { auto q = d.element_indices(e); for (int i = 0; i < q.size(); ++i) o[k++] = (ll) q[i]; } } \
extern "C" void NAME##_dcopy(const ll * idx, ll * o1, ll * o2, ll * o3, ll * o4, ll * o5) { using E = __VA_ARGS__; using DD = Domain<E>; RawMesh<E::Dimension> m(nullptr, 0); \
    typename DD::ElementsIndices I(2, (int) E::NumberOfNodesAtCompileTime); for (int e = 0; e < 2; ++e) for (int i = 0; i < I.cols(); ++i) I(e, i) = (ull) idx[e * I.cols() + i]; const typename DD::ElementsIndices C = I; \
    DD ref(m.m, &C); put_##NAME(ref, m.m, o2); \
    DD * d = new DD(m.m, I); I.setConstant(12345); put_##NAME(*d, m.m, o1); \
    DD refc(ref); put_##NAME(refc, m.m, o3); \
    BaseDomain * c = d->clone(); delete d; put_##NAME(*static_cast<DD *>(c), m.m, o4); \
    c->attach_to(m.m); DD mv(std::move(*static_cast<DD *>(c))); delete c; put_##NAME(mv, m.m, o5); } \
template <class DD> void row_##NAME(const DD & d, const BaseMesh * m, ll e, ll * o) { o[0] = (ll) d.number_of_elements(); o[1] = (ll) d.number_of_nodes_per_elements(); o[2] = d.mesh() == m ? 1 : d.mesh() == nullptr ? 0 : -1; auto q = d.element_indices((ull) e); for (int i = 0; i < q.size(); ++i) o[3 + i] = (ll) q[i]; } \
extern "C" void NAME##_dstrided(const ll * idx, ll ne, ll os, ll is, ll e, ll * o1, ll * o2, ll * o3, ll * o4) { using E = __VA_ARGS__; using DD = Domain<E>; RawMesh<E::Dimension> m(nullptr, 0); \
    DD s(m.m, reinterpret_cast<const ull *>(idx), ne, E::NumberOfNodesAtCompileTime, os, is); DD c(s); row_##NAME(c, m.m, e, o1); DD mv(std::move(c)); row_##NAME(mv, m.m, e, o2); \
    typename DD::ElementsIndices I(1, (int) E::NumberOfNodesAtCompileTime); for (int i = 0; i < I.cols(); ++i) I(0, i) = (ull) (7 + i); DD w(nullptr, I); swap(w, s); row_##NAME(w, m.m, e, o3); row_##NAME(s, m.m, 0, o4); }
ELEMS
#undef X
#endif
