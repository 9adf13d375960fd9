// CaribouTopology component and the bounding box of the force fields, through the SOFA stand-in headers (compiled with -fno-access-control)
#include "geom.hpp"
#include "elems.hpp"
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <SofaCaribou/Topology/CaribouTopology.inl>
#include <SofaCaribou/Forcefield/HyperelasticForcefield.inl>
#include <SofaCaribou/Forcefield/TractionForcefield.inl>
using namespace vh;
typedef long long ll;
namespace SofaCaribou::forcefield {   // specialised per element in the .cpp files of the plugin: drawing and names only
template <class E> void CaribouForcefield<E>::triangulate_face(const E &, const std::size_t &, std::vector<sofa::type::Vector3> &) {}
template <class E> auto CaribouForcefield<E>::templateName(const CaribouForcefield<E> *) -> std::string { return {}; }
}
template <class E> struct C {
    static constexpr int N = E::NumberOfNodesAtCompileTime, D = E::Dimension; using T = SofaCaribou::topology::CaribouTopology<E>; using PID = typename T::PointID; using VV = typename T::VecCoord;
    static VV pos(const double * x, ll n) { VV v; v.resize(n); for (int i = 0; i < n; ++i) for (int k = 0; k < D; ++k) v[i][k] = x[D * i + k]; return v; }
    static auto ind(const ll * idx, ll ne) { sofa::type::vector<sofa::type::fixed_array<PID, N>> v; v.resize(ne); for (int e = 0; e < ne; ++e) for (int a = 0; a < N; ++a) v[e][a] = (PID) idx[N * e + a]; return v; }
    static void out(const T & t, ll ne, double * o, ll * io, ll * c) {
        c[0] = t.domain() != nullptr; c[1] = (ll) t.number_of_elements(); c[2] = t.domain() && t.domain()->mesh() ? (ll) t.domain()->mesh()->number_of_nodes() : -1;
        for (int i = 0; i < ne * N * D; ++i) o[i] = 0;
        if (t.domain() && c[1] == ne) for (int e = 0; e < ne; ++e) { const auto X = t.element(e).nodes(); const auto r = t.domain()->element_indices(e); for (int a = 0; a < N; ++a) { io[N * e + a] = r[a]; for (int k = 0; k < D; ++k) o[(N * e + a) * D + k] = X(a, k); } } }
    // from: 0 data set; 1 the indices were never set; 2 initialised before with other data
    static void init(const double * x, ll nn, const ll * idx, ll ne, ll from, double * o, ll * io, ll * c) { T t; if (from == 2) { const double z[3] = {1, 2, 3}; ll i0[N] = {}; t.d_position.setValue(pos(z, 1)); t.d_indices.setValue(ind(i0, 1)); t.init(); } t.d_position.setValue(pos(x, nn)); if (from != 1) t.d_indices.setValue(ind(idx, ne)); t.init(); for (int i = 0; i < ne * N; ++i) io[i] = -1; out(t, ne, o, io, c); }
    static void attach(const double * x, ll nn, const ll * idx, ll ne, double * o, ll * io, ll * c) { using Dm = typename T::Domain; Eigen::Matrix<double, Eigen::Dynamic, D> P(nn, D); for (int i = 0; i < nn; ++i) for (int k = 0; k < D; ++k) P(i, k) = x[D * i + k]; caribou::topology::Mesh<D> m(P); typename Dm::ElementsIndices I(ne, N); for (int e = 0; e < ne; ++e) for (int a = 0; a < N; ++a) I(e, a) = (PID) idx[N * e + a];
        Dm d(&m, I); T t; ll i0[3 * N] = {}; t.d_indices.setValue(ind(i0, 3)); t.attachDomain(&d); out(t, ne, o, io, c); c[3] = t.domain() == &d; const auto & v = t.d_indices.getValue(); c[4] = (ll) v.size(); for (int e = 0; e < ne; ++e) for (int a = 0; a < N; ++a) io[N * e + a] = e < (int) v.size() ? (ll) v[e][a] : -1; }
};
#define X(NAME, ...) \
extern "C" void NAME##_tinit(const double * x, ll nn, const ll * idx, ll ne, ll from, double * o, ll * io, ll * c) { C<__VA_ARGS__>::init(x, nn, idx, ne, from, o, io, c); } \
extern "C" void NAME##_tattach(const double * x, ll nn, const ll * idx, ll ne, double * o, ll * io, ll * c) { C<__VA_ARGS__>::attach(x, nn, idx, ne, o, io, c); }
X(Seg1L, Segment<1, Linear>) X(Tri2L, Triangle<2, Linear>) X(Tri3Q, Triangle<3, Quadratic>) X(Quad2L, Quad<2, Linear>) X(TetL, Tetrahedron<Linear>) X(TetQ, Tetrahedron<Quadratic>) X(HexL, Hexahedron<Linear>)
// bounding box of the positions; the box is preset to b
template <class FF, class E, class DT> void box(const double * x, ll nn, ll visible, double * b) { sofa::core::behavior::MechanicalState<DT> s; s.x.v = C<E>::pos(x, nn); FF f; f.mstate.set(&s); f.f_bbox.setValue(sofa::type::TBoundingBox<double>(b, b + 3)); sofa::core::ExecParams p; f.computeBBox(&p, visible); for (int i = 0; i < 3; ++i) { b[i] = f.f_bbox.getValue().lo[i]; b[3 + i] = f.f_bbox.getValue().hi[i]; } }
extern "C" void bbox(const double * x, ll nn, ll visible, double * b) { box<SofaCaribou::forcefield::HyperelasticForcefield<Tetrahedron<Linear>>, Tetrahedron<Linear>, sofa::defaulttype::Vec3Types>(x, nn, visible, b); }
extern "C" void bbox2(const double * x, ll nn, ll visible, double * b) { box<SofaCaribou::forcefield::TractionForcefield<Triangle<2, Linear>>, Triangle<2, Linear>, sofa::defaulttype::Vec2Types>(x, nn, visible, b); }
