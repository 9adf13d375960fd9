// SofaCaribou force fields on a mesh of one or two elements, through the SOFA stand-in headers (compiled with -fno-access-control)
#include "geom.hpp"
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <Caribou/Geometry/Triangle.h>
#include <Caribou/Geometry/Quad.h>
#include <SofaCaribou/Forcefield/HyperelasticForcefield.inl>
#include <SofaCaribou/Forcefield/TractionForcefield.inl>
#include <SofaCaribou/Topology/CaribouTopology.inl>
#include <SofaCaribou/Material/SaintVenantKirchhoffMaterial.h>
#include <SofaCaribou/Material/NeoHookeanMaterial.h>
using namespace vh;
typedef long long ll;
namespace SofaCaribou::forcefield {   // specialised per element in the .cpp files of the plugin: drawing and names only
template <class E> void CaribouForcefield<E>::triangulate_face(const E &, const std::size_t &, std::vector<sofa::type::Vector3> &) {}
template <class E> auto CaribouForcefield<E>::templateName(const CaribouForcefield<E> *) -> std::string { return {}; }
}
using DT = sofa::defaulttype::Vec3Types; using V3 = DT::Coord; using VV = DT::VecCoord; using DV = sofa::core::objectmodel::Data<VV>;
static VV rdv(const double * x, int n) { VV v; v.resize(n); for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) v[i][k] = x[3 * i + k]; return v; }
static void wrv(const VV & v, double * o) { for (std::size_t i = 0; i < v.size(); ++i) for (int k = 0; k < 3; ++k) o[3 * i + k] = v[i][k]; }
// a response that separates its arguments: S = A + B J + G o C (component-wise)
struct Generic : SofaCaribou::material::HyperelasticMaterial<DT> {
    const double * p, * t = nullptr; int updates = 0;
    void before_update() override { ++updates; }
    double strain_energy_density(const double & J, const Eigen::Matrix3d & C) const override { double s = p[0] + p[1] * J; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) s += p[2 + 3 * i + j] * C(i, j); return s; }
    Eigen::Matrix3d PK2_stress(const double & J, const Eigen::Matrix3d & C) const override { Eigen::Matrix3d S; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) S(i, j) = p[3 * i + j] + p[9 + 3 * i + j] * J + p[18 + 3 * i + j] * C(i, j); return S; }
    Eigen::Matrix<double, 6, 6> PK2_stress_jacobian(const double &, const Eigen::Matrix3d &) const override { Eigen::Matrix<double, 6, 6> D = Eigen::Matrix<double, 6, 6>::Zero(); int k = 0; if (t) for (int i = 0; i < 6; ++i) for (int j = i; j < 6; ++j) { D(i, j) = D(j, i) = t[k++]; } return D; }
};
using MS = sofa::core::behavior::MechanicalState<DT>;
template <class E, template <class> class FF> struct World {
    static constexpr int N = E::NumberOfNodesAtCompileTime; using Field = FF<E>; using Topo = SofaCaribou::topology::CaribouTopology<E>; using PID = typename Topo::PointID;
    caribou::topology::Mesh<3> mesh; typename Topo::Domain::ElementsIndices I; typename Topo::Domain dom; Topo topo; MS state; Field ff; int nn;
    static auto pos(const double * x, int n) { Eigen::Matrix<double, Eigen::Dynamic, 3, Eigen::RowMajor> P(n, 3); for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) P(i, k) = x[3 * i + k]; return P; }
    static auto ind(const ll * idx, int ne) { typename Topo::Domain::ElementsIndices r(ne, N); for (int e = 0; e < ne; ++e) for (int a = 0; a < N; ++a) r(e, a) = (PID) idx[e * N + a]; return r; }
    // nn nodes, ne elements of connectivity idx
    World(const double * x0, int nn, const ll * idx, int ne) : mesh(pos(x0, nn)), I(ind(idx, ne)), dom(&mesh, I), nn(nn) {
        topo.attachDomain(&dom); state.x.setValue(rdv(x0, nn)); state.x0.setValue(rdv(x0, nn)); ff.mstate.set(&state); ff.p_topology = &topo; }
};
struct Dense : sofa::defaulttype::BaseMatrix { using BaseMatrix::add; double * o; long n; ll calls = 0; Dense(double * q, long m) : o(q), n(m) { for (long i = 0; i < m * m; ++i) o[i] = 0; } void add(int i, int j, double v) override { o[i * n + j] += v; ++calls; } };
template <class E, class M> struct Hyper : World<E, SofaCaribou::forcefield::HyperelasticForcefield> { M m; Hyper(const double * x0, int nn, const ll * idx, int ne) : World<E, SofaCaribou::forcefield::HyperelasticForcefield>(x0, nn, idx, ne) { this->ff.d_material.set(&m); this->ff.initialize_elements(); } };
template <class E> static void putg(const E & e, double * o) { int k = 0; for (const auto & g : e.gauss_nodes()) { for (int c = 0; c < (int) E::CanonicalDimension; ++c) o[k++] = g.position[c]; o[k++] = g.weight; } }
template <class E> static E h0() { return E(); }
#define HYPER(NAME, NN, NE, ...) \
/* quadrature: weights, determinants, derivatives of element e */ \
extern "C" void NAME##_gauss(const double * x, double * gp, double * w, double * d, double * g) { using E = __VA_ARGS__; const E e = Make<E>::of(x); SofaCaribou::forcefield::HyperelasticForcefield<E> f; const auto q = f.get_gauss_nodes(0, e); int k = 0; putg(e, gp); for (std::size_t i = 0; i < q.size(); ++i) { w[i] = q[i].weight; d[i] = q[i].jacobian_determinant; for (int a = 0; a < (int) E::NumberOfNodesAtCompileTime; ++a) for (int c = 0; c < 3; ++c) g[k++] = q[i].dN_dx(a, c); } } \
/* given quadrature, material of generic response */ \
template <class H, class E> static void setg_##NAME(H & h, const double * w, const double * d, const double * g) { h.ff.p_elements_quadrature_nodes.resize(NE); int k = 0, q = 0; for (int e = 0; e < NE; ++e) for (auto & p : h.ff.p_elements_quadrature_nodes[e]) { p.weight = w[q]; p.jacobian_determinant = d[q]; ++q; for (int a = 0; a < (int) E::NumberOfNodesAtCompileTime; ++a) for (int c = 0; c < 3; ++c) p.dN_dx(a, c) = g[k++]; } } \
extern "C" void NAME##_force(const ll * idx, const double * w, const double * d, const double * g, const double * p, const double * x, double * f, ll * c) { using E = __VA_ARGS__; const double z[3 * NN] = {}; World<E, SofaCaribou::forcefield::HyperelasticForcefield> h(z, NN, idx, NE); Generic m; m.p = p; h.ff.d_material.set(&m); setg_##NAME<decltype(h), E>(h, w, d, g); \
    h.ff.K_is_up_to_date = true; DV X(rdv(x, NN)), F(rdv(f, NN)), Vl(rdv(z, NN)); sofa::core::MechanicalParams mp; h.ff.addForce(&mp, F, X, Vl); wrv(F.v, f); c[0] = m.updates > 0; c[1] = h.ff.K_is_up_to_date; } \
extern "C" double NAME##_energy(const double * x0, const ll * idx, const double * w, const double * d, const double * g, const double * p, const double * x) { using E = __VA_ARGS__; World<E, SofaCaribou::forcefield::HyperelasticForcefield> h(x0, NN, idx, NE); Generic m; m.p = p; h.ff.d_material.set(&m); setg_##NAME<decltype(h), E>(h, w, d, g); DV X(rdv(x, NN)); sofa::core::MechanicalParams mp; return h.ff.getPotentialEnergy(&mp, X); } \
/* the whole field: forces, stiffness */ \
template <class E, class M> static void tangent_##NAME(M & m, const ll * idx, const double * w, const double * d, const double * g, const double * x, const double * dx, double kf, double * f, double * K, double * df, double * A, ll * c) { const double z[3 * NN] = {}; World<E, SofaCaribou::forcefield::HyperelasticForcefield> h(z, NN, idx, NE); h.ff.d_material.set(&m); setg_##NAME<decltype(h), E>(h, w, d, g); \
    DV X(rdv(x, NN)), F(rdv(z, NN)), Vl(rdv(z, NN)); sofa::core::MechanicalParams mp; mp.k = kf; h.state.x.v = X.v; h.ff.addForce(&mp, F, X, Vl); wrv(F.v, f); \
    DV DX(rdv(dx, NN)), DF(rdv(z, NN)); h.ff.addDForce(&mp, DF, DX); wrv(DF.v, df); c[0] = h.ff.K_is_up_to_date; const auto S = h.ff.K(); c[1] = S.rows(); c[2] = S.cols(); for (int i = 0; i < 3 * NN; ++i) for (int j = 0; j < 3 * NN; ++j) K[i * 3 * NN + j] = 0; \
    for (int k = 0; k < S.outerSize(); ++k) for (Eigen::SparseMatrix<double>::InnerIterator it(S, k); it; ++it) K[it.row() * 3 * NN + it.col()] += it.value(); Dense D(A, 3 * NN + 2); unsigned int off = 2; h.ff.addKToMatrix(&D, kf, off); c[3] = D.calls; } \
/* quadrature set up from the rest positions */ \
extern "C" void NAME##_init(const double * x0, const ll * idx, double * gp, double * w, double * d, double * g, ll * c) { using E = __VA_ARGS__; Generic m; World<E, SofaCaribou::forcefield::HyperelasticForcefield> h(x0, NN, idx, NE); h.ff.d_material.set(&m); h.ff.initialize_elements(); putg(h0<E>(), gp); c[0] = h.ff.p_elements_quadrature_nodes.size(); int k = 0, q = 0; \
    for (int e = 0; e < NE; ++e) for (const auto & p : h.ff.p_elements_quadrature_nodes[e]) { w[q] = p.weight; d[q] = p.jacobian_determinant; ++q; for (int a = 0; a < (int) E::NumberOfNodesAtCompileTime; ++a) for (int j = 0; j < 3; ++j) g[k++] = p.dN_dx(a, j); } } \
extern "C" void NAME##_svk(double y, double nu, const ll * idx, const double * w, const double * d, const double * g, const double * x, const double * dx, double kf, double * f, double * K, double * df, double * A, ll * c) { using E = __VA_ARGS__; SofaCaribou::material::SaintVenantKirchhoffMaterial<DT> m; m.d_young_modulus.setValue(y); m.d_poisson_ratio.setValue(nu); tangent_##NAME<E>(m, idx, w, d, g, x, dx, kf, f, K, df, A, c); } \
extern "C" void NAME##_tangent(const double * p, const double * t, const ll * idx, const double * w, const double * d, const double * g, const double * x, const double * dx, double kf, double * f, double * K, double * df, double * A, ll * c) { using E = __VA_ARGS__; Generic m; m.p = p; m.t = t; tangent_##NAME<E>(m, idx, w, d, g, x, dx, kf, f, K, df, A, c); }
#define TRACT(NAME, NN, NE, ...) \
extern "C" void NAME##_tgauss(const double * x, double * gp, double * w, double * d, double * N) { using E = __VA_ARGS__; const E e = Make<E>::of(x); SofaCaribou::forcefield::TractionForcefield<E> f; const auto q = f.get_gauss_nodes(0, e); int k = 0; putg(e, gp); for (std::size_t i = 0; i < q.size(); ++i) { w[i] = q[i].weight; d[i] = q[i].jacobian_determinant; for (int a = 0; a < (int) E::NumberOfNodesAtCompileTime; ++a) N[k++] = q[i].N[a]; } } \
template <class H, class E> static void sett_##NAME(H & h, const double * w, const double * d, const double * N) { h.ff.p_elements_quadrature_nodes.resize(NE); int k = 0, q = 0; for (int e = 0; e < NE; ++e) for (auto & p : h.ff.p_elements_quadrature_nodes[e]) { p.weight = w[q]; p.jacobian_determinant = d[q]; ++q; for (int a = 0; a < (int) E::NumberOfNodesAtCompileTime; ++a) p.N[a] = N[k++]; } } \
/* increment of the load: nodal forces, total load */ \
extern "C" void NAME##_load(const ll * idx, const double * w, const double * d, const double * N, const double * t, double * nf, double * tl) { using E = __VA_ARGS__; const double z[3 * NN] = {}; World<E, SofaCaribou::forcefield::TractionForcefield> h(z, NN, idx, NE); sett_##NAME<decltype(h), E>(h, w, d, N); h.ff.d_nodal_forces.setValue(rdv(nf, NN)); h.ff.d_total_load.setValue(tl[0]); h.ff.increment_load(V3(t)); wrv(h.ff.d_nodal_forces.getValue(), nf); tl[0] = h.ff.d_total_load.getValue(); } \
/* state of the field: quadrature, traction, slope, steps to wait, steps waited, traction applied so far, nodal forces, total load; what: 0 beginning of a time step, 1 another event, 2 reset, 3 nothing; then a query of the forces */ \
extern "C" void NAME##_event(ll what, const ll * idx, const double * w, const double * d, const double * N, const double * t, double slope, ll constant, ll wait, ll * waited, double * cur, double * nf, double * tl, ll * sz, double * f) { using E = __VA_ARGS__; const double z[3 * NN] = {}; World<E, SofaCaribou::forcefield::TractionForcefield> h(z, NN, idx, NE); sett_##NAME<decltype(h), E>(h, w, d, N); \
    h.ff.d_nodal_forces.setValue(rdv(nf, NN)); h.ff.d_total_load.setValue(tl[0]); h.ff.d_traction.setValue(V3(t)); h.ff.d_slope.setValue(slope); h.ff.d_number_of_steps_before_increment.setValue((unsigned) wait); h.ff.m_number_of_steps_since_last_increment = (unsigned) waited[0]; h.ff.m_current_traction = V3(cur); h.ff.m_traction_is_constant = constant; \
    sofa::core::objectmodel::Event b; if (what == 0) h.ff.handleEvent(&b); else if (what == 1) h.ff.handleEvent(nullptr); else if (what == 2) h.ff.reset(); DV F(rdv(f, NN)), X(rdv(z, NN)), Vl(rdv(z, NN)); sofa::core::MechanicalParams mp; h.ff.addForce(&mp, F, X, Vl); wrv(F.v, f); \
    sz[0] = h.ff.d_nodal_forces.getValue().size(); if (sz[0] == NN) wrv(h.ff.d_nodal_forces.getValue(), nf); tl[0] = h.ff.d_total_load.getValue(); waited[0] = h.ff.m_number_of_steps_since_last_increment; for (int i = 0; i < 3; ++i) cur[i] = h.ff.m_current_traction[i]; } \
/* initialisation on a scene */ \
extern "C" void NAME##_init(const double * x0, const ll * idx, const double * t, double slope, ll wait, double * gp, double * nf, double * tl, ll * o, double * w, double * d, double * N) { using E = __VA_ARGS__; World<E, SofaCaribou::forcefield::TractionForcefield> h(x0, NN, idx, NE); putg(h0<E>(), gp); h.ff.d_traction.setValue(V3(t)); h.ff.d_slope.setValue(slope); h.ff.d_number_of_steps_before_increment.setValue((unsigned) wait); h.ff.init(); \
    o[0] = h.ff.d_nodal_forces.getValue().size(); if (o[0] == NN) wrv(h.ff.d_nodal_forces.getValue(), nf); tl[0] = h.ff.d_total_load.getValue(); o[1] = h.ff.m_number_of_steps_since_last_increment; o[2] = h.ff.m_traction_is_constant; o[3] = h.ff.p_elements_quadrature_nodes.size(); int k = 0, q = 0; for (int e = 0; e < NE; ++e) for (auto & p : h.ff.p_elements_quadrature_nodes[e]) { w[q] = p.weight; d[q] = p.jacobian_determinant; ++q; for (int a = 0; a < (int) E::NumberOfNodesAtCompileTime; ++a) N[k++] = p.N[a]; } }
#if PART == 4
TRACT(tri, 4, 2, caribou::geometry::Triangle<3, caribou::Linear>)
#elif PART == 5
TRACT(quad, 4, 1, caribou::geometry::Quad<3, caribou::Linear>)
#endif
#if PART == 1
HYPER(tet, 5, 2, caribou::geometry::Tetrahedron<caribou::Linear>)
#elif PART == 2
HYPER(hex, 8, 1, caribou::geometry::Hexahedron<caribou::Linear>)
#elif PART == 3
HYPER(tet10, 10, 1, caribou::geometry::Tetrahedron<caribou::Quadratic>)
#endif
