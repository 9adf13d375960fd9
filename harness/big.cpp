// Larger instances through the public interface (native execution only)
#include "geom.hpp"
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <string>
#include <vector>
#include <memory>
using namespace vh;
using namespace caribou::topology;
typedef UNSIGNED_INTEGER_TYPE ull;
template <int D> using Pos = Eigen::Matrix<double, Eigen::Dynamic, D, D == 1 ? Eigen::ColMajor : Eigen::RowMajor>;
template <int D> static Pos<D> rdp(const double * x, ll n) { Pos<D> P(n, D); for (ll i = 0; i < n; ++i) for (int k = 0; k < D; ++k) P(i, k) = x[i * D + k]; return P; }
template <class Dm> static typename Dm::ElementsIndices rdi(const ll * idx, ll ne, int N) { typename Dm::ElementsIndices r(ne, N); for (ll e = 0; e < ne; ++e) for (int a = 0; a < N; ++a) r(e, a) = (ull) idx[e * N + a]; return r; }
#if PART == 1
#include <Caribou/Topology/HashGrid.h>
#include <Caribou/Topology/BarycentricContainer.h>
#define X(NAME, ...) \
extern "C" void NAME##_bighash(const double * n, ll ne, double h, const double * p, ll np, ll * o) { using E = __VA_ARGS__; constexpr int S = E::NumberOfNodesAtCompileTime * E::Dimension; HashGrid<E> g(h, (ull) ne); for (ll e = 0; e < ne; ++e) g.add(Make<E>::of(n + e * S), (ull) (e * 3 + 1)); \
    for (ll k = 0; k < np; ++k) { const auto s = g.get(rd_vec<typename HashGrid<E>::WorldCoordinates>(p + k * E::Dimension)); for (ll e = 0; e < ne; ++e) o[k * (ne + 1) + e] = (ll) s.count((ull) (e * 3 + 1)); o[k * (ne + 1) + ne] = (ll) s.size(); } } \
extern "C" void NAME##_bigbary(const double * x, ll nn, const ll * idx, ll ne, const double * p, ll np, const double * f, ll * el, double * xi, ll * out, double * io) { using E = __VA_ARGS__; constexpr int N = E::NumberOfNodesAtCompileTime, D = E::Dimension, C = E::CanonicalDimension; \
    Mesh<D> m(rdp<D>(x, nn)); const Domain<E> * d = m.template add_domain<E>("d", rdi<Domain<E>>(idx, ne, N)); BarycentricContainer<Domain<E>> b(d, rdp<D>(p, np)); \
    for (ll k = 0; k < np; ++k) { el[k] = b.barycentric_points()[k].element_index; for (int c = 0; c < C; ++c) xi[k * C + c] = b.barycentric_points()[k].local_coordinates[c]; out[k] = -1; } el[np] = (ll) b.barycentric_points().size(); out[np] = (ll) b.outside_nodes().size(); for (std::size_t k = 0; k < b.outside_nodes().size() && (ll) k < np; ++k) out[k] = (ll) b.outside_nodes()[k]; \
    Eigen::MatrixXd F(nn, 2), O(np, 2); for (ll i = 0; i < nn; ++i) for (int c = 0; c < 2; ++c) F(i, c) = f[i * 2 + c]; for (ll i = 0; i < np; ++i) for (int c = 0; c < 2; ++c) O(i, c) = io[i * 2 + c]; b.interpolate(F, O); for (ll i = 0; i < np; ++i) for (int c = 0; c < 2; ++c) io[i * 2 + c] = O(i, c); }
X(Seg1L, Segment<1, Linear>) X(Tri2L, Triangle<2, Linear>) X(TetL, Tetrahedron<Linear>)
#elif PART == 2
#define X(NAME, ...) \
extern "C" void NAME##_bigdom(const double * x, ll nn, const ll * idx, ll ne, double * o1, double * o2, double * o3, ll * c) { using E = __VA_ARGS__; using Dm = Domain<E>; constexpr int N = E::NumberOfNodesAtCompileTime, D = E::Dimension, S = N * D; \
    std::unique_ptr<Mesh<D>> m(new Mesh<D>(rdp<D>(x, nn))); auto I = rdi<Dm>(idx, ne, N); const Dm * d = m->template add_domain<E>("one", I); I.setZero(); c[0] = (ll) d->number_of_elements(); c[1] = (ll) m->number_of_nodes(); \
    for (ll e = 0; e < ne; ++e) { const E el = d->element((ull) e); wr(el.nodes(), o1 + e * S); } \
    Mesh<D> copy(*m); m.reset(); const Dm * q = dynamic_cast<const Dm *>(copy.domain("one")); c[2] = q && q->mesh() == &copy; c[3] = q ? (ll) q->number_of_elements() : -1; for (ll e = 0; e < ne; ++e) { const E el = q->element((ull) e); wr(el.nodes(), o2 + e * S); } \
    Mesh<D> moved(std::move(copy)); const Dm * r = dynamic_cast<const Dm *>(moved.domain("one")); c[4] = r && r->mesh() == &moved; c[5] = r ? (ll) r->number_of_elements() : -1; for (ll e = 0; e < ne; ++e) { const E el = r->element((ull) e); wr(el.nodes(), o3 + e * S); } }
X(Seg2L, Segment<2, Linear>) X(Tri2L, Triangle<2, Linear>) X(Quad3Q, Quad<3, Quadratic>) X(TetQ, Tetrahedron<Quadratic>) X(HexL, Hexahedron<Linear>)
// a long history over eight names. codes: 0-7 add, 8-15 remove by name, 16-23 remove by pointer, 24 copy the mesh, 25 move it, 26 assign it to another
extern "C" void reg_long(const ll * code, ll n, ll * r, ll * o, ll * cnt) {
    using E = Triangle<2, Linear>; using Dm = Domain<E>;
    auto name = [](ll j) { return j % 2 ? "domain_" + std::to_string(j) : "a rather long name of a domain, number " + std::to_string(j); };
    std::unique_ptr<Mesh<2>> m(new Mesh<2>());
    for (ll s = 0; s < n; ++s) {
        const ll c = code[s], j = c % 8; r[s] = -1;
        if (c < 8) { typename Dm::ElementsIndices I(1, 3); I << (ull) (100 + s), (ull) j, 7; if (m->domain(name(j)) == nullptr) { m->add_domain<E>(name(j), I); r[s] = 1; } else r[s] = 0; }
        else if (c < 16) r[s] = m->remove_domain(name(j));
        else if (c < 24) { const BaseDomain * d = m->domain(name(j)); r[s] = d ? m->remove(d) : 0; }
        else if (c == 24) { m.reset(new Mesh<2>(*m)); r[s] = 1; }
        else if (c == 25) { m.reset(new Mesh<2>(std::move(*m))); r[s] = 1; }
        else if (c == 26) { std::unique_ptr<Mesh<2>> k(new Mesh<2>()); typename Dm::ElementsIndices I(2, 3); I << 0, 0, 0, 0, 0, 0; k->add_domain<E>("other", I); *k = *m; m = std::move(k); r[s] = 1; }
        cnt[s] = (ll) m->number_of_domains();
    }
    for (ll j = 0; j < 8; ++j) {      // per name: position in the list, the step that added it, attached
        const auto * d = dynamic_cast<const Dm *>(m->domain(name(j))); ll * q = o + 3 * j; q[0] = q[1] = q[2] = -1;
        if (d) { for (ll i = (ll) m->number_of_domains() - 1; i >= 0; --i) if (m->domain((ull) i) == d) q[0] = i; q[1] = (ll) d->element_indices(0)[0] - 100; q[2] = d->mesh() == m.get() && d->element_indices(0)[1] == (ull) j && m->domains().size() == m->number_of_domains() && (q[0] < 0 || m->domains()[q[0]].first == name(j)); }
    }
}
#elif PART == 3
#include <Caribou/Geometry/Triangle.h>
#include <SofaCaribou/Forcefield/HyperelasticForcefield.inl>
#include <SofaCaribou/Forcefield/TractionForcefield.inl>
#include <SofaCaribou/Topology/CaribouTopology.inl>
#include <SofaCaribou/Material/SaintVenantKirchhoffMaterial.h>
namespace SofaCaribou::forcefield {
template <class E> void CaribouForcefield<E>::triangulate_face(const E &, const std::size_t &, std::vector<sofa::type::Vector3> &) {}
template <class E> auto CaribouForcefield<E>::templateName(const CaribouForcefield<E> *) -> std::string { return {}; }
}
using DT = sofa::defaulttype::Vec3Types; using V3 = DT::Coord; using VV = DT::VecCoord; using DV = sofa::core::objectmodel::Data<VV>; using MS = sofa::core::behavior::MechanicalState<DT>;
static VV rdv(const double * x, int n) { VV v; v.resize(n); for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) v[i][k] = x[3 * i + k]; return v; }
static void wrv(const VV & v, double * o) { for (std::size_t i = 0; i < v.size(); ++i) for (int k = 0; k < 3; ++k) o[3 * i + k] = v[i][k]; }
template <class E, template <class> class FF> struct Scene {
    static constexpr int N = E::NumberOfNodesAtCompileTime; using Topo = SofaCaribou::topology::CaribouTopology<E>;
    Mesh<3> mesh; typename Topo::Domain::ElementsIndices I; typename Topo::Domain dom; Topo topo; MS state; FF<E> ff;
    static auto ind(const ll * idx, ll ne) { typename Topo::Domain::ElementsIndices r(ne, N); for (ll e = 0; e < ne; ++e) for (int a = 0; a < N; ++a) r(e, a) = (typename Topo::PointID) idx[e * N + a]; return r; }
    Scene(const double * x0, ll nn, const ll * idx, ll ne) : mesh(rdp<3>(x0, nn)), I(ind(idx, ne)), dom(&mesh, I) { topo.attachDomain(&dom); state.x.setValue(rdv(x0, nn)); state.x0.setValue(rdv(x0, nn)); ff.mstate.set(&state); ff.d_topology_container.set(&topo); }
};
// several Newton iterations: at every position, forces, one product with the stiffness, the matrix, and the energy
template <class E> static void hyper(const double * x0, ll nn, const ll * idx, ll ne, double y, double nu, const double * x, const double * dx, ll steps, double * f, double * df, double * en, double * K) {
    Scene<E, SofaCaribou::forcefield::HyperelasticForcefield> s(x0, nn, idx, ne); SofaCaribou::material::SaintVenantKirchhoffMaterial<DT> m; m.d_young_modulus.setValue(y); m.d_poisson_ratio.setValue(nu); s.ff.d_material.set(&m); s.ff.init();
    sofa::core::MechanicalParams mp; mp.k = 1; std::vector<double> z(3 * nn, 0.);
    for (ll t = 0; t < steps; ++t) {
        DV X(rdv(x + t * 3 * nn, nn)), F(rdv(z.data(), nn)), V(rdv(z.data(), nn)), DX(rdv(dx, nn)), DF(rdv(z.data(), nn)); s.state.x.v = X.v;
        s.ff.addForce(&mp, F, X, V); wrv(F.v, f + t * 3 * nn); s.ff.addDForce(&mp, DF, DX); wrv(DF.v, df + t * 3 * nn); en[t] = s.ff.getPotentialEnergy(&mp, X);
        const auto S = s.ff.K(); for (ll i = 0; i < 3 * nn; ++i) K[t * 3 * nn + i] = 0; for (int k = 0; k < S.outerSize(); ++k) for (Eigen::SparseMatrix<double>::InnerIterator it(S, k); it; ++it) K[t * 3 * nn + it.row()] += it.value() * dx[it.col()];
    }
}
extern "C" void tet_bighyper(const double * x0, ll nn, const ll * idx, ll ne, double y, double nu, const double * x, const double * dx, ll steps, double * f, double * df, double * en, double * K) { hyper<Tetrahedron<Linear>>(x0, nn, idx, ne, y, nu, x, dx, steps, f, df, en, K); }
// a scene: initialisation, then a history of steps (0), other events (1) and resets (2); the forces after each
template <class E> static void tract(const double * x0, ll nn, const ll * idx, ll ne, const double * t, double slope, ll wait, const ll * h, ll n, double * f, double * tl) {
    Scene<E, SofaCaribou::forcefield::TractionForcefield> s(x0, nn, idx, ne); s.ff.d_traction.setValue(V3(t)); s.ff.d_slope.setValue(slope); s.ff.d_number_of_steps_before_increment.setValue((unsigned) wait); s.ff.init(); sofa::core::MechanicalParams mp; std::vector<double> z(3 * nn, 0.);
    for (ll i = 0; i <= n; ++i) { sofa::core::objectmodel::Event b; if (i) { if (h[i - 1] == 0) s.ff.handleEvent(&b); else if (h[i - 1] == 1) s.ff.handleEvent(nullptr); else s.ff.reset(); } DV F(rdv(z.data(), nn)), X(rdv(x0, nn)), V(rdv(z.data(), nn)); s.ff.addForce(&mp, F, X, V); wrv(F.v, f + i * 3 * nn); tl[i] = s.ff.d_total_load.getValue(); }
}
extern "C" void tri_bigtract(const double * x0, ll nn, const ll * idx, ll ne, const double * t, double slope, ll wait, const ll * h, ll n, double * f, double * tl) { tract<Triangle<3, Linear>>(x0, nn, idx, ne, t, slope, wait, h, n, f, tl); }
#elif PART == 4
#include <Caribou/Topology/IO/VTKReader.cpp>
template <class E> static bool one(const BaseDomain * d, ll code, ll * c, ll * ids, ll mx) { const auto * q = dynamic_cast<const Domain<E, ull> *>(d); if (!q) return false; c[0] = code; c[1] = (ll) q->number_of_elements(); c[2] = (ll) q->number_of_nodes_per_elements(); for (ll e = 0; e < c[1] && e < mx; ++e) { const auto r = q->element_indices((ull) e); for (ll a = 0; a < c[2]; ++a) ids[20 * e + a] = (ll) r[a]; } return true; }
template <std::size_t D> static void big(const double * x, ll nn, ll nc, const ll * ty, const ll * nk, const ll * in, ll * s, ll * ids, double * p) {
    vtkUnstructuredGrid g; g.points.x = x; g.points.n = nn; for (ll i = 0; i < nc; ++i) { g.types.push_back((unsigned char) ty[i]); g.cells.push_back(vtkCell{in, nk[i], {}}); in += nk[i]; }
    vtk_file = &g; for (int i = 0; i < 32; ++i) s[i] = -9; for (ll i = 0; i < 10 * nc * 20; ++i) ids[i] = -9;
    try {
        const auto R = io::VTKReader<D, ull>::Read("/dev/null"); const auto m = R.mesh(); s[0] = (ll) m.number_of_nodes(); s[1] = (ll) m.number_of_domains();
        for (ll i = 0; i < s[0] && i < nn; ++i) { const auto q = m.position((ull) i); for (std::size_t k = 0; k < D; ++k) p[i * D + k] = q[k]; }
        for (ll k = 0; k < s[1] && k < 10; ++k) { const BaseDomain * d = m.domain((ull) k); ll * c = s + 2 + 3 * k, * q = ids + 20 * nc * k; if (d->mesh() != &m) continue;
            if (one<Segment<D, Linear>>(d, 3, c, q, nc) || one<Segment<D, Quadratic>>(d, 21, c, q, nc)) continue;
            if constexpr (D > 1) if (one<Triangle<D, Linear>>(d, 5, c, q, nc) || one<Triangle<D, Quadratic>>(d, 22, c, q, nc) || one<Quad<D, Linear>>(d, 9, c, q, nc) || one<Quad<D, Quadratic>>(d, 23, c, q, nc)) continue;
            if constexpr (D > 2) if (one<Tetrahedron<Linear>>(d, 10, c, q, nc) || one<Tetrahedron<Quadratic>>(d, 24, c, q, nc) || one<Hexahedron<Linear>>(d, 12, c, q, nc) || one<Hexahedron<Quadratic>>(d, 25, c, q, nc)) continue; }
    } catch (const std::exception &) { vh_threw = 1; }
    vtk_file = nullptr;
}
extern "C" void vtk_big1(const double * x, ll nn, ll nc, const ll * ty, const ll * nk, const ll * in, ll * s, ll * ids, double * p) { big<1>(x, nn, nc, ty, nk, in, s, ids, p); }
extern "C" void vtk_big2(const double * x, ll nn, ll nc, const ll * ty, const ll * nk, const ll * in, ll * s, ll * ids, double * p) { big<2>(x, nn, nc, ty, nk, in, s, ids, p); }
extern "C" void vtk_big3(const double * x, ll nn, ll nc, const ll * ty, const ll * nk, const ll * in, ll * s, ll * ids, double * p) { big<3>(x, nn, nc, ty, nk, in, s, ids, p); }
#endif
