// CaribouBarycentricMapping on a mesh of one or two elements, through the SOFA stand-in headers (compiled with -fno-access-control)
#include "geom.hpp"
#include <Caribou/Geometry/Tetrahedron.h>
#include <Caribou/Geometry/Hexahedron.h>
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
#include <Caribou/Topology/BarycentricContainer.h>
#include <SofaCaribou/Topology/CaribouTopology.inl>
#include <SofaCaribou/Mapping/CaribouBarycentricMapping.inl>
using namespace vh;
typedef long long ll;
using DT = sofa::defaulttype::Vec3Types; using V3 = DT::Coord; using VV = DT::VecCoord; using DV = sofa::core::objectmodel::Data<VV>; using DM = sofa::core::objectmodel::Data<DT::MatrixDeriv>; using MS = sofa::core::behavior::MechanicalState<DT>;
static VV rdv(const double * x, int n) { VV v; v.resize(n); for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) v[i][k] = x[3 * i + k]; return v; }
static void wrv(const VV & v, double * o) { for (std::size_t i = 0; i < v.size(); ++i) for (int k = 0; k < 3; ++k) o[3 * i + k] = v[i][k]; }
template <class E> struct World {
    static constexpr int N = E::NumberOfNodesAtCompileTime; using Topo = SofaCaribou::topology::CaribouTopology<E>; using PID = typename Topo::PointID; using Map = SofaCaribou::mapping::CaribouBarycentricMapping<E, DT>;
    caribou::topology::Mesh<3> mesh; typename Topo::Domain::ElementsIndices I; typename Topo::Domain dom; Topo topo; MS from, to; Map map;
    static auto pos(const double * x, int n) { Eigen::Matrix<double, Eigen::Dynamic, 3, Eigen::RowMajor> P(n, 3); for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) P(i, k) = x[3 * i + k]; return P; }
    static auto ind(const ll * idx, int ne) { typename Topo::Domain::ElementsIndices r(ne, N); for (int e = 0; e < ne; ++e) for (int a = 0; a < N; ++a) r(e, a) = (PID) idx[e * N + a]; return r; }
    // how: 0 the rest positions of the mapped nodes are given; 1 they are empty, the positions are given
    World(const double * x0, int nn, const ll * idx, int ne, const double * q, int np, int how) : mesh(pos(x0, nn)), I(ind(idx, ne)), dom(&mesh, I) {
        topo.attachDomain(&dom); from.x.v = rdv(x0, nn); from.x0.v = rdv(x0, nn); to.x.v = rdv(q, np); if (!how) { to.x0.v = rdv(q, np); for (auto & p : to.x.v) p[0] += 1; } map.vh_from = &from; map.vh_to = &to; }
};
// constraint matrices: n lines of w entries, entry (line, column); a column of -1 is none
static void rdm(const ll * at, const double * v, int n, int w, DT::MatrixDeriv & m) { for (int i = 0; i < n; ++i) { m.l.push_back({(unsigned) at[i * (w + 1)], {}}); for (int k = 0; k < w; ++k) if (at[i * (w + 1) + 1 + k] >= 0) m.l.back().c.push_back({(unsigned) at[i * (w + 1) + 1 + k], V3(v + 3 * (i * w + k))}); } }
// find: 0 the topology is linked; 1 in the parent node; 2 in the node of the mapping; 3 in both: the parent one counts; 4 nowhere
template <class E> static void go(const double * x0, ll nn, const ll * idx, ll ne, const double * q, ll np, ll how, ll find, ll inits, const double * x, const double * v, const double * fm, const ll * at, const double * cv, ll nl, ll wd, ll nr, double * ox, double * ov, double * f, double * H, ll * c) {
    World<E> w(x0, (int) nn, idx, (int) ne, q, (int) np, (int) how); sofa::simulation::Node node, parent; typename World<E>::Topo other;
    if (find == 0) w.map.d_topology.set(&w.topo); else { w.map.vh_context = &node; if (find == 1 || find == 3) { node.vh_parent = &parent; parent.vh_object = &w.topo; } if (find == 2) node.vh_object = &w.topo; if (find == 3) node.vh_object = &other; }
    for (int i = 0; i < inits; ++i) w.map.init();
    sofa::core::MechanicalParams mp; sofa::core::ConstraintParams cp; DV X(rdv(x, nn)), Y(rdv(ox, np)); w.map.apply(&mp, Y, X); wrv(Y.v, ox); DV V(rdv(v, nn)), U(rdv(ov, np)); w.map.applyJ(&mp, U, V); wrv(U.v, ov); DV Fm(rdv(fm, np)), Fo(rdv(f, nn)); w.map.applyJT(&mp, Fo, Fm); wrv(Fo.v, f);
    DM A, B; rdm(at, cv, (int) nl, (int) wd, A.v); for (int i = 0; i < nr; ++i) if (i % 2) { auto l = B.v.writeLine(i); for (int k = 0; k < nn; k += 2) l.addCol(k, V3(H + 3 * (i * nn + k))); }
    w.map.applyJT(&cp, B, A); for (int i = 0; i < 3 * nr * nn; ++i) H[i] = 0; c[3] = 0; for (auto & l : B.v.l) { if (l.c.empty()) ++c[3]; for (auto & e : l.c) if ((int) l.i < nr && (int) e.j < nn) for (int k = 0; k < 3; ++k) H[3 * (l.i * nn + e.j) + k] += e.v[k]; }
    c[0] = w.map.vh_inits; c[1] = w.map.p_barycentric_container ? (ll) w.map.p_barycentric_container->outside_nodes().size() : -1; c[2] = (ll) Y.v.size(); }
#define M(NAME, ...) extern "C" void NAME##_map(const double * x0, ll nn, const ll * idx, ll ne, const double * q, ll np, ll how, ll find, ll inits, const double * x, const double * v, const double * fm, const ll * at, const double * cv, ll nl, ll wd, ll nr, double * ox, double * ov, double * f, double * H, ll * c) { go<caribou::geometry::__VA_ARGS__>(x0, nn, idx, ne, q, np, how, find, inits, x, v, fm, at, cv, nl, wd, nr, ox, ov, f, H, c); }
M(TetL, Tetrahedron<caribou::Linear>) M(HexL, Hexahedron<caribou::Linear>) M(TetQ, Tetrahedron<caribou::Quadratic>)
