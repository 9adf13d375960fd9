// VTKReader on an in-memory grid (stand-in headers of vtk_stub, compiled with -fno-access-control)
#include "geom.hpp"
#include <Caribou/Topology/IO/VTKReader.cpp>
using namespace caribou; using namespace caribou::topology; using namespace caribou::geometry; using vh::rd_vec;
typedef long long ll; typedef UNSIGNED_INTEGER_TYPE ull;
template <std::size_t D> using Rd = io::VTKReader<D, ull>;
static void fill(vtkUnstructuredGrid & g, const double * x, ll nn, ll nc, const ll * ty, const ll * nk, const ll * ids) { g.points.x = x; g.points.n = nn; for (ll i = 0; i < nc; ++i) { g.types.push_back((unsigned char) ty[i]); g.cells.push_back(vtkCell{ids, nk[i], {}}); ids += nk[i]; } }
// is d a domain of elements of type E?  (same virtual table as one that is)
template <class E> static bool is(const BaseDomain * d) { typename Domain<E, ull>::ElementsIndices none(0, (int) E::NumberOfNodesAtCompileTime); Domain<E, ull> o(nullptr, none); return *reinterpret_cast<void * const *>(d) == *reinterpret_cast<void * const *>(static_cast<const BaseDomain *>(&o)); }
template <class E> static bool one(const BaseDomain * d, ll code, ll * c, ll * ids) { if (!is<E>(d)) return false; const auto * q = static_cast<const Domain<E, ull> *>(d); c[0] = code; c[1] = (ll) q->number_of_elements(); c[2] = (ll) q->number_of_nodes_per_elements(); for (ll e = 0; e < c[1] && e < 2; ++e) { const auto r = q->element_indices((ull) e); for (ll a = 0; a < c[2]; ++a) ids[20 * e + a] = (ll) r[a]; } return true; }
template <std::size_t D> static void get(const BaseDomain * d, ll * c, ll * ids) {
    if (one<Segment<D, Linear>>(d, 3, c, ids) || one<Segment<D, Quadratic>>(d, 21, c, ids)) return;
    if constexpr (D > 1) if (one<Triangle<D, Linear>>(d, 5, c, ids) || one<Triangle<D, Quadratic>>(d, 22, c, ids) || one<Quad<D, Linear>>(d, 9, c, ids) || one<Quad<D, Quadratic>>(d, 23, c, ids)) return;
    if constexpr (D > 2) if (one<Tetrahedron<Linear>>(d, 10, c, ids) || one<Tetrahedron<Quadratic>>(d, 24, c, ids) || one<Hexahedron<Linear>>(d, 12, c, ids) || one<Hexahedron<Quadratic>>(d, 25, c, ids)) return;
    c[0] = -1;
}
// out: s = number of nodes, of domains, then of each domain: type, elements, nodes per element; ids: 2x20 per domain; p: positions
template <std::size_t D> static void mesh_of(const double * x, ll nn, const ll * axes, ll nc, const ll * ty, const ll * nk, const ll * in, ll * s, ll * ids, double * p) {
    auto r = vtkSmartPointer<vtkUnstructuredGridReader>::New(); fill(r->grid, x, nn, nc, ty, nk, in); std::array<ull, D> ax; for (std::size_t i = 0; i < D; ++i) ax[i] = (ull) axes[i];
    const Rd<D> R("f", r, ax); const auto m = R.mesh(); s[0] = (ll) m.number_of_nodes(); s[1] = (ll) m.number_of_domains(); for (int i = 2; i < 14; ++i) s[i] = -9; for (int i = 0; i < 160; ++i) ids[i] = -9;
    for (ll i = 0; i < s[0] && i < nn; ++i) { const auto q = m.position((ull) i); for (std::size_t k = 0; k < D; ++k) p[i * D + k] = q[k]; }
    for (ll i = 0; i < s[1] && i < 4; ++i) { get<D>(m.domain((ull) i), s + 2 + 3 * i, ids + 40 * i); if (m.domain((ull) i)->mesh() != &m) s[2 + 3 * i] = -2; }
}
#ifdef VH_NATIVE
#define TRY(...) try { __VA_ARGS__; } catch (const std::runtime_error &) { vh_threw = 1; }
#else
#define TRY(...) __VA_ARGS__;
#endif
template <std::size_t D> static void axes_of(const double * x, ll nn, ll * a) { vtkPoints P; P.x = x; P.n = nn; TRY(const auto r = io::extract_axes_from_3D_vectors<D>(&P, nn); for (std::size_t i = 0; i < D; ++i) a[i] = (ll) r[i]) }
extern "C" void vtk_mesh1(const double * x, ll nn, const ll * axes, ll nc, const ll * ty, const ll * nk, const ll * in, ll * s, ll * ids, double * p) { mesh_of<1>(x, nn, axes, nc, ty, nk, in, s, ids, p); }
extern "C" void vtk_mesh2(const double * x, ll nn, const ll * axes, ll nc, const ll * ty, const ll * nk, const ll * in, ll * s, ll * ids, double * p) { mesh_of<2>(x, nn, axes, nc, ty, nk, in, s, ids, p); }
extern "C" void vtk_mesh3(const double * x, ll nn, const ll * axes, ll nc, const ll * ty, const ll * nk, const ll * in, ll * s, ll * ids, double * p) { mesh_of<3>(x, nn, axes, nc, ty, nk, in, s, ids, p); }
// reading a "file" as a whole: axes, then the mesh; the tables of one cell type
template <std::size_t D> static void read_of(const double * x, ll nn, ll ty, ll nk, const ll * in, ll * s, ll * ids, double * p) {
    vtkUnstructuredGrid g; fill(g, x, nn, 1, &ty, &nk, in); vtk_file = &g; s[0] = s[1] = s[2] = s[3] = s[4] = -9; for (int i = 0; i < 40; ++i) ids[i] = -9; for (ll i = 0; i < nn * (ll) D; ++i) p[i] = 0;
    TRY(const auto R = Rd<D>::Read("/dev/null"); const auto m = R.mesh(); s[0] = (ll) m.number_of_nodes(); s[1] = (ll) m.number_of_domains();
    for (ll i = 0; i < s[0] && i < nn; ++i) { const auto q = m.position((ull) i); for (std::size_t k = 0; k < D; ++k) p[i * D + k] = q[k]; } if (s[1] == 1) get<D>(m.domain((ull) 0), s + 2, ids)) vtk_file = nullptr;
}
extern "C" void vtk_read1(const double * x, ll nn, ll ty, ll nk, const ll * in, ll * s, ll * ids, double * p) { read_of<1>(x, nn, ty, nk, in, s, ids, p); }
extern "C" void vtk_read2(const double * x, ll nn, ll ty, ll nk, const ll * in, ll * s, ll * ids, double * p) { read_of<2>(x, nn, ty, nk, in, s, ids, p); }
extern "C" void vtk_read3(const double * x, ll nn, ll ty, ll nk, const ll * in, ll * s, ll * ids, double * p) { read_of<3>(x, nn, ty, nk, in, s, ids, p); }
extern "C" void vtk_axes1(const double * x, ll nn, ll * a) { axes_of<1>(x, nn, a); }
extern "C" void vtk_axes2(const double * x, ll nn, ll * a) { axes_of<2>(x, nn, a); }
extern "C" void vtk_axes3(const double * x, ll nn, ll * a) { axes_of<3>(x, nn, a); }
