// Grid wrappers: anchor, subdivisions and size in flat buffers.
extern "C" { extern int vh_threw; int vh_threw = 0; }
#include <Caribou/Geometry/Element.h>
#include <Caribou/Topology/Grid/Grid.h>
using namespace caribou;
using namespace caribou::topology;
typedef long long ll;
namespace {
template <int D> Grid<D> mk(const double * a, const ll * n, const double * s) {
    using G = Grid<D>;
    typename G::WorldCoordinates A; typename G::Subdivisions N; typename G::Dimensions S;
    for (int i = 0; i < D; ++i) { A[i] = a[i]; N[i] = (UNSIGNED_INTEGER_TYPE) n[i]; S[i] = s[i]; }
    return G(A, N, S);
}
template <int D> typename Grid<D>::GridCoordinates gc(const ll * c) { typename Grid<D>::GridCoordinates r; for (int i = 0; i < D; ++i) r[i] = c[i]; return r; }
template <int D> typename Grid<D>::WorldCoordinates wc(const double * c) { typename Grid<D>::WorldCoordinates r; for (int i = 0; i < D; ++i) r[i] = c[i]; return r; }
template <class V> void wi(const V & v, ll * o) { for (int i = 0; i < (int) v.size(); ++i) o[i] = v[i]; }
template <class V> void wd(const V & v, double * o) { for (int i = 0; i < (int) v.size(); ++i) o[i] = v[i]; }
template <class M> void wm(const M & v, double * o) { for (int i = 0; i < v.rows(); ++i) for (int j = 0; j < v.cols(); ++j) o[i * v.cols() + j] = v(i, j); }
template <int D> using BG = caribou::topology::internal::BaseGrid<D, Grid<D>>;
}
// observers of the returned list, kept as calls so that their contracts can be used on the ghost log of appended cells
__attribute__((noinline)) ll vh_size(const std::list<ll> & v) { return (ll) v.size(); }
__attribute__((noinline)) ll vh_count(const std::list<ll> & v, ll q) { ll k = 0; for (auto c : v) k += c == q; return k; }
#define A_ const double * a, const ll * n, const double * s
#define DIM(D) \
extern "C" ll g##D##_ncells(A_) { return mk<D>(a, n, s).number_of_cells(); } \
extern "C" ll g##D##_nnodes(A_) { return mk<D>(a, n, s).number_of_nodes(); } \
extern "C" void g##D##_H(A_, double * o) { wd(mk<D>(a, n, s).H(), o); } \
extern "C" void g##D##_get(A_, double * oa, ll * on, double * os) { auto g = mk<D>(a, n, s); wd(g.anchor_position(), oa); wi(g.N(), on); wd(g.size(), os); } \
extern "C" ll g##D##_nidx(A_, const ll * c) { return mk<D>(a, n, s).node_index_at(gc<D>(c)); } \
extern "C" ll g##D##_cidx(A_, const ll * c) { return mk<D>(a, n, s).cell_index_at(gc<D>(c)); } \
extern "C" void g##D##_ncoord(A_, ll i, ll * o) { wi(mk<D>(a, n, s).node_coordinates_at((typename Grid<D>::NodeIndex) i), o); } \
extern "C" void g##D##_ccoord(A_, ll i, ll * o) { wi(mk<D>(a, n, s).cell_coordinates_at((typename Grid<D>::CellIndex) i), o); } \
extern "C" void g##D##_node(A_, ll i, double * o) { wd(mk<D>(a, n, s).node((typename Grid<D>::NodeIndex) i), o); } \
extern "C" void g##D##_nodec(A_, const ll * c, double * o) { auto g = mk<D>(a, n, s); wd(static_cast<const BG<D> &>(g).node(gc<D>(c)), o); } \
extern "C" void g##D##_cell(A_, ll i, double * o) { auto g = mk<D>(a, n, s); auto e = g.cell_at((typename Grid<D>::CellIndex) i); wm(e.nodes(), o); } \
extern "C" void g##D##_cellc(A_, const ll * c, double * o) { auto g = mk<D>(a, n, s); auto e = g.cell_at(gc<D>(c)); wm(e.nodes(), o); } \
extern "C" void g##D##_nof(A_, ll i, ll * o) { wi(mk<D>(a, n, s).node_indices_of((typename Grid<D>::CellIndex) i), o); } \
extern "C" void g##D##_nofc(A_, const ll * c, ll * o) { wi(mk<D>(a, n, s).node_indices_of(gc<D>(c)), o); } \
extern "C" ll g##D##_contains(A_, const double * x) { return mk<D>(a, n, s).contains(wc<D>(x)) ? 1 : 0; } \
extern "C" ll g##D##_containse(A_, const double * x, double eps) { return mk<D>(a, n, s).contains(wc<D>(x), eps) ? 1 : 0; } \
extern "C" void g##D##_locate(A_, const double * x, ll * o) { auto g = mk<D>(a, n, s); wi(static_cast<const BG<D> &>(g).cell_coordinates_at(wc<D>(x)), o); } \
extern "C" void g##D##_locateb(A_, const double * x, ll b, ll * o) { auto g = mk<D>(a, n, s); wi(static_cast<const BG<D> &>(g).cell_coordinates_at(wc<D>(x), b != 0), o); } \
extern "C" ll g##D##_find(A_, const double * x, ll b) { return mk<D>(a, n, s).cell_index_containing(wc<D>(x), b != 0); } \
extern "C" void g##D##_around(A_, const double * x, ll q, ll * o) { auto v = mk<D>(a, n, s).cells_around(wc<D>(x)); ll k = 0; for (auto c : v) k += (ll) c == q; o[0] = (ll) v.size(); o[1] = k; } \
extern "C" void g##D##_encl1(A_, const double * x, ll q, ll * o) { auto v = mk<D>(a, n, s).cells_enclosing(wc<D>(x)); o[0] = vh_size(v); o[1] = vh_count(v, q); } \
extern "C" void g##D##_encl2(A_, const double * x, const double * y, ll q, ll * o) { auto v = mk<D>(a, n, s).cells_enclosing(wc<D>(x), wc<D>(y)); o[0] = vh_size(v); o[1] = vh_count(v, q); } \
extern "C" void g##D##_encl3(A_, const double * x, const double * y, const double * z, ll q, ll * o) { auto v = mk<D>(a, n, s).cells_enclosing(wc<D>(x), wc<D>(y), wc<D>(z)); o[0] = vh_size(v); o[1] = vh_count(v, q); }
#if PART == 1
DIM(1)
#elif PART == 2
DIM(2)
extern "C" ll g2_nedges(A_) { return mk<2>(a, n, s).number_of_edges(); }
extern "C" void g2_edge(A_, ll i, ll * o) { wi(mk<2>(a, n, s).edge(i), o); }
#else
DIM(3)
extern "C" ll g3_nedges(A_) { return mk<3>(a, n, s).number_of_edges(); }
extern "C" void g3_edge(A_, ll i, ll * o) { wi(mk<3>(a, n, s).edge(i), o); }
extern "C" ll g3_nfaces(A_) { return mk<3>(a, n, s).number_of_faces(); }
extern "C" void g3_face(A_, ll i, ll * o) { wi(mk<3>(a, n, s).face(i), o); }
#endif
