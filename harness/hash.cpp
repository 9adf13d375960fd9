// HashGrid wrappers (compiled with -fno-access-control: the observers read the table, the key comparison is a private type)
#include "geom.hpp"
#include "elems.hpp"
#include <Caribou/Topology/HashGrid.h>
using namespace vh;
using namespace caribou::topology;
typedef long long ll;
template <class G> __attribute__((noinline)) ll vh_cellcount(const G & g, const ll * q, ll id) {
    typename G::GridCoordinates c; for (int i = 0; i < (int) G::Dimension; ++i) c[i] = q[i];
    ll k = 0; for (const auto & e : g.p_hash_table) { bool same = true; for (int i = 0; i < (int) G::Dimension; ++i) same = same && e.first[i] == c[i]; if (same) for (auto x : e.second) k += (ll) x == id; } return k;
}
template <class G> __attribute__((noinline)) ll vh_total(const G & g) { ll k = 0; for (const auto & e : g.p_hash_table) k += (ll) e.second.size(); return k; }
__attribute__((noinline)) ll vh_ssize(const std::set<UNSIGNED_INTEGER_TYPE> & s) { return (ll) s.size(); }
__attribute__((noinline)) ll vh_has(const std::set<UNSIGNED_INTEGER_TYPE> & s, ll id) { return (ll) s.count((UNSIGNED_INTEGER_TYPE) id); }
template <class G, class E> void add_one(const double * n, double h, ll id, const ll * q, ll * o) { G g(h); E e = Make<E>::of(n); g.add(e, (UNSIGNED_INTEGER_TYPE) id); o[0] = vh_cellcount(g, q, id); o[1] = vh_total(g); }
#define X(NAME, ...) \
extern "C" void NAME##_hadd(const double * n, double h, ll id, const ll * q, ll * o) { using E = __VA_ARGS__; using G = HashGrid<E>; add_one<G, E>(n, h, id, q, o); } \
extern "C" void NAME##_hget1(const double * n, double h, ll id, const double * p, ll * o) { using E = __VA_ARGS__; HashGrid<E> g(h, 4); g.add(Make<E>::of(n), (UNSIGNED_INTEGER_TYPE) id); \
    const auto s = g.get(rd_vec<typename HashGrid<E>::WorldCoordinates>(p)); o[0] = vh_has(s, id); o[1] = vh_ssize(s); } \
extern "C" void NAME##_hget2(const double * n, const double * n2, double h, ll id, ll id2, const double * p, ll * o) { using E = __VA_ARGS__; HashGrid<E> g(h); g.add(Make<E>::of(n), (UNSIGNED_INTEGER_TYPE) id); g.add(Make<E>::of(n2), (UNSIGNED_INTEGER_TYPE) id2); \
    const auto s = g.get(rd_vec<typename HashGrid<E>::WorldCoordinates>(p)); o[0] = vh_has(s, id); o[1] = vh_has(s, id2); o[2] = vh_ssize(s); } \
extern "C" ll NAME##_hequal(const ll * a, const ll * b) { using G = HashGrid<__VA_ARGS__>; typename G::GridCoordinates A, B; for (int i = 0; i < (int) G::Dimension; ++i) { A[i] = a[i]; B[i] = b[i]; } typename G::HashEqual q; typename G::HashFunction f; return q(A, B) && (true || f(A)) ? 1 : 0; }
#if PART == 1
X(Seg1L, Segment<1, Linear>)
#elif PART == 2
X(Tri2L, Triangle<2, Linear>)
X(Tri2Q, Triangle<2, Quadratic>)
#elif PART == 3
X(Quad2L, Quad<2, Linear>)
#elif PART == 4
X(TetL, Tetrahedron<Linear>)
X(Tri3L, Triangle<3, Linear>)
#elif PART == 5
X(HexL, Hexahedron<Linear>)
#endif
