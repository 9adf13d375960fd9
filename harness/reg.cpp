// The registry of domains of a mesh (compiled with -fno-access-control)
#include "geom.hpp"
#include <Caribou/Topology/Mesh.h>
#include <Caribou/Topology/Domain.h>
using namespace vh;
using namespace caribou::topology;
typedef long long ll;
typedef UNSIGNED_INTEGER_TYPE ull;
typedef Triangle<2, Linear> E;
typedef Domain<E> Dom;
static const char * const NAMES[3] = {"left", "right", "a domain with a name too long for the small buffer of a string"};
static Dom * mk_dom(const BaseMesh * m, const ll * idx, int j) { typename Dom::ElementsIndices I(1, 3); for (int i = 0; i < 3; ++i) I(0, i) = (ull) idx[3 * j + i]; return new Dom(m, I); }
static void observe(const Mesh<2> & m, ll * o) {       // per name: present, position in the list, nodes, attached to the mesh; then the number of domains
    for (int j = 0; j < 3; ++j) {
        const BaseDomain * d = m.domain(std::string(NAMES[j])); ll * q = o + 6 * j;
        for (int k = 0; k < 6; ++k) q[k] = -1;
        q[0] = d != nullptr;
        if (d) { for (ll i = (ll) m.number_of_domains() - 1; i >= 0; --i) if (m.domain((ull) i) == d) q[1] = i; auto x = static_cast<const Dom *>(d)->element_indices(0); for (int k = 0; k < 3; ++k) q[2 + k] = (ll) x[k]; q[5] = d->mesh() == &m; }
    }
    o[18] = (ll) m.number_of_domains();
}
// codes: 0-2 add the domain j with its name, 3-5 remove by name, 6-8 remove by pointer
extern "C" void reg_history(ll c0, ll c1, ll c2, const ll * idx, ll * r, ll * o) {
    Mesh<2> m; const ll c[3] = {c0, c1, c2};
    for (int s = 0; s < 3; ++s) {
        r[s] = -1;
        for (int j = 0; j < 3; ++j) {
            if (c[s] == j) { if (m.domain(std::string(NAMES[j])) == nullptr) { m.add_domain(mk_dom(nullptr, idx, j), NAMES[j]); r[s] = 1; } else r[s] = 0; }
            if (c[s] == 3 + j) r[s] = m.remove_domain(NAMES[j]);
            if (c[s] == 6 + j) { const BaseDomain * d = m.domain(std::string(NAMES[j])); r[s] = d ? m.remove(d) : 0; }
        }
    }
    observe(m, o);
}
extern "C" void reg_remove3(ll c, const ll * idx, ll * r, ll * o) {      // all three present, one removal
    Mesh<2> m; for (int j = 0; j < 3; ++j) m.add_domain(mk_dom(nullptr, idx, j), NAMES[j]);
    r[0] = -1;
    for (int j = 0; j < 3; ++j) { if (c == j) r[0] = m.remove_domain(NAMES[j]); if (c == 3 + j) r[0] = m.remove(m.domain((ull) j)); }
    if (c == 6) r[0] = m.remove_domain("righ"); if (c == 7) r[0] = m.remove(nullptr);
    observe(m, o);
}
static void nodes(const Mesh<2> & m, int j, double * o) { auto d = static_cast<const Dom *>(m.domain(std::string(NAMES[j]))); const E e = d->element(0); wr(e.nodes(), o); }
template <class V> static void fill(V & v, const double * x) { for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) v(i, k) = x[2 * i + k]; }
// x, y: positions of the three nodes of two meshes; the domain 0 of the first is (2,0,1), the domain 1 of the second (1,2,0)
static void two(Mesh<2> & a, Mesh<2> & b) { static const ll I[9] = {2, 0, 1, 1, 2, 0, 0, 0, 0}; a.add_domain(mk_dom(nullptr, I, 0), NAMES[0]); b.add_domain(mk_dom(nullptr, I, 1), NAMES[1]); }
#define TWO Eigen::MatrixXd v(3, 2), w(3, 2); fill(v, x); fill(w, y); Mesh<2> a(v), b(w); two(a, b);
extern "C" void reg_copy(const double * x, const double * y, double * p, double * q, ll * o1, ll * o2) { TWO Mesh<2> c(a); Mesh<2> * d = new Mesh<2>(c); Mesh<2> f(*d); delete d; observe(f, o1); observe(a, o2); nodes(f, 0, p); nodes(a, 0, q); }
extern "C" void reg_move(const double * x, const double * y, double * p, double * q, ll * o1, ll * o2) { TWO Mesh<2> * h = new Mesh<2>(std::move(a)); Mesh<2> c(std::move(*h)); delete h; observe(c, o1); observe(b, o2); nodes(c, 0, p); nodes(b, 1, q); }
extern "C" void reg_assign(const double * x, const double * y, double * p, double * q, ll * o1, ll * o2) { TWO { Mesh<2> t(b); b = a; a = std::move(t); } observe(b, o1); observe(a, o2); nodes(b, 0, p); nodes(a, 1, q); }
extern "C" void reg_swap(const double * x, const double * y, double * p, double * q, ll * o1, ll * o2) { TWO swap(a, b); observe(b, o1); observe(a, o2); nodes(b, 0, p); nodes(a, 1, q); }
#ifdef VH_NATIVE
#define TRY try {
#define CATCH } catch (const std::exception &) { vh_threw = 1; }
#else
#define TRY
#define CATCH
#endif
extern "C" void reg_refuse(ll c, const ll * idx, ll * o) { TRY       // 0: another domain under a name in use (template add), 1: a domain of another mesh, 2: the same domain under another name, 3: the same domain again (accepted)
    Mesh<2> * m = new Mesh<2>(); Mesh<2> * k = new Mesh<2>(); Dom * d = mk_dom(nullptr, idx, 0); m->add_domain(d, NAMES[0]); typename Dom::ElementsIndices I(1, 3); for (int i = 0; i < 3; ++i) I(0, i) = (ull) idx[i];
    if (c == 0) m->add_domain<E>(NAMES[0], I); if (c == 1) k->add_domain(d, NAMES[1]); if (c == 2) m->add_domain(d, NAMES[1]); if (c == 3) m->add_domain(d, NAMES[0]);
    observe(*m, o);
CATCH }
