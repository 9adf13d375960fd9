// Stand-in for the SOFA framework (not installed here): the types and signatures that SofaCaribou's headers name.
// Data<T> holds the value it is given, accessors are references to it, links are pointers; scene graph, messages, timers and
// drawing do nothing.  Nothing numerical is modelled here except the component-wise operators of Vec.
#pragma once
#include <string>
#include <vector>
#include <array>
#include <cmath>
#include <algorithm>
#include <stdexcept>
#include <ostream>
#define SOFA_VERSION 211200
#define SOFA_TEMPLATE(C, ...) C<__VA_ARGS__>
#define SOFA_TEMPLATE2(C, ...) C<__VA_ARGS__>
#define SOFA_CLASS(T, P) using MyType = T; using Inherit1 = P; using SPtr = sofa::core::sptr<T>; template <class VhT> using VhData_ = sofa::core::objectmodel::Data<VhT>; \
    template <class VhT> static VhT initData(VhData_<VhT> *, const char *, const char *, bool = true, bool = false) { return VhT(); } \
    template <class VhT, class VhV> static VhT initData(VhData_<VhT> *, const VhV & v, const char *, const char *, bool = true, bool = false) { return static_cast<VhT>(v); } \
    static sofa::vh::LinkTag initLink(const char *, const char *) { return {}; } static const sofa::vh::Class * GetClass() { return nullptr; } using vh_sofa_class = int
#define msg_info() sofa::vh::NullStream()
#define msg_warning() sofa::vh::NullStream()
#define msg_error() sofa::vh::NullStream()
#define SOFA_UNUSED(x) (void) (x)
namespace sofa {
using SReal = double; using Index = unsigned int; using Size = unsigned int;
namespace vh { struct NullStream { template <class T> const NullStream & operator<<(const T &) const { return *this; } }; struct LinkTag {}; struct Class { std::string typeName; }; }
namespace type {
template <std::size_t N, class R> struct Vec {
    using value_type = R; static constexpr int spatial_dimensions = N; R e[N];
    Vec() { for (std::size_t i = 0; i < N; ++i) e[i] = 0; }
    template <class P, class = std::enable_if_t<std::is_pointer_v<P>>> explicit Vec(P p) { for (std::size_t i = 0; i < N; ++i) e[i] = p[i]; }
    R & operator[](std::size_t i) { return e[i]; } const R & operator[](std::size_t i) const { return e[i]; }
    R * data() { return e; } const R * data() const { return e; } R * ptr() { return e; } const R * ptr() const { return e; }
    Vec operator+(const Vec & o) const { Vec r; for (std::size_t i = 0; i < N; ++i) r[i] = e[i] + o[i]; return r; }
    Vec operator-(const Vec & o) const { Vec r; for (std::size_t i = 0; i < N; ++i) r[i] = e[i] - o[i]; return r; }
    Vec operator*(const R & s) const { Vec r; for (std::size_t i = 0; i < N; ++i) r[i] = e[i] * s; return r; }
    Vec & operator+=(const Vec & o) { for (std::size_t i = 0; i < N; ++i) e[i] += o[i]; return *this; }
    Vec & operator-=(const Vec & o) { for (std::size_t i = 0; i < N; ++i) e[i] -= o[i]; return *this; }
    R norm() const { R s = 0; for (std::size_t i = 0; i < N; ++i) s += e[i] * e[i]; return std::sqrt(s); }
};
using Vector3 = Vec<3, double>;
template <Size N, Size M, class R> struct Mat { Vec<M, R> e[N]; Vec<M, R> & operator[](std::size_t i) { return e[i]; } const Vec<M, R> & operator[](std::size_t i) const { return e[i]; } };
using Mat3x3d = Mat<3, 3, double>; using Mat3x3f = Mat<3, 3, float>; using Mat2x2d = Mat<2, 2, double>; using Mat2x2f = Mat<2, 2, float>;
template <class T> struct vector : std::vector<T> { using std::vector<T>::vector; };
template <class T, std::size_t N> struct fixed_array : std::array<T, N> {};
template <class R> struct TBoundingBox { R lo[3], hi[3]; TBoundingBox() { for (int i = 0; i < 3; ++i) lo[i] = hi[i] = 0; } TBoundingBox(const R * a, const R * b) { for (int i = 0; i < 3; ++i) { lo[i] = a[i]; hi[i] = b[i]; } } };
struct RGBAColor { RGBAColor() {} RGBAColor(float, float, float, float) {} static RGBAColor black() { return {}; } static RGBAColor red() { return {}; } static RGBAColor green() { return {}; } };
}
namespace defaulttype {
// sparse matrix by rows: the columns of a row in the order they were added, entries of the same column summed
template <class V> struct Sparse { struct Col { unsigned j; V v; }; struct Line { unsigned i; std::vector<Col> c; }; std::vector<Line> l;
    struct ColIt { const Col * p; unsigned index() const { return p->j; } const V & val() const { return p->v; } bool operator==(const ColIt & o) const { return p == o.p; } bool operator!=(const ColIt & o) const { return p != o.p; } ColIt & operator++() { ++p; return *this; } };
    struct RowIt { const Line * p; unsigned index() const { return p->i; } ColIt begin() const { return {p->c.data()}; } ColIt end() const { return {p->c.data() + p->c.size()}; } bool operator==(const RowIt & o) const { return p == o.p; } bool operator!=(const RowIt & o) const { return p != o.p; } RowIt & operator++() { ++p; return *this; } };
    RowIt begin() const { return {l.data()}; } RowIt end() const { return {l.data() + l.size()}; }
    struct Writer { Sparse * m; std::size_t k; void addCol(unsigned j, const V & v) { for (auto & x : m->l[k].c) if (x.j == j) { x.v += v; return; } m->l[k].c.push_back({j, v}); } };
    Writer writeLine(unsigned i) { for (std::size_t k = 0; k < l.size(); ++k) if (l[k].i == i) return {this, k}; l.push_back({i, {}}); return {this, l.size() - 1}; } };
template <std::size_t N> struct VecT { static constexpr int spatial_dimensions = N; using Real = double; using Coord = type::Vec<N, double>; using Deriv = Coord; using VecCoord = type::vector<Coord>; using VecDeriv = VecCoord; using CPos = Coord; using MatrixDeriv = Sparse<Coord>; static std::string Name() { return "Vec"; } };
using Vec1Types = VecT<1>; using Vec2Types = VecT<2>; using Vec3Types = VecT<3>;
struct BaseMatrix { using Index = int; virtual ~BaseMatrix() = default; virtual void add(Index i, Index j, double v) = 0;
    virtual Index rowSize() const { return 0; } virtual Index colSize() const { return 0; } virtual SReal element(Index, Index) const { return 0; } virtual void resize(Index, Index) {} virtual void clear() {} virtual void set(Index, Index, double) {} virtual void compress() {}
    virtual void add(Index, Index, const type::Mat<3, 3, double> &) {} virtual void add(Index, Index, const type::Mat<3, 3, float> &) {} virtual void add(Index, Index, const type::Mat<2, 2, double> &) {} virtual void add(Index, Index, const type::Mat<2, 2, float> &) {}
    virtual void clearRow(Index) {} virtual void clearRows(Index, Index) {} virtual void clearCol(Index) {} virtual void clearCols(Index, Index) {} virtual void clearRowCol(Index) {} };
struct BaseVector { using Index = int; enum ElementType { ELEMENT_UNKNOWN, ELEMENT_FLOAT, ELEMENT_INT }; virtual ~BaseVector() = default; virtual Index size() const = 0; virtual SReal element(Index) const = 0; virtual void resize(Index) = 0; virtual void clear() = 0; virtual void set(Index, SReal) = 0; virtual void add(Index, SReal) = 0; virtual ElementType getElementType() const { return ELEMENT_UNKNOWN; } virtual std::size_t getElementSize() const { return 0; } };
}
namespace core {
template <class T> struct sptr { T * p = nullptr; sptr() {} sptr(T * q) : p(q) {} T * operator->() const { return p; } T & operator*() const { return *p; } explicit operator bool() const { return p != nullptr; } T * get() const { return p; } };
struct ExecParams {};
struct ConstVecCoordId { static ConstVecCoordId position() { return {}; } static ConstVecCoordId restPosition() { return {}; } };
using VecCoordId = ConstVecCoordId;
struct ConstMultiVecCoordId { ConstMultiVecCoordId() {} ConstMultiVecCoordId(ConstVecCoordId) {} template <class M> ConstVecCoordId getId(const M &) const { return {}; } };
struct MultiVecDerivId {}; struct ConstraintParams {};
struct MechanicalParams { double k = 1; double kFactorIncludingRayleighDamping(double) const { return k; } ConstMultiVecCoordId x() const { return {}; } };
namespace objectmodel {
struct BaseData { virtual ~BaseData() = default; void setParent(BaseData *) {} std::string getName() const { return {}; } std::string getLinkPath() const { return {}; } };
template <class T> struct Data : BaseData { T v; bool set = false; Data() : v() {} Data(const T & x) : v(x) {} const T & getValue() const { return v; } void setValue(const T & x) { v = x; set = true; } bool isSet() const { return set; } };
struct BaseLink { enum { FLAG_STRONGLINK = 1 }; };
template <class O, class T, int F> struct SingleLink { T * p = nullptr; SingleLink() {} SingleLink(vh::LinkTag) {} T * get() const { return p; } void set(T * q) { p = q; } bool empty() const { return p == nullptr; } T * operator->() const { return p; } explicit operator bool() const { return p != nullptr; } std::string getName() const { return {}; } };
struct BaseObject;
struct BaseContext { enum SearchDirection { Local }; virtual ~BaseContext() = default; BaseObject * vh_object = nullptr; BaseContext * getContext() { return this; } BaseContext * getRootContext() { return this; } template <class T> T * get() { return dynamic_cast<T *>(vh_object); }
    void * getMechanicalState() { return nullptr; } template <class T> std::vector<T *> getObjects(SearchDirection) { return {}; } template <class T> T * get(const std::string &) { return nullptr; } template <class T> T * get(SearchDirection) { return nullptr; } };
struct BaseObjectDescription { std::string getAttribute(const std::string &, const std::string & d) { return d; } void setAttribute(const std::string &, const std::string &) {} void logError(const std::string &) {} };
struct Event {};
struct BaseObject {
    Data<bool> f_listening; Data<type::TBoundingBox<double>> f_bbox;
    virtual ~BaseObject() = default;
    virtual void init() {} virtual void reset() {} virtual void handleEvent(Event *) {} virtual std::string getTemplateName() const { return {}; }
    BaseContext * vh_context = nullptr; BaseContext * getContext() const { return vh_context; } std::string getPathName() const { return {}; } BaseData * findData(const std::string &) const { return nullptr; }
    template <class T> static bool canCreate(T *, BaseContext *, BaseObjectDescription *) { return true; }
};
template <class T> sptr<T> New() { return sptr<T>(new T()); }
}
template <class D> struct State : objectmodel::BaseObject {};
namespace topology { struct Topology { using PointID = unsigned int; }; struct BaseMeshTopology : objectmodel::BaseObject {}; }
namespace visual {
struct DisplayFlags { bool getShowForceFields() const { return false; } bool getShowWireFrame() const { return false; } bool getShowMappings() const { return false; } };
struct DrawTool { void saveLastState() {} void restoreLastState() {} void setPolygonMode(int, bool) {} void disableLighting() {} template <class... A> void drawLines(const A & ...) {} template <class... A> void drawTriangles(const A & ...) {} template <class... A> void drawPoints(const A & ...) {} };
struct VisualParams { DisplayFlags displayFlags() const { return {}; } DrawTool * drawTool() const { static DrawTool t; return &t; } };
}
}
namespace helper {
template <class D> struct Acc;
template <class T> struct Acc<core::objectmodel::Data<T>> { using value = T; };
template <class D> struct ReadAccessor { using T = typename Acc<D>::value; const T * p; ReadAccessor(const D & d) : p(&d.v) {} ReadAccessor(const D * d) : p(&d->v) {} const T & ref() const { return *p; } operator const T &() const { return *p; } const T * operator->() const { return p; }
    auto size() const { return p->size(); } bool empty() const { return p->empty(); } decltype(auto) operator[](std::size_t i) const { return (*p)[i]; } auto begin() const { return p->begin(); } auto end() const { return p->end(); } };
template <class D> struct WriteAccessor { using T = typename Acc<D>::value; T * p; WriteAccessor(D & d) : p(&d.v) { d.set = true; } WriteAccessor(D * d) : p(&d->v) { d->set = true; } const T & ref() const { return *p; } T & wref() { return *p; } operator T &() { return *p; } T * operator->() { return p; }
    auto size() const { return p->size(); } bool empty() const { return p->empty(); } void clear() { p->clear(); } void resize(std::size_t n) { p->resize(n); } decltype(auto) operator[](std::size_t i) { return (*p)[i]; } auto begin() { return p->begin(); } auto end() { return p->end(); } };
template <class D> struct WriteOnlyAccessor : WriteAccessor<D> { using WriteAccessor<D>::WriteAccessor; };
struct AdvancedTimer { static void stepBegin(const char *) {} static void stepEnd(const char *) {} template <class V> static void valSet(const char *, const V &) {} };
struct ScopedAdvancedTimer { ScopedAdvancedTimer(const char *) {} };
}
namespace core::behavior {
struct BaseState : objectmodel::BaseObject {};
template <class D> struct MechanicalState : BaseState { using V = objectmodel::Data<typename D::VecCoord>; V x, x0;
    const V * read(ConstVecCoordId) const { return &x; } helper::ReadAccessor<V> readRestPositions() const { return x0; } helper::ReadAccessor<V> readPositions() const { return x; } helper::WriteOnlyAccessor<V> writeOnlyRestPositions() { return x0; } std::size_t getSize() const { return x.v.size(); } };
template <class DT> struct ForceField : objectmodel::BaseObject { using VD = objectmodel::Data<typename DT::VecDeriv>; using VC = objectmodel::Data<typename DT::VecCoord>;
    objectmodel::SingleLink<ForceField, MechanicalState<DT>, 1> mstate; objectmodel::Data<SReal> rayleighStiffness;
    MechanicalState<DT> * getMState() const { return mstate.get(); }
    virtual void addForce(const MechanicalParams *, MultiVecDerivId) {}
    virtual void addForce(const MechanicalParams *, VD &, const VC &, const VD &) = 0; virtual void addDForce(const MechanicalParams *, VD &, const VD &) = 0;
    virtual SReal getPotentialEnergy(const MechanicalParams *, const VC &) const = 0; virtual void addKToMatrix(defaulttype::BaseMatrix *, SReal, unsigned int &) {}
    virtual void computeBBox(const ExecParams *, bool) {} virtual void draw(const visual::VisualParams *) {} };
}
namespace core { template <class I, class O> struct Mapping : objectmodel::BaseObject { behavior::MechanicalState<I> * vh_from = nullptr; behavior::MechanicalState<O> * vh_to = nullptr; int vh_inits = 0; template <class T> using D = objectmodel::Data<T>;
    behavior::MechanicalState<I> * getFromModel() const { return vh_from; } behavior::MechanicalState<O> * getToModel() const { return vh_to; } void init() override { ++vh_inits; }
    virtual void apply(const MechanicalParams *, D<typename O::VecCoord> &, const D<typename I::VecCoord> &) = 0; virtual void applyJ(const MechanicalParams *, D<typename O::VecDeriv> &, const D<typename I::VecDeriv> &) = 0; virtual void applyJT(const MechanicalParams *, D<typename I::VecDeriv> &, const D<typename O::VecDeriv> &) = 0;
    virtual void applyJT(const ConstraintParams *, D<typename I::MatrixDeriv> &, const D<typename O::MatrixDeriv> &) = 0; virtual void draw(const visual::VisualParams *) {} }; }
namespace simulation { struct Node : core::objectmodel::BaseContext { Node * vh_parent = nullptr; std::size_t getNbParents() const { return vh_parent ? 1 : 0; } Node * getFirstParent() const { return vh_parent; } }; struct AnimateBeginEvent { static bool checkEventType(core::objectmodel::Event * e) { return e != nullptr; } }; }
}
using SReal = sofa::SReal;
