// EigenMatrix and EigenVector driven by a list of operations, through the SOFA stand-in headers
#include <cstring>
#include "geom.hpp"
#include <vector>
#include <SofaCaribou/Algebra/EigenMatrix.h>
#include <SofaCaribou/Algebra/EigenVector.h>
using namespace SofaCaribou::Algebra;
typedef long long ll;
template <class B, class S> static void blk(B & m, int i, int j, const double * v) { sofa::type::Mat<3, 3, S> b; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) b[k][l] = (S) v[3 * k + l]; m.add(i, j, b); }
template <class B, class S> static void blk2(B & m, int i, int j, const double * v) { sofa::type::Mat<2, 2, S> b; for (int k = 0; k < 2; ++k) for (int l = 0; l < 2; ++l) b[k][l] = (S) v[2 * k + l]; m.add(i, j, b); }
template <class M> static void symm(M & m, bool s, decltype(m.set_symmetric(true)) * = nullptr) { m.set_symmetric(s); }
static void symm(...) {}
// op: (code, i, j); value k of op t is v[9 * t + k]
template <class T> static void go(T & w, const ll * ops, ll n, const double * v) {
    sofa::defaulttype::BaseMatrix & m = w;
    for (int t = 0; t < n; ++t) { const int c = (int) ops[3 * t], i = (int) ops[3 * t + 1], j = (int) ops[3 * t + 2]; const double * x = v + 9 * t;
        switch (c) {
            case 0: m.add(i, j, x[0]); break; case 1: m.set(i, j, x[0]); break; case 2: m.compress(); break; case 3: m.clear(); break; case 4: m.clearRow(i); break; case 5: m.clearRows(i, j); break; case 6: m.clearCol(i); break; case 7: m.clearCols(i, j); break;
            case 8: m.clearRowCol(i); break; case 9: m.resize(i, j); break; case 10: blk<sofa::defaulttype::BaseMatrix, double>(m, i, j, x); break; case 11: blk2<sofa::defaulttype::BaseMatrix, double>(m, i, j, x); break; case 12: blk<sofa::defaulttype::BaseMatrix, float>(m, i, j, x); break; case 13: blk2<sofa::defaulttype::BaseMatrix, float>(m, i, j, x); break;
        } } }
// e: the entries by element(), u: by the underlying matrix; r: sizes
template <class T, class U> static void out(const T & w, const U & a, double * e, double * u, ll * r, ll n) { const sofa::defaulttype::BaseMatrix & m = w; r[0] = m.rowSize(); r[1] = m.colSize(); for (int i = 0; i < n * n; ++i) e[i] = u[i] = 0; if (r[0] > n || r[1] > n) return; for (int i = 0; i < r[0]; ++i) for (int j = 0; j < r[1]; ++j) { e[i * n + j] = m.element(i, j); u[i * n + j] = (double) a.coeff(i, j); } }
template <class E> static void run(const ll * ops, ll n, const double * v, ll rows, ll cols, ll sym, double * e, double * u, ll * r, ll N) { EigenMatrix<E> m((Eigen::Index) rows, (Eigen::Index) cols); if constexpr (std::is_base_of_v<Eigen::SparseMatrixBase<E>, E>) m.set_symmetric(sym); else m.clear(); go(m, ops, n, v); out(m, m.matrix(), e, u, r, N); }
template <class E> static void runr(const ll * ops, ll n, const double * v, ll rows, ll cols, ll sym, double * e, double * u, ll * r, ll N) { E a((Eigen::Index) rows, (Eigen::Index) cols); EigenMatrix<E &> m(a); if constexpr (std::is_base_of_v<Eigen::SparseMatrixBase<E>, E>) m.set_symmetric(sym); else m.clear(); go(m, ops, n, v); out(m, a, e, u, r, N); }
template <class E> static void runc(const ll * ops, ll n, const double * v, ll rows, ll cols, ll, double * e, double * u, ll * r, ll N) { E a((Eigen::Index) rows, (Eigen::Index) cols); a.setZero(); EigenMatrix<E> m(a); a.setOnes(); go(m, ops, n, v); out(m, m.matrix(), e, u, r, N); }
#define A const ll * ops, ll n, const double * v, ll rows, ll cols, ll sym, double * e, double * u, ll * r, ll N
#define B ops, n, v, rows, cols, sym, e, u, r, N
extern "C" void sr(A) { run<Eigen::SparseMatrix<double, Eigen::RowMajor>>(B); }
extern "C" void sc(A) { run<Eigen::SparseMatrix<double, Eigen::ColMajor>>(B); }
extern "C" void srr(A) { runr<Eigen::SparseMatrix<double, Eigen::RowMajor>>(B); }
extern "C" void scr(A) { runr<Eigen::SparseMatrix<double, Eigen::ColMajor>>(B); }
extern "C" void dr(A) { run<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>>(B); }
extern "C" void dc(A) { runr<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>>(B); }
extern "C" void dcc(A) { runc<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>>(B); }
// vectors: op (code, i)
template <class T> static void gov(T & w, const ll * ops, ll n, const double * v, double * e, ll * r, ll N) { sofa::defaulttype::BaseVector & m = w; m.clear(); for (int t = 0; t < n; ++t) { const int c = (int) ops[2 * t], i = (int) ops[2 * t + 1]; switch (c) { case 0: m.add(i, v[t]); break; case 1: m.set(i, v[t]); break; case 2: m.clear(); break; case 3: m.resize(i); break; } } r[0] = m.size(); for (int i = 0; i < 2 * N; ++i) e[i] = 0; for (int i = 0; i < r[0] && i < N; ++i) { e[i] = m.element(i); e[N + i] = w.vector()[i]; } }
extern "C" void vec(const ll * ops, ll n, const double * v, ll s, double * e, ll * r, ll N) { EigenVector<Eigen::VectorXd> w((Eigen::Index) s); gov(w, ops, n, v, e, r, N); }
extern "C" void vecr(const ll * ops, ll n, const double * v, ll s, double * e, ll * r, ll N) { Eigen::VectorXd a((Eigen::Index) s); EigenVector<Eigen::VectorXd &> w(a); gov(w, ops, n, v, e, r, N); for (int i = 0; i < a.size() && i < N; ++i) e[N + i] = a[i]; }
