// Tensor algebra, strain and (through the SOFA stand-in headers) the hyperelastic materials
#include "geom.hpp"
#include <Eigen/Eigen>
#include <Caribou/Algebra/Tensor.h>
#include <Caribou/Mechanics/Elasticity/Strain.h>
using namespace vh;
template <int R, int C, int O = 0> using Mat = Eigen::Matrix<double, R, C, O>;
template <int R, int C, int O> static Mat<R, C, O> rdm(const double * p) { Mat<R, C, O> m; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(i, j) = p[i * C + j]; return m; }
template <class M> static void wrm(const M & m, double * o) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) o[i * m.cols() + j] = m(i, j); }
#if PART == 1
extern "C" void dyad1_c(const double * a, double * o) { wrm(caribou::algebra::symmetric_dyad_1(rdm<3, 3, 0>(a)), o); }
extern "C" void dyad1_r(const double * a, double * o) { wrm(caribou::algebra::symmetric_dyad_1(rdm<3, 3, Eigen::RowMajor>(a)), o); }
extern "C" void dyad2_c(const double * a, double * o) { wrm(caribou::algebra::symmetric_dyad_2(rdm<3, 3, 0>(a)), o); }
extern "C" void dyad2_r(const double * a, double * o) { wrm(caribou::algebra::symmetric_dyad_2(rdm<3, 3, Eigen::RowMajor>(a)), o); }
#define F_(N, D, O, S) extern "C" void defgrad_##N##_##D##S(const double * dN, const double * U, double * o) { wrm(caribou::mechanics::elasticity::strain::F<N, D, O>(rdm<N, D, O>(dN), rdm<N, D, O>(U)), o); }
F_(3, 2, 0, c) F_(6, 2, 0, c) F_(4, 2, 0, c) F_(8, 2, 0, c) F_(4, 3, 0, c) F_(10, 3, 0, c) F_(8, 3, 0, c) F_(20, 3, 0, c)
F_(4, 3, Eigen::RowMajor, r) F_(8, 3, Eigen::RowMajor, r)
#elif PART == 2
#include <SofaCaribou/Material/NeoHookeanMaterial.h>
#include <SofaCaribou/Material/SaintVenantKirchhoffMaterial.h>
struct Coord3 { using value_type = double; };
struct Vec3 { static constexpr int spatial_dimensions = 3; using Coord = Coord3; static std::string Name() { return "Vec3d"; } };
template <class M> static void mk(M & m, double E, double nu) { m.d_young_modulus.setValue(E); m.d_poisson_ratio.setValue(nu); m.before_update(); }
#define MAT(S, T) \
extern "C" void S##_energy(double E, double nu, double J, const double * C, double * o) { SofaCaribou::material::T<Vec3> m; mk(m, E, nu); o[0] = m.strain_energy_density(J, rdm<3, 3, 0>(C)); } \
extern "C" void S##_stress(double E, double nu, double J, const double * C, double * o) { SofaCaribou::material::T<Vec3> m; mk(m, E, nu); wrm(m.PK2_stress(J, rdm<3, 3, 0>(C)), o); } \
extern "C" void S##_jacobian(double E, double nu, double J, const double * C, double * o) { SofaCaribou::material::T<Vec3> m; mk(m, E, nu); wrm(m.PK2_stress_jacobian(J, rdm<3, 3, 0>(C)), o); }
MAT(nh, NeoHookeanMaterial)
MAT(svk, SaintVenantKirchhoffMaterial)
#endif
