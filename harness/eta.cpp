// C12: gradient with respect to the pseudo-Hamiltonian, any band count, any smearing
#include "host.hpp"
#include "la/mvector.hpp"
#include "la/lapack.hpp"
#include "pseudo_hamiltonian/grad_eta.hpp"
#include "rt.hpp"
typedef Kokkos::HostSpace HS;
typedef Kokkos::complex<double> C;
typedef Kokkos::View<double*, HS> V;
typedef KokkosDVector<C**, SlabLayoutV, Kokkos::LayoutLeft, HS> mat_t;
static const char* NN[2] = {"n0", "n1"};
static const char* EN[2] = {"e0", "e1"};
static const char* HN[2] = {"h0", "h1"};
static const char* FN[2] = {"f0", "f1"};
static const char* WN[2] = {"w0", "w1"};
static int dim(const char* n) { int k = nlv_int(n); nlv_assume(k >= 1 && k < 30000); return k; }
static V vec(const char* nm, int n) { V v("v", n); nlv_input(v.data(), nm); return v; }
static double kT_(double T) { return physical_constants::kb * T; }
template <smearing_type S> static void helper(int which)
{
  double T = nlv_real("T"), mu = nlv_real("mu"), mo = nlv_real("mo");
  nlv_assume(T > 0);
  mvector<V> en, hii(Communicator(MPI_COMM_WORLD)), fn(Communicator(MPI_COMM_WORLD));
  mvector<double> wk(Communicator(MPI_COMM_WORLD));
  for (int q = 0; q < 2; ++q) {
    int n = dim(NN[q]);
    en[HK[q]] = vec(EN[q], n); hii[HK[q]] = vec(HN[q], n); fn[HK[q]] = vec(FN[q], n); wk[HK[q]] = nlv_real(WN[q]);
  }
  double kT = kT_(T), s = 0;
  if (which == 0) {
    double r = GradEtaHelper<S>::dFdmu(hii, en, fn, wk, mu, T, mo);
    for (int q = 0; q < 2; ++q) {
      double a = 0;
      int n = dim(NN[q]);
      V e = vec(EN[q], n), h = vec(HN[q], n);
      for (int i = 0; i < n; ++i) a += (h(i) - e(i)) * smearing<S>::delta((mu - e(i)) / kT, mo);
      s += nlv_real(WN[q]) * a;
    }
    nlv_eq(r, nlv_ar_sum(s), "dFdmu: sum of w (H_ii - e_i) f'((mu-e_i)/kT) over all k-points of all ranks");
  } else {
    double r = GradEtaHelper<S>::dmu_deta(en, wk, mu, T, mo);
    for (int q = 0; q < 2; ++q) {
      double a = 0;
      int n = dim(NN[q]);
      V e = vec(EN[q], n);
      for (int i = 0; i < n; ++i) a += smearing<S>::delta((mu - e(i)) / kT, mo);
      s += nlv_real(WN[q]) * a;
    }
    nlv_eq(r, nlv_ar_sum(s), "dmu_deta: sum of w f'((mu-e_i)/kT) over all k-points of all ranks");
  }
}
// 0 diagonal, 1 off-diagonal, 2 Hermitian
template <smearing_type S> static void geta(int which)
{
  int n = dim("n");
  double T = nlv_real("T"), mu = nlv_real("mu"), mo = nlv_real("mo"), w = nlv_real("w"), dm = nlv_real("dmu_deta"), dF = nlv_real("dFdmu");
  nlv_assume(T > 0);
  mat_t h(Map<>(Communicator(), SlabLayoutV({{0, 0, n, n}})));
  nlv_input(h.array().data(), "H");
  V e = vec("e", n), f = vec("f", n);
  int i = idx("i", n), j = idx("j", n);
  if (which == 2) {
    if (i != j) h.array()(j, i) = C(h.array()(i, j).real(), -h.array()(i, j).imag());
    else h.array()(i, i) = C(h.array()(i, i).real(), 0);
  }
  C hii = h.array()(i, i), hij = h.array()(i, j);
  auto g = GradEta<S>(T, nlv_real("kappa")).g_eta(h, mu, w, e, f, dm, dF, mo);
  nlv_assert(g.array().extent(0) == (size_t)n && g.array().extent(1) == (size_t)n, "g_eta: n x n");
  double kT = kT_(T);
  if (which == 0) {
    double d = smearing<S>::delta((mu - e(i)) / kT, mo);
    double re = -(hii.real() - w * e(i)) * d / kT, im = -hii.imag() * d / kT;
    if (!(std::abs(dm) < 1e-12)) re += w * d / dm * dF / kT;
    nlv_eq(g.array()(i, i).real(), re, "g_eta: diagonal entry"); nlv_eq(g.array()(i, i).imag(), im, "g_eta: diagonal entry");
  } else if (which == 1) {
    nlv_assume(i != j);
    double ii = std::abs(e(j) - e(i)) < 1e-10 ? 0.0 : (f(j) - f(i)) / (e(j) - e(i));
    nlv_eq(g.array()(i, j).real(), ii * hij.real(), "g_eta: off-diagonal entry"); nlv_eq(g.array()(i, j).imag(), ii * hij.imag(), "g_eta: off-diagonal entry");
  } else if (i == j) {
    nlv_eq(g.array()(i, i).imag(), 0, "g_eta is Hermitian");
  } else {
    nlv_eq(g.array()(i, j).real(), g.array()(j, i).real(), "g_eta is Hermitian"); nlv_eq(g.array()(i, j).imag(), -g.array()(j, i).imag(), "g_eta is Hermitian");
  }
  C h2 = h.array()(i, j);
  nlv_eq(h2.real(), hij.real(), "g_eta: H is unchanged"); nlv_eq(h2.imag(), hij.imag(), "g_eta: H is unchanged");
  nlv_eq(e(i), vec("e", n)(i), "g_eta: the energies are unchanged"); nlv_eq(f(i), vec("f", n)(i), "g_eta: the occupations are unchanged");
}
template <smearing_type S> static void go(int which) { if (which < 2) helper<S>(which); else geta<S>(which - 2); }
extern "C" void eta(int s, int which)
{
  switch (s) {
    case 0: return go<smearing_type::FERMI_DIRAC>(which);
    case 1: return go<smearing_type::GAUSSIAN_SPLINE>(which);
    case 2: return go<smearing_type::COLD>(which);
    case 3: return go<smearing_type::GAUSS>(which);
    case 4: return go<smearing_type::METHFESSEL_PAXTON>(which);
  }
}
extern "C" void delta_eta(int which)
{
  int n = dim("n");
  double w = nlv_real("w"), kappa = nlv_real("kappa");
  nlv_assume(w > 0);
  mat_t h(Map<>(Communicator(), SlabLayoutV({{0, 0, n, n}})));
  nlv_input(h.array().data(), "H");
  V e = vec("e", n);
  int i = idx("i", n), j = idx("j", n);
  if (which == 1) {
    if (i != j) h.array()(j, i) = C(h.array()(i, j).real(), -h.array()(i, j).imag());
    else h.array()(i, i) = C(h.array()(i, i).real(), 0);
  }
  C hij = h.array()(i, j);
  auto d = _delta_eta(kappa)(h, e, w);
  nlv_assert(d.array().extent(0) == (size_t)n && d.array().extent(1) == (size_t)n, "delta_eta: n x n");
  if (which == 0) {
    nlv_eq(d.array()(i, j).real(), kappa * (hij.real() / w - (i == j ? e(i) : 0.0)), "delta_eta = kappa (H_ij / w - e_i delta_ij)");
    nlv_eq(d.array()(i, j).imag(), kappa * hij.imag() / w, "delta_eta = kappa (H_ij / w - e_i delta_ij)");
  } else if (i == j) {
    nlv_eq(d.array()(i, i).imag(), 0, "delta_eta is Hermitian");
  } else {
    nlv_eq(d.array()(i, j).real(), d.array()(j, i).real(), "delta_eta is Hermitian"); nlv_eq(d.array()(i, j).imag(), -d.array()(j, i).imag(), "delta_eta is Hermitian");
  }
  C h2 = h.array()(i, j);
  nlv_eq(h2.real(), hij.real(), "delta_eta: H is unchanged"); nlv_eq(h2.imag(), hij.imag(), "delta_eta: H is unchanged");
  nlv_eq(e(i), vec("e", n)(i), "delta_eta: the energies are unchanged");
}
