#include "nlv.hpp"
#include "smearing.hpp"
#include "rt.hpp"
using namespace nlcglib;
typedef Kokkos::View<double*, Kokkos::HostSpace> V;
static V vec(const char* nm, const char* n)
{
  int k = nlv_int(n);
  nlv_assume(k >= 1 && k < 100000);
  V v("v", k);
  nlv_input(v.data(), nm);
  return v;
}
// any two distinct keys, possibly the two spin components of one k-point
static std::pair<int, int> K(int i)
{
  int a = nlv_int("ka"), b = nlv_int("kb"), s = nlv_int("sa"), t = nlv_int("sb");
  nlv_assume(a >= 0 && a < 1000000 && b >= 0 && b < 1000000 && s >= 0 && s < 1000000 && t >= 0 && t < 1000000);
  nlv_assume((a < b) | ((a == b) & (s < t)));
  return i == 0 ? std::make_pair(a, s) : std::make_pair(b, t);
}
static mvector<double> weights()
{
  mvector<double> wk(Communicator{MPI_COMM_WORLD});
  wk[K(0)] = nlv_real("w0");
  wk[K(1)] = nlv_real("w1");
  return wk;
}
static mvector<V> energies()
{
  mvector<V> e;   // as the driver passes them: the result of an evaluation, with the rank's own communicator
  e[K(0)] = vec("e0", "n0");
  e[K(1)] = vec("e1", "n1");
  return e;
}

#define TY(i) static_cast<smearing_type>(i)
#define ALL(F, ty) \
  switch (TY(ty)) { \
    case smearing_type::FERMI_DIRAC: F(smearing<smearing_type::FERMI_DIRAC>) break; \
    case smearing_type::GAUSSIAN_SPLINE: F(smearing<smearing_type::GAUSSIAN_SPLINE>) break; \
    case smearing_type::GAUSS: F(smearing<smearing_type::GAUSS>) break; \
    case smearing_type::METHFESSEL_PAXTON: F(smearing<smearing_type::METHFESSEL_PAXTON>) break; \
    case smearing_type::COLD: F(smearing<smearing_type::COLD>) break; \
  }
// specification: sum over the states of one k-point
template <class S> double spec_entropy(const V& e, double mu, double kT, double mo)
{
  double s = 0;
  for (size_t i = 0; i < e.extent(0); ++i) s += S::entropy((mu - e(i)) / kT, mo);
  return s;
}
extern "C" void total_entropy(int ty)
{
  double T = nlv_real("T");
  double mo = nlv_real("mo");
  nlv_assume(T > 0);
  nlv_assume(mo > 0);
  auto wk = weights();
  Smearing sm(T, 7, mo, wk, TY(ty));
  auto e = energies();
  double mu = nlv_real("mu");
  double S = sm.entropy(e, e, mu);
  double kT = physical_constants::kb * T;
  double ref = 0;
#define SPEC(X) for (auto& k : e) ref += wk.at(k.first) * spec_entropy<X>(k.second, mu, kT, mo);
  ALL(SPEC, ty)
  nlv_eq(S, -nlv_ar_sum(ref), "total entropy = -sum over all k of w_k sum_i s(x_i)");
}
// C01 (templates, exact floating-point comparisons, arbitrary functors)
struct uf_f { double operator()(double mu) const { return nlv_uf("f", mu); } };
struct uf_N { double operator()(double mu) const { return nlv_uf("N", mu); } };
struct uf_dN { double operator()(double mu) const { return nlv_uf("dN", mu); } };
struct uf_ddN { double operator()(double mu) const { return nlv_uf("ddN", mu); } };
extern "C" void find_mu_contract()
{
  double tol = nlv_real("tol");
  double mu0 = nlv_real("mu0");
  double mu;
  try {
    mu = find_chemical_potential(uf_f(), mu0, tol);
  } catch (const std::exception&) {
    nlv_cover("throws");
    return;
  }
  nlv_cover("returns");
  nlv_assert(std::abs(nlv_uf("f", mu)) < tol, "returned mu satisfies |f(mu)| < tol");
}
extern "C" void newton_contract()
{
  double tol = nlv_real("tol");
  double mu0 = nlv_real("mu0");
  double ne = nlv_real("ne");
  double mu;
  try {
    mu = newton_minimization_chemical_potential(uf_N(), uf_dN(), uf_ddN(), mu0, ne, tol);
  } catch (const failed_to_converge&) {
    nlv_cover("throws");
    return;
  }
  nlv_cover("returns");
  nlv_assert(std::abs(nlv_uf("N", mu) - ne) <= 1e-2, "returned mu satisfies |N(mu)-ne| <= 1e-2 (not NaN)");
}
template <class S> double spec_count(const V& e, double mu, double kT, double mo)
{
  double s = 0;
  for (size_t i = 0; i < e.extent(0); ++i) s += S::fn((mu - e(i)) / kT, mo);
  return s;
}
// C01/C02 end to end: Smearing::fn
static bool non_monotone(int ty) { return TY(ty) == smearing_type::METHFESSEL_PAXTON || TY(ty) == smearing_type::COLD; }
extern "C" void occupations(int ty, int what, int newton)
{
  double T = nlv_real("T");
  double mo = nlv_real("mo");
  nlv_assume(T > 0);
  nlv_assume(mo > 0);
  int Ne = nlv_int("Ne");
  nlv_assume(Ne >= 1 && Ne < 1000000);
  auto wk = weights();
  Smearing sm(T, Ne, mo, wk, TY(ty));
  auto e = energies();
  double mu;
  decltype(sm.fn(e)) res;
  try {
    res = sm.fn(e);
  } catch (const std::exception&) {
    nlv_cover("throws");
    return;
  }
  nlv_cover("returns");
  mu = std::get<0>(res);
  auto& fn = std::get<1>(res);
  double kT = physical_constants::kb * T;
  if (what == 1) {
    double n = 0;
#define SPECN(X) for (auto& k : e) n += wk.at(k.first) * spec_count<X>(k.second, mu, kT, mo);
    ALL(SPECN, ty)
    double tol = newton && non_monotone(ty) ? 1e-2 : 1e-11;
    nlv_assert(std::abs(Ne - n) <= tol, "weighted electron count at the returned mu within the tolerance");
  } else {
    nlv_assert(fn.size() == 2, "one occupation vector per local k-point");
    int q = 0;
    for (auto& k : e) {
      V f = fn.at(k.first);
      V ek = k.second;
      nlv_assert(f.extent(0) == ek.extent(0), "one occupation per band");
      int i = nlv_fresh_int("i");
      nlv_assume(i >= 0 && i < (int)ek.extent(0));
      double ref = 0;
#define SPECF(X) ref = X::fn((mu - ek(i)) / kT, mo);
      ALL(SPECF, ty)
      nlv_eq(f(i), ref, "occupation = f((mu - e)/kT)");
    }
    nlv_assert(std::abs(physical_constants::kb / 3.166811563e-6 - 1) < 1e-6, "kT uses the Boltzmann constant in Hartree per Kelvin");
  }
}
