// bounded native stand-in for C12
#include <stdexcept>
#include <iostream>
#include <Kokkos_Core.hpp>
#include "la/mvector.hpp"
#include "la/lapack.hpp"
#include "pseudo_hamiltonian/grad_eta.hpp"
#include <cstdio>
#include <random>
#include <mpi.h>
using namespace nlcglib;
typedef Kokkos::HostSpace HS;
typedef Kokkos::complex<double> C;
typedef Kokkos::View<double*, HS> V;
typedef KokkosDVector<C**, SlabLayoutV, Kokkos::LayoutLeft, HS> mat_t;
static long n_ = 0, bad_ = 0;
static int case_, rank_, np_;
static void chk(bool ok, const char* what) { ++n_; if (!ok && ++bad_ < 10) printf("FAIL rank %d case %d: %s\n", rank_, case_, what); }
static bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
static std::mt19937 g(17);
static double U(double a = -1, double b = 1) { return std::uniform_real_distribution<double>(a, b)(g); }
static int R(int a, int b) { return std::uniform_int_distribution<int>(a, b)(g); }
template <smearing_type S> static void go()
{
  double T = std::pow(10., U(1, 5)), mu = U(), mo = R(1, 2), kT = physical_constants::kb * T;
  auto fp = [&](double e) { return smearing<S>::delta((mu - e) / kT, mo); };
  {
    int n = R(1, 7);
    double w = U(0.1, 1), dm = R(0, 3) ? U() : 0.0, dF = U();
    mat_t h(Map<>(Communicator(), SlabLayoutV({{0, 0, n, n}})));
    V e("e", n), f("f", n);
    for (int i = 0; i < n; ++i) { int q = R(0, 3); e(i) = i && !q ? e(i - 1) : i && q == 1 ? e(i - 1) + R(-1, 1) * std::pow(10., U(-13, -1)) : mu + kT * U(-4, 4); f(i) = U(0, mo); }
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { C z(U(), i == j ? 0 : U()); h.array()(i, j) = z; h.array()(j, i) = C(z.real(), -z.imag()); }
    auto ge = GradEta<S>(T, 0.3).g_eta(h, mu, w, e, f, dm, dF, mo);
    auto de = _delta_eta(0.3)(h, e, w);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
      C x = ge.array()(i, j), z = h.array()(i, j), d = de.array()(i, j), xt = ge.array()(j, i);
      chk(near(d.real(), 0.3 * (z.real() / w - (i == j) * e(i))) && near(d.imag(), 0.3 * z.imag() / w), "delta_eta");
      if (i == j) {
        double s = -(z.real() - w * e(i)) * fp(e(i)) / kT;
        if (!(std::abs(dm) < 1e-12)) s += w * fp(e(i)) / dm * dF / kT;
        chk(near(x.real(), s) && x.imag() == 0, "diagonal");
      } else {
        double I = std::abs(e(j) - e(i)) < 1e-10 ? 0 : (f(j) - f(i)) / (e(j) - e(i));
        chk(near(x.real(), I * z.real()) && near(x.imag(), I * z.imag()), "off-diagonal");
        chk(near(x.real(), xt.real()) && near(x.imag(), -xt.imag()), "Hermitian");
      }
    }
  }
  Communicator comm(MPI_COMM_WORLD);
  mvector<V> en, hii(comm), fn(comm);
  mvector<double> wk(comm);
  double s = 0, d = 0;
  int nk = R(np_, 5);
  for (int k = 0; k < nk; ++k) {
    int n = R(1, 6); double w = U(0.1, 1);
    V e("e", n), h("h", n), f("f", n);
    for (int i = 0; i < n; ++i) { e(i) = mu + kT * U(-4, 4); h(i) = U(); f(i) = U(0, mo); s += w * (h(i) - e(i)) * fp(e(i)); d += w * fp(e(i)); }
    if (k % np_ == rank_) { auto key = std::make_pair(k, k % 2); en[key] = e; hii[key] = h; fn[key] = f; wk[key] = w; }
  }
  double a = GradEtaHelper<S>::dFdmu(hii, en, fn, wk, mu, T, mo), b = GradEtaHelper<S>::dmu_deta(en, wk, mu, T, mo);
  chk(near(a, s), "dFdmu"); chk(near(b, d), "dmu_deta");
}
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
  MPI_Comm_size(MPI_COMM_WORLD, &np_);
  Kokkos::initialize();
  for (case_ = 0; case_ < 200; ++case_) {
    go<smearing_type::FERMI_DIRAC>(); go<smearing_type::GAUSSIAN_SPLINE>(); go<smearing_type::COLD>(); go<smearing_type::GAUSS>(); go<smearing_type::METHFESSEL_PAXTON>();
  }
  printf("DONE %ld\n", n_);
  Kokkos::finalize();
  MPI_Finalize();
}
