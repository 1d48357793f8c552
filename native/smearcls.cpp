// bounded native stand-in for C01 / C02 / C04: the Smearing class on random systems, distributed over the ranks
#include "smearing.hpp"
#include <cstdio>
#include <cstring>
#include <random>
#include <limits>
#include <mpi.h>
using namespace nlcglib;
typedef Kokkos::View<double*, Kokkos::HostSpace> V;
static double law(smearing_type t, int what, double x, double mo)
{
#define L(T) case smearing_type::T: return what ? smearing<smearing_type::T>::entropy(x, mo) : smearing<smearing_type::T>::fn(x, mo);
  switch (t) { L(FERMI_DIRAC) L(GAUSSIAN_SPLINE) L(GAUSS) L(METHFESSEL_PAXTON) L(COLD) }
  return 0;
}
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  int rank, np;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  Kokkos::initialize();
  std::string what = argv[1];
  int ncase = argc > 2 ? atoi(argv[2]) : 300;
  long n = 0, fails = 0;
  {
    std::mt19937 g(7);
    auto U = [&](double a, double b) { return std::uniform_real_distribution<double>(a, b)(g); };
    const smearing_type tys[5] = {smearing_type::FERMI_DIRAC, smearing_type::GAUSSIAN_SPLINE, smearing_type::GAUSS, smearing_type::METHFESSEL_PAXTON, smearing_type::COLD};
    for (int c = 0; c < ncase; ++c) {
      smearing_type ty = tys[c % 5];
      int nk = np + int(U(0, 4)), mode = int(U(0, 3));
      double mo = U(0, 1) < 0.5 ? 1 : 2, T = std::exp(U(std::log(100.0), std::log(3e5)));
      double kT = physical_constants::kb * T;
      std::vector<int> nb(nk);
      std::vector<double> w(nk);
      double sw = 0, cap = 0;
      for (int k = 0; k < nk; ++k) { nb[k] = 1 + int(U(0, 6)); w[k] = U(0.05, 1); sw += w[k]; }
      for (int k = 0; k < nk; ++k) { w[k] /= sw; cap += w[k] * nb[k] * mo; }
      int Ne = std::max(1, int(cap * U(0.1, 0.95)));
      if (Ne >= cap) continue;
      std::vector<std::vector<double>> en(nk);
      for (int k = 0; k < nk; ++k)
        for (int i = 0; i < nb[k]; ++i) en[k].push_back(mode == 0 ? U(-1, 1) : mode == 1 ? std::floor(U(-2, 2)) * 0.3 : U(-3, 3) * kT);
      Communicator comm(MPI_COMM_WORLD);
      mvector<double> wk(comm);
      mvector<V> e;
      for (int k = 0; k < nk; ++k) {
        if (k % np != rank) continue;
        wk[std::make_pair(k / 2, k % 2)] = w[k];
        V v("e", nb[k]);
        for (int i = 0; i < nb[k]; ++i) v(i) = en[k][i];
        e[std::make_pair(k / 2, k % 2)] = v;
      }
      Smearing sm(T, Ne, mo, wk, ty);
      double mu = 0;
      mvector<V> f;
      bool threw = false;
      try {
        auto r = sm.fn(e);
        mu = std::get<0>(r);
        f = static_cast<const mvector<V>&>(std::get<1>(r));
      } catch (std::exception&) { threw = true; }
      ++n;
      bool bad = false;
      char why[400] = "";
      if (what == "C04") {
        double m = threw ? 0.1 : mu, ref = 0;
        for (int k = 0; k < nk; ++k) for (double x : en[k]) ref -= w[k] * law(ty, 1, (m - x) / kT, mo);
        double S = sm.entropy(e, e, m);
        if (!(std::abs(S - ref) <= 1e-10 * (1 + std::abs(ref)))) { bad = true; snprintf(why, 400, "entropy %.15g expected %.15g", S, ref); }
      } else if (!threw && what == "C01") {
        double cnt = 0, loc = 0, tot;
        for (int k = 0; k < nk; ++k) for (double x : en[k]) cnt += w[k] * law(ty, 0, (mu - x) / kT, mo);
        for (auto& k : f) { double s = 0; for (size_t i = 0; i < k.second.extent(0); ++i) s += k.second(i); loc += s * wk[k.first]; }
        MPI_Allreduce(&loc, &tot, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
        double tol = (c % 5 >= 3 ? 1e-2 : 1e-11) + 1e-14 * (1 + Ne) * 10;
        if (!(std::abs(cnt - Ne) <= tol) || !(std::abs(tot - Ne) <= tol)) { bad = true; snprintf(why, 400, "electron count at mu %.15g, of the occupations %.15g, expected %d", cnt, tot, Ne); }
      } else if (!threw && what == "C02") {
        if (f.size() != e.size()) { bad = true; snprintf(why, 400, "missing k-points"); }
        for (auto& k : e) {
          auto it = f.begin();
          while (it != f.end() && it->first != k.first) ++it;
          if (it == f.end() || it->second.extent(0) != k.second.extent(0)) { bad = true; snprintf(why, 400, "no occupations for a k-point"); break; }
          for (size_t i = 0; i < k.second.extent(0); ++i) {
            double ref = law(ty, 0, (mu - k.second(i)) / kT, mo);
            if (!(std::abs(it->second(i) - ref) <= 1e-9)) { bad = true; snprintf(why, 400, "band %zu: %.15g expected %.15g", i, it->second(i), ref); }
          }
        }
      }
      if (bad && ++fails < 10) printf("FAIL rank %d/%d case %d smearing %d kpts %d T=%g mo=%g Ne=%d mu=%.15g: %s\n", rank, np, c, int(ty), nk, T, mo, Ne, mu, why);
    }
    if (what == "C01") {
      double nan = std::numeric_limits<double>::quiet_NaN();
      for (int c = 0; c < 200; ++c) {
        double thr = U(-1, 1), ne = U(0, 5), mu0 = U(-2, 2), off = U(-0.02, 0.02);
        int kind = c % 4;
        auto Nf = [=](double m) -> double {
          if (kind == 0) return nan;
          if (kind == 1) return m == mu0 ? ne + 1e-13 : nan;
          if (kind == 2) return ne + 10 * off;                       // flat, off by more than allowed
          return ne + (m - thr);
        };
        auto one = [=](double) { return kind == 2 ? 1e4 : 1.0; };
        auto zero = [=](double) { return 0.0; };
        try {
          double m = newton_minimization_chemical_potential(Nf, one, zero, mu0, ne, 1e-11);
          if (!(std::abs(Nf(m) - ne) <= 1e-2) && ++fails < 10) printf("FAIL newton kind %d returned mu=%g with N=%g, ne=%g\n", kind, m, Nf(m), ne);
        } catch (const std::exception&) {}
        ++n;
        try {
          auto f = [=](double m) { return ne - Nf(m); };
          double m = find_chemical_potential(f, mu0, 1e-11);
          if (!(std::abs(f(m)) <= 1e-11) && ++fails < 10) printf("FAIL search kind %d returned mu=%g with f=%g\n", kind, m, f(m));
        } catch (const std::exception&) {}
        ++n;
      }
    }
  }
  Kokkos::finalize();
  if (rank == 0) printf("DONE %ld\n", n);
  MPI_Finalize();
  return 0;
}
