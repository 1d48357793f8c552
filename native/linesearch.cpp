// bounded native stand-in for C07
#include <string>
#include <cmath>
#include <stdexcept>
#include <functional>
#include <limits>
#include "linesearch/linesearch.hpp"
#include <Kokkos_Core.hpp>
#include <cstdio>
#include <mpi.h>
#include <random>
using namespace nlcglib;
struct FEm { double F, last; int n; double pF = 0, pt = 0; double get_F() const { return F; } };
struct Gm
{
  FEm& fe; std::function<double(double)> f;
  std::tuple<double> operator()(double t) { fe.pF = fe.F; fe.pt = fe.last; fe.F = f(t); fe.last = t; if (++fe.n > 2000) throw 7; return std::make_tuple(t); }
};
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  long n = 0, bad = 0;
  std::mt19937 g(3);
  auto U = [&](double a, double b) { return std::uniform_real_distribution<double>(a, b)(g); };
  const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  for (int c = 0; c < 40000; ++c) {
    int kind = c % 10;
    double F0 = U(-5, 5), slope = -std::exp(U(-20, 3)), a = U(-1, 3), tt = U(0.01, 2), tau = U(0.01, 0.95), q = U(0, 1), cut = std::exp(U(-19, 0));
    bool r0 = U(0, 1) < 0.5;
    if (kind == 9) slope = U(0, 1) < 0.2 ? 0 : std::exp(U(-30, 2));
    if (c % 37 == 0) tau = 1 + U(0, 1) * (c % 2);
    unsigned seed = g();
    std::function<double(double)> f;
    if (kind == 0) f = [=](double t) { return F0 + slope * t + std::abs(a) * t * t; };
    else if (kind == 1) f = [=](double t) { return F0 + std::abs(t) * q + 1e-9; };
    else if (kind == 2) f = [=](double t) { return t > cut ? F0 + q : F0 - cut * t; };
    else if (kind == 3) f = [=](double t) { return t > cut ? nan : F0 - q * t; };
    else if (kind == 4) f = [=](double t) { return t == tt ? F0 + q : nan; };
    else if (kind == 5) f = [=](double t) { return F0 + slope * t + a * t * t - 0.3 * a * t * t * t; };
    else if (kind == 6) f = [=](double t) { return F0; };
    else if (kind == 7) f = [=](double t) { std::mt19937 h(seed + unsigned(std::fmod(std::abs(t) * 1e7, 1e9))); return F0 + std::uniform_real_distribution<double>(-1, 2)(h); };
    else if (kind == 8) f = [=](double t) { return t > cut ? inf : F0 - t; };
    else f = [=](double t) { return F0 + slope * t; };
    FEm fe{F0, nan, 0};
    Gm G{fe, f};
    line_search ls;
    ls.t_trial = tt; ls.tau = tau;
    bool r = r0;
    if (c % 3 == 1) {   // an earlier search with the same object
      double P0 = F0 + U(-3, 6), pk = U(-2, 1), ps = -U(0, 2);
      bool jump = U(0, 1) < 0.5;   // lower only close to the start: back-tracking has to find it
      std::function<double(double)> p = [=](double t) { return P0 + (jump ? (t > cut ? q : -cut * t) : pk < 0 ? ps * t + t * t : pk * t); };
      FEm pe{P0, nan, 0};
      Gm P{pe, p};
      bool pr = U(0, 1) < 0.5;
      try { ls(P, pe, ps, pr); } catch (...) {}
    }
    const char* why = nullptr;
    double t = nan;
    ++n;
    try {
      auto x = ls(G, fe, slope, r);
      t = std::get<0>(x);
      if (slope > 0) why = "positive slope accepted";
      else if (!(t == fe.last)) why = "returned point is not the last evaluated";
      else if (std::get<1>(x).type == "qline" && [&] { double A = (fe.pF - slope * fe.pt - F0) / (fe.pt * fe.pt); return A < 0 || !(std::abs(2 * A * t + slope) <= 1e-6 * std::abs(slope) || !std::isfinite(A)); }()) why = "the quadratic step is not the minimiser of the fitted parabola";
      else if (r ? t != 0 : !(fe.F <= F0)) why = r ? "restart requested away from the start" : "increase accepted";
    } catch (SlopeError&) { if (!(slope > 0) || fe.n) why = "slope error"; }
    catch (DescentError&) { if (!r0 || slope > 0 || fe.F < F0) why = "descent error"; }
    catch (std::runtime_error&) { if (!(tau >= 1)) why = "runtime error"; }
    catch (int) { continue; }   // no end: not claimed
    catch (...) { why = "stray exception"; }
    if (why && ++bad < 10) printf("FAIL curve %d slope=%g F0=%.15g t_trial=%g tau=%g restart=%d: %s (t=%g F=%.15g restart=%d)\n", kind, slope, F0, tt, tau, r0, why, t, fe.F, r);
  }
  printf("DONE %ld\n", n);
  MPI_Finalize();
}
