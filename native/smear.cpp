// native replay for C03/C04/C05: smearing functions against the textbook laws (long double)
#include "smearing.hpp"
#include <cstdio>
#include <cstring>
#include <vector>
#include <cmath>
#include <random>
typedef long double L;
using namespace nlcglib;
static const L PI_ = 3.141592653589793238462643383279502884L;
static L S2() { return sqrtl(2.0L); }
// k = 0,1,2: law and derivatives ; 3: entropy
static L law(int s, int k, L x)
{
  L g = expl(-x * x), sp = sqrtl(PI_), s2 = S2();
  switch (s) {
    case 0: {
      L f = x > 0 ? 1 / (1 + expl(-x)) : expl(x) / (1 + expl(x)), q = x > 0 ? expl(-x) / (1 + expl(-x)) : 1 / (1 + expl(x));
      if (k == 0) return f;
      if (k == 1) return f * q;
      if (k == 2) return f * q * (q - f);
      return (x > 0 ? log1pl(expl(-x)) + x * q : log1pl(expl(x)) - x * f);
    }
    case 1: {
      L a = fabsl(x), E = expl(-a * (s2 + a));
      if (k == 0) return x <= 0 ? E / 2 : 1 - E / 2;
      if (k == 1) return 0.5L * E * (s2 + 2 * a);
      if (k == 2) { L v = 0.5L * E * ((s2 + 2 * a) * (s2 + 2 * a) - 2); return x <= 0 ? v : -v; }
      return 0.25L * (2 * E * a + expl(0.5L) * sp * erfcl(1 / s2 + a));
    }
    case 2:
      if (k == 0) return 0.5L * erfcl(-x);
      if (k == 1) return g / sp;
      if (k == 2) return -2 * x * g / sp;
      return g / sp / 2;
    case 3:
      if (k == 0) return 0.5L * erfcl(-x) + x * g / sp / 2;
      if (k == 1) return g * (1.5L - x * x) / sp;
      if (k == 2) return g * x * (2 * x * x - 5) / sp;
      return g * (1 - 2 * x * x) / 4 / sp;
    default: {
      L z = x - 1 / s2, e = expl(-z * z);
      if (k == 0) return e / s2 / sp + 0.5L * erfcl(-z);
      if (k == 1) return e * (2 - s2 * x) / sp;
      if (k == 2) return e * (s2 - 6 * x + 2 * s2 * x * x) / sp;
      return e * (1 - s2 * x) / 2 / sp;
    }
  }
}
template <class T> static double code(int k, double x, double mo)
{
  return k == 0 ? T::fn(x, mo) : k == 1 ? T::delta(x, mo) : k == 2 ? T::dxdelta(x, mo) : T::entropy(x, mo);
}
static double ev(int s, int k, double x, double mo)
{
  switch (s) {
    case 0: return code<smearing<smearing_type::FERMI_DIRAC>>(k, x, mo);
    case 1: return code<smearing<smearing_type::GAUSSIAN_SPLINE>>(k, x, mo);
    case 2: return code<smearing<smearing_type::GAUSS>>(k, x, mo);
    case 3: return code<smearing<smearing_type::METHFESSEL_PAXTON>>(k, x, mo);
    default: return code<smearing<smearing_type::COLD>>(k, x, mo);
  }
}
int main(int argc, char** argv)
{
  const char* names[] = {"FERMI_DIRAC", "GAUSSIAN_SPLINE", "GAUSS", "METHFESSEL_PAXTON", "COLD"};
  const char* fn[] = {"fn", "delta", "dxdelta", "entropy"};
  std::vector<double> xs;
  for (int i = -64 * 60; i <= 64 * 60; ++i) xs.push_back(i / 64.0);
  std::mt19937 r(1);
  std::uniform_real_distribution<double> u(-50, 50), v(-9, 9);
  for (int i = 0; i < 3000; ++i) { xs.push_back(u(r)); xs.push_back(v(r)); }
  for (double c : {7., 8., 10., 35., 40., 0.}) for (double d : {-1e-9, 1e-9, -1e-3, 1e-3}) { xs.push_back(c + d); xs.push_back(-c + d); }
  for (double c : {100., 500., 709., 745., 800., 1e4, 1e8}) { xs.push_back(c); xs.push_back(-c); }
  std::vector<double> mos = {1, 2, 0.5, 3};
  long n = 0;
  int nf = 0;
  std::string w = argv[1];
  for (int s = 0; s < 5; ++s) {
    for (double mo : mos)
      for (double x : xs) {
        int k0 = w == "C03" ? 0 : w == "C04" ? 3 : 9, k1 = w == "C03" ? 2 : w == "C04" ? 3 : -1;
        for (int k = k0; k <= k1; ++k) {
          double c = ev(s, k, x, mo);
          L t = mo * law(s, k, x);
          ++n;
          if (!(fabsl((L)c - t) <= 2e-12L * mo * (1 + (L)0))) {
            if (++nf < 15) printf("FAIL %s::%s(x=%.17g, mo=%g) = %.17g, law gives %.17Lg\n", names[s], fn[k], x, mo, c, t);
          }
        }
      }
    if (w == "C05") {
      std::sort(xs.begin(), xs.end());
      for (double mo : mos) {
        double prev = -1;
        for (double x : xs) {
          double c = ev(s, 0, x, mo), d = ev(s, 1, x, mo);
          n += 2;
          bool bad = false;
          if (s < 3) {
            if (!(c >= 0 && c <= mo * (1 + 1e-14))) bad = true;
            if (!(c >= prev - 1e-14 * mo)) bad = true;
            if (!(std::abs(c + ev(s, 0, -x, mo) - mo) <= 2e-12 * mo)) bad = true;
            prev = c;
          }
          if (x > 45 && !(std::abs(c - mo) <= 2e-12 * mo && std::abs(d) <= 2e-12 * mo)) bad = true;
          if (x < -45 && !(std::abs(c) <= 2e-12 * mo && std::abs(d) <= 2e-12 * mo)) bad = true;
          if (s && (x > 12) && !(std::abs(c - mo) <= 2e-12 * mo && std::abs(d) <= 2e-12 * mo)) bad = true;
          if (s && (x < -12) && !(std::abs(c) <= 2e-12 * mo && std::abs(d) <= 2e-12 * mo)) bad = true;
          if (bad && ++nf < 15) printf("FAIL %s at x=%.17g mo=%g: fn=%.17g fn(-x)=%.17g delta=%.17g previous fn=%.17g\n", names[s], x, mo, c, ev(s, 0, -x, mo), d, prev);
        }
      }
    }
  }
  printf("DONE %ld\n", n);
  return nf ? 1 : 0;
}
