// shared by the bounded native stand-ins: dense complex matrices by direct evaluation, a random problem with several k-points
#pragma once
#include <stdexcept>
#include <iostream>
#include <Kokkos_Core.hpp>
#include "la/lapack.hpp"
#include "la/mvector.hpp"
#include "la/utils.hpp"
#include "overlap.hpp"
#include "ultrasoft_precond.hpp"
#include <cstdio>
#include <random>
#include <map>
#include <mpi.h>
using namespace nlcglib;
typedef Kokkos::complex<double> C;
typedef std::complex<double> cd;
typedef Kokkos::HostSpace HS;
typedef Kokkos::View<double*, HS> V;
typedef KokkosDVector<C**, SlabLayoutV, Kokkos::LayoutLeft, HS> mat;
static long n_ = 0, bad_ = 0;
static int case_, rank_, np_;
static void chk(bool ok, const char* what) { ++n_; if (!ok && ++bad_ < 10) printf("FAIL rank %d case %d: %s\n", rank_, case_, what); }
static std::mt19937 gen_(5);
static double U(double a = -1, double b = 1) { return std::uniform_real_distribution<double>(a, b)(gen_); }
static int R(int a, int b) { return std::uniform_int_distribution<int>(a, b)(gen_); }
static Map<> mp(int m, int n) { return Map<>(Communicator(), SlabLayoutV({{0, 0, m, n}})); }
typedef std::vector<std::vector<cd>> D;
static D zeros(int m, int n) { return D(m, std::vector<cd>(n)); }
static D rnd(int m, int n) { D r = zeros(m, n); for (auto& x : r) for (auto& y : x) y = {U(), U()}; return r; }
template <class A> static D get(const A& a)
{
  D r = zeros(a.array().extent(0), a.array().extent(1));
  for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < r[i].size(); ++j) r[i][j] = {a.array()(i, j).real(), a.array()(i, j).imag()};
  return r;
}
static mat put(const D& d)
{
  mat a(mp(d.size(), d[0].size()));
  for (size_t i = 0; i < d.size(); ++i) for (size_t j = 0; j < d[0].size(); ++j) a.array()(i, j) = C(d[i][j].real(), d[i][j].imag());
  return a;
}
static D mul(const D& a, const D& b)
{
  D r = zeros(a.size(), b[0].size());
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b[0].size(); ++j) for (size_t k = 0; k < b.size(); ++k) r[i][j] += a[i][k] * b[k][j];
  return r;
}
static D Hc(const D& a)
{
  D r = zeros(a[0].size(), a.size());
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) r[j][i] = std::conj(a[i][j]);
  return r;
}
static D lin(const D& a, cd x, const D& b, cd y)
{
  D r = a;
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) r[i][j] = x * a[i][j] + y * b[i][j];
  return r;
}
static D one(int n) { D r = zeros(n, n); for (int i = 0; i < n; ++i) r[i][i] = 1; return r; }
static D dg(const V& v) { D r = one(v.extent(0)); for (size_t i = 0; i < r.size(); ++i) r[i][i] = v(i); return r; }
static double nrm(const D& a) { double s = 0; for (auto& x : a) for (auto& y : x) s = std::max(s, std::abs(y)); return s; }
static bool eq(const D& a, const D& b, double tol = 1e-8)
{
  if (a.size() != b.size() || a[0].size() != b[0].size()) return false;
  double s = 1 + nrm(a) + nrm(b);
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) if (!(std::abs(a[i][j] - b[i][j]) < tol * s)) return false;
  return true;
}
static double tr(const D& a, const D& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) s += (std::conj(a[i][j]) * b[i][j]).real(); return s; }
// solution of A x = b by Gaussian elimination with pivoting
static D solve(D a, D b)
{
  int n = a.size(), m = b[0].size();
  for (int c = 0; c < n; ++c) {
    int p = c;
    for (int r = c + 1; r < n; ++r) if (std::abs(a[r][c]) > std::abs(a[p][c])) p = r;
    std::swap(a[p], a[c]); std::swap(b[p], b[c]);
    for (int r = 0; r < n; ++r) if (r != c) {
      cd q = a[r][c] / a[c][c];
      for (int j = 0; j < n; ++j) a[r][j] -= q * a[c][j];
      for (int j = 0; j < m; ++j) b[r][j] -= q * b[c][j];
    }
  }
  for (int r = 0; r < n; ++r) for (int j = 0; j < m; ++j) b[r][j] /= a[r][r];
  return b;
}
static D herm(int n) { D a = rnd(n, n); return lin(a, 0.5, Hc(a), 0.5); }
static D posdef(int n) { D a = rnd(n, n); return lin(mul(a, Hc(a)), 1.0, one(n), 0.5); }
// orthonormal columns by Gram-Schmidt
static D unitary(int n)
{
  D a = rnd(n, n);
  for (int c = 0; c < n; ++c) {
    for (int p = 0; p < c; ++p) { cd s = 0; for (int i = 0; i < n; ++i) s += std::conj(a[i][p]) * a[i][c]; for (int i = 0; i < n; ++i) a[i][c] -= s * a[i][p]; }
    double q = 0; for (int i = 0; i < n; ++i) q += std::norm(a[i][c]);
    for (int i = 0; i < n; ++i) a[i][c] /= std::sqrt(q);
  }
  return a;
}
typedef std::pair<int, int> key;
template <class B> struct Op : B {
  std::map<key, D> m;
  mutable std::map<key, int> calls;
  void apply(const key& k, MatrixBaseZ::buffer_t& out, MatrixBaseZ::buffer_t& in) const override
  {
    const D& a = m.at(k);
    int p = in.size[0], n = in.size[1];
    auto x = reinterpret_cast<const cd*>(in.data); auto y = reinterpret_cast<cd*>(out.data);
    D xx = zeros(p, n);
    for (int i = 0; i < p; ++i) for (int j = 0; j < n; ++j) xx[i][j] = x[i * in.stride[0] + j * in.stride[1]];
    D r = mul(a, xx);
    for (int i = 0; i < p; ++i) for (int j = 0; j < n; ++j) y[i * out.stride[0] + j * out.stride[1]] = r[i][j];
  }
  std::vector<key> get_keys() const override { std::vector<key> v; for (auto& x : m) v.push_back(x.first); return v; }
};
template <class F> static int nat_main(int argc, char** argv, int cases, F f)
{
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
  MPI_Comm_size(MPI_COMM_WORLD, &np_);
  Kokkos::initialize();
  for (case_ = 0; case_ < cases; ++case_) f();
  printf("DONE %ld\n", n_);
  Kokkos::finalize();
  MPI_Finalize();
  return 0;
}
