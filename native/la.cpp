// bounded native stand-in for C13: random shapes and leading dimensions against direct evaluation
#include <stdexcept>
#include <iostream>
#include <Kokkos_Core.hpp>
#include "la/lapack.hpp"
#include "la/mvector.hpp"
#include "la/utils.hpp"
#include <cstdio>
#include <random>
#include <mpi.h>
using namespace nlcglib;
typedef Kokkos::complex<double> C;
typedef Kokkos::HostSpace H;
typedef KokkosDVector<C**, SlabLayoutV, Kokkos::LayoutLeft, H> mat;
typedef KokkosDVector<C**, SlabLayoutV, Kokkos::LayoutStride, H, Kokkos::MemoryUnmanaged> smat;
static long n_ = 0, bad_ = 0;
static int case_;
static void chk(bool ok, const char* what) { ++n_; if (!ok && ++bad_ < 10) printf("FAIL case %d: %s\n", case_, what); }
template <class F> static bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
static std::mt19937 g(5);
static double U() { return std::uniform_real_distribution<double>(-1, 1)(g); }
static int R(int a, int b) { return std::uniform_int_distribution<int>(a, b)(g); }
static Map<> mp(int m, int n) { return Map<>(Communicator(), SlabLayoutV({{0, 0, m, n}})); }
template <class A> static void fill(A& a)
{
  for (size_t i = 0; i < a.array().extent(0); ++i) for (size_t j = 0; j < a.array().extent(1); ++j) a.array()(i, j) = C(U(), U());
}
typedef std::vector<std::vector<std::complex<double>>> D;
template <class A> static D get(const A& a)
{
  D r(a.array().extent(0), std::vector<std::complex<double>>(a.array().extent(1)));
  for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < r[i].size(); ++j) r[i][j] = {a.array()(i, j).real(), a.array()(i, j).imag()};
  return r;
}
static D mul(const D& a, const D& b)
{
  D r(a.size(), std::vector<std::complex<double>>(b[0].size()));
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b[0].size(); ++j) for (size_t k = 0; k < b.size(); ++k) r[i][j] += a[i][k] * b[k][j];
  return r;
}
static D Hc(const D& a)
{
  D r(a[0].size(), std::vector<std::complex<double>>(a.size()));
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) r[j][i] = std::conj(a[i][j]);
  return r;
}
static D lin(const D& a, std::complex<double> x, const D& b, std::complex<double> y)
{
  D r = a;
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) r[i][j] = x * a[i][j] + y * b[i][j];
  return r;
}
static bool eq(const D& a, const D& b, double tol = 1e-9)
{
  if (a.size() != b.size() || a[0].size() != b[0].size()) return false;
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) if (!(std::abs(a[i][j] - b[i][j]) < tol)) return false;
  return true;
}
static D one(int n) { D r(n, std::vector<std::complex<double>>(n)); for (int i = 0; i < n; ++i) r[i][i] = 1; return r; }
static std::complex<double> s(C c) { return {c.real(), c.imag()}; }
struct buf
{
  std::vector<std::complex<double>> v; smat m;
  buf(int r, int c, int l) : v(l * c, {7.5, -3.25}), m(mp(r, c), buffer_protocol<std::complex<double>, 2>({1, l}, {r, c}, v.data(), memory_type::host, MPI_COMM_SELF)) { fill(m); }
  bool pad(int r, int c, int l) { for (int j = 0; j < c; ++j) for (int i = r; i < l; ++i) if (v[i + j * l] != std::complex<double>(7.5, -3.25)) return false; return true; }
};
template <class X, class Y, class Z> static void prods(X& c, Y& a, Z& b, int op, C al, C be)
{
  D A = get(a), B = get(b), C0 = get(c);
  if (op == 0 && R(0, 1)) { inner(c, a, b); chk(eq(get(c), mul(Hc(A), B)), "inner default"); fill(c); C0 = get(c); }
  if (op == 1 && R(0, 1)) { outer(c, a, b); chk(eq(get(c), mul(A, Hc(B))), "outer default"); fill(c); C0 = get(c); }
  if (op == 0) { inner(c, a, b, al, be); chk(eq(get(c), lin(mul(Hc(A), B), s(al), C0, s(be))), "inner"); }
  if (op == 1) { outer(c, a, b, al, be); chk(eq(get(c), lin(mul(A, Hc(B)), s(al), C0, s(be))), "outer"); }
  if (op == 2) { transform(c, be, al, a, b); chk(eq(get(c), lin(mul(A, B), s(al), C0, s(be))), "transform"); }
  chk(eq(get(a), A, 1e-300) && eq(get(b), B, 1e-300), "operands changed");
}
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  Kokkos::initialize();
  int np; MPI_Comm_size(MPI_COMM_WORLD, &np);
  {
    for (case_ = 0; case_ < 150; ++case_) {
      int m = R(1, 9), n = R(1, 9), k = R(1, 9);
      C al(U(), U()), be(U(), U());
      for (int op = 0; op < 3; ++op) {
        int ar = op == 0 ? k : m, ac = op == 0 ? m : k, br = op == 1 ? n : k, bc = op == 1 ? k : n;
        mat a(mp(ar, ac)), b(mp(br, bc)), c(mp(m, n)); fill(a); fill(b); fill(c);
        prods(c, a, b, op, al, be);
        int la = ar + R(0, 3), lb = br + R(0, 3), lc = m + R(0, 3);
        buf sa(ar, ac, la), sb(br, bc, lb), sc(m, n, lc);
        prods(c, sa.m, sb.m, op, al, be);
        prods(sc.m, a, b, op, al, be);
        chk(sc.pad(m, n, lc), "padding written");
      }
      {
        mat a(mp(k, m)), b(mp(k, n)), c(mp(m, k)); fill(a); fill(b); fill(c);
        auto d = inner_()(a, b, al); chk(eq(get(d), lin(mul(Hc(get(a)), get(b)), s(al), mul(Hc(get(a)), get(b)), 0)), "inner_");
        auto e = transform_alloc(c, b); chk(eq(get(e), mul(get(c), get(b))), "transform_alloc");
        auto f = transform_alloc(c, b, al); chk(eq(get(f), lin(mul(get(c), get(b)), s(al), mul(get(c), get(b)), 0)), "transform_alloc alpha");
      }
      {
        mat a(mp(m, n)), c(mp(m, n)); fill(a); fill(c);
        int l = m + R(0, 3);
        buf sa(m, n, l), sc(m, n, l);
        auto go = [&](auto& c, auto& a) {
          D A = get(a), C0 = get(c);
          if (m == n && c.array().stride(1) == (size_t)m && a.array().stride(1) == (size_t)m) {
            typedef cblas::geam<C> geam;
            D keep = get(c);
            CBLAS_TRANSPOSE tr[3] = {CblasNoTrans, CblasTrans, CblasConjTrans};
            for (int o = 0; o < 2; ++o) for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) if (o || p || q)
              chk(throws([&] { geam::call(o ? CblasRowMajor : CblasColMajor, tr[p], tr[q], n, n, C(1), a.array().data(), n, C(0), c.array().data(), n, c.array().data(), n); }) && get(c) == keep, "geam: unsupported form accepted");
          }
          add(c, a, al, be); chk(eq(get(c), lin(A, s(al), C0, s(be))), "add");
          C0 = get(c); add(c, a, al); chk(eq(get(c), lin(A, s(al), C0, 1)), "add default");
          Kokkos::View<double*, H> x("x", n); D X(n, std::vector<std::complex<double>>(n));
          for (int i = 0; i < n; ++i) { x(i) = U(); X[i][i] = x(i); }
          double p = U(), q = U();
          C0 = get(c); scale(c, a, x, p, q); chk(eq(get(c), lin(mul(A, X), p, C0, q)), "scale by vector");
          scale(c, a, x, p); chk(eq(get(c), lin(mul(A, X), p, C0, 0)), "scale by vector, default");
          C0 = get(c); scale(c, a, p, q); chk(eq(get(c), lin(A, p, C0, q)), "scale by scalar");
          scale(c, a, p); chk(eq(get(c), lin(A, p, C0, 0)), "scale by scalar, default");
          chk(eq(get(a), A, 1e-300), "operand changed");
          C t = innerh_tr()(a, c); std::complex<double> u = 0; D E = get(c);
          for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) u += A[i][j] * std::conj(E[i][j]);
          chk(std::abs(s(t) - u) < 1e-9, "innerh_tr");
        };
        go(c, a); go(c, sa.m); go(sc.m, a);
        chk(sc.pad(m, n, l), "padding written");
        auto d = diag(a); chk((int)d.extent(0) == std::min(m, n), "diag extent");
        for (int i = 0; i < std::min(m, n); ++i) chk(d(i) == a.array()(i, i), "diag");
      }
      {
        mat h(mp(n, n)), u(mp(n, n)); fill(h);
        D h0 = get(h), hh = lin(h0, 1, Hc(h0), 1);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) h.array()(i, j) = C(hh[i][j].real(), hh[i][j].imag());
        Kokkos::View<double*, H> w("w", n);
        eigh(u, w, h);
        D W(n, std::vector<std::complex<double>>(n)); for (int i = 0; i < n; ++i) W[i][i] = w(i);
        chk(eq(mul(hh, get(u)), mul(get(u), W)) && eq(mul(Hc(get(u)), get(u)), one(n)), "eigh"); chk(eq(get(h), hh, 1e-300), "eigh input");
        mat p(mp(n, n)), r(mp(n, k)); fill(r); D r0 = get(r), pp = lin(mul(h0, Hc(h0)), 1, one(n), 0.5), qq = lin(pp, 1, one(n), -400.);
        auto set = [&](mat& x, const D& d) { for (size_t i = 0; i < d.size(); ++i) for (size_t j = 0; j < d[0].size(); ++j) x.array()(i, j) = C(d[i][j].real(), d[i][j].imag()); };
        set(p, pp); solve_sym(p, r); chk(eq(mul(pp, get(r)), r0, 1e-6), "solve_sym");
        set(p, qq); chk(throws([&] { solve_sym(p, r); }), "solve_sym: indefinite matrix not reported");
        int q = n + R(0, 5);
        mat x(mp(q, n)), sx(mp(q, n)); fill(x); D x0 = get(x);
        auto y = loewdin(x); chk(eq(mul(Hc(get(y)), get(y)), one(n), 1e-5), "loewdin"); chk(eq(get(x), x0, 1e-300), "loewdin input");
        mat z(mp(q, q)); fill(z); D S = lin(mul(get(z), Hc(get(z))), 1, one(q), 1);
        set(sx, mul(S, x0)); auto y2 = loewdin(x, sx); chk(eq(mul(Hc(get(y2)), mul(S, get(y2))), one(n), 1e-5), "loewdin S");
      }
    }
    if (np > 1) {
      int n = 3; Map<> d(Communicator(MPI_COMM_WORLD), SlabLayoutV({{0, 0, n, n}}));
      mat a(d), b(mp(n, n)), c(mp(n, n)); fill(a); fill(b);
      Kokkos::View<double*, H> w("w", n);
      chk(throws([&] { inner(c, a, b); }) && throws([&] { outer(c, b, a); }) && throws([&] { transform(a, C(0), C(1), b, c); }) && throws([&] { add(c, a, C(1)); }) && throws([&] { eigh(c, w, a); }) && throws([&] { solve_sym(a, b); }), "distributed operand accepted");
    }
  }
  printf("DONE %ld\n", n_);
  Kokkos::finalize();
  MPI_Finalize();
  return 0;
}
