// C13: the CPU linear algebra layer, over the BLAS/LAPACK contracts; any shape, any leading dimension
#include "host.hpp"
#include "la/lapack.hpp"
#include "rt.hpp"
typedef Kokkos::HostSpace H;
typedef Kokkos::complex<double> C;
typedef Kokkos::View<double*, H> V;
typedef KokkosDVector<C**, SlabLayoutV, Kokkos::LayoutLeft, H> mat_t;
typedef KokkosDVector<C**, SlabLayoutV, Kokkos::LayoutStride, H, Kokkos::MemoryUnmanaged> hmat_t;
static int dim(const char* n) { int k = nlv_int(n); nlv_assume(k >= 1 && k < 30000); return k; }
static Map<> mp(int m, int n) { return Map<>(Communicator(), SlabLayoutV({{0, 0, m, n}})); }
static mat_t M(const char* nm, int m, int n, int fl = 0) { mat_t x(mp(m, n)); gm::letter(x.array(), nm, fl); return x; }
// column-major host memory with a leading dimension that may exceed the number of rows
static hmat_t S(const char* nm, const char* ld, int m, int n)
{
  int l = nlv_int(ld);
  nlv_assume(l >= m && l < 30000);
  void* p = nlv_host(nm, 16, 2, m, n, 1, l);
  hmat_t x(mp(m, n), buffer_protocol<std::complex<double>, 2>({1, l}, {m, n}, (std::complex<double>*)p, memory_type::host, MPI_COMM_SELF));
  gm::letter(x.array(), nm);
  return x;
}
static V vec(const char* nm, int n) { V v("v", n); nlv_input(v.data(), nm); return v; }
static C cplx(const char* a, const char* b) { return C(nlv_real(a), nlv_real(b)); }
static gm::M cscale(gm::M a, C c) { return {nlv_mscale(a.h, c.real(), c.imag())}; }
template <class A> static gm::M g(const A& a) { return gm::get(a.array()); }
template <class A> static void same(const A& a, gm::M b, const char* what)
{
  nlv_assert(a.array().data() != nullptr, what);
  gm::eq(g(a), b, what);
}
template <class A> static void shape(const A& a, int m, int n, const char* what)
{
  nlv_assert(a.map().nrows() == m && a.map().ncols() == n && a.array().extent(0) == (size_t)m && a.array().extent(1) == (size_t)n, what);
}
// which: 0 dense, 1 strided operands, 2 strided result
extern "C" void t_inner(int which)
{
  int m = dim("m"), n = dim("n"), k = dim("k");
  C al = cplx("al", "ali"), be = cplx("be", "bei");
  auto go = [&](auto& c, const auto& a, const auto& b) {
    gm::M A = g(a), B = g(b), C0 = g(c);
    inner(c, a, b, al, be);
    same(c, cscale(A.H() * B, al) + cscale(C0, be), "inner: C = alpha A^H B + beta C");
    same(a, A, "inner: the operands are unchanged"); same(b, B, "inner: the operands are unchanged");
  };
  mat_t a = M("A", k, m), b = M("B", k, n), c = M("C", m, n);
  if (which == 0) go(c, a, b);
  else if (which == 1) { hmat_t x = S("A", "la", k, m), y = S("B", "lb", k, n); go(c, x, y); }
  else { hmat_t z = S("C", "lc", m, n); go(z, a, b); }
  if (which == 0) {
    gm::M A = g(a), B = g(b);
    auto d = inner_()(a, b, al);
    shape(d, m, n, "inner_: the result is A.ncols x B.ncols");
    same(d, cscale(A.H() * B, al), "inner_: the result is alpha A^H B");
    auto d1 = inner_()(a, b);
    same(d1, A.H() * B, "inner_: the default is A^H B");
    inner(c, a, b);
    same(c, A.H() * B, "inner: the default overwrites C with A^H B");
  }
}
extern "C" void t_outer(int which)
{
  int m = dim("m"), n = dim("n"), k = dim("k");
  C al = cplx("al", "ali"), be = cplx("be", "bei");
  auto go = [&](auto& c, const auto& a, const auto& b) {
    gm::M A = g(a), B = g(b), C0 = g(c);
    outer(c, a, b, al, be);
    same(c, cscale(A * B.H(), al) + cscale(C0, be), "outer: C = alpha A B^H + beta C");
    same(a, A, "outer: the operands are unchanged"); same(b, B, "outer: the operands are unchanged");
  };
  mat_t a = M("A", m, k), b = M("B", n, k), c = M("C", m, n);
  if (which == 0) go(c, a, b);
  else if (which == 1) { hmat_t x = S("A", "la", m, k), y = S("B", "lb", n, k); go(c, x, y); }
  else { hmat_t z = S("C", "lc", m, n); go(z, a, b); }
  if (which == 0) {
    gm::M A = g(a), B = g(b);
    outer(c, a, b);
    same(c, A * B.H(), "outer: the default overwrites C with A B^H");
  }
}
extern "C" void t_transform(int which)
{
  int m = dim("m"), n = dim("n"), k = dim("k");
  C al = cplx("al", "ali"), be = cplx("be", "bei");
  auto go = [&](auto& c, const auto& a, const auto& b) {
    gm::M A = g(a), B = g(b), C0 = g(c);
    transform(c, be, al, a, b);
    same(c, cscale(A * B, al) + cscale(C0, be), "transform: C = beta C + alpha A B");
    same(a, A, "transform: the operands are unchanged"); same(b, B, "transform: the operands are unchanged");
  };
  mat_t a = M("A", m, k), b = M("B", k, n), c = M("C", m, n);
  if (which == 0) go(c, a, b);
  else if (which == 1) { hmat_t x = S("A", "la", m, k), y = S("B", "lb", k, n); go(c, x, y); }
  else { hmat_t z = S("C", "lc", m, n); go(z, a, b); }
  if (which == 0) {
    gm::M A = g(a), B = g(b);
    auto d = transform_alloc(a, b);
    shape(d, m, n, "transform_alloc: the result is A.nrows x B.ncols");
    same(d, A * B, "transform_alloc: the result is A B");
    auto e = transform_alloc(a, b, al);
    same(e, cscale(A * B, al), "transform_alloc: the result is alpha A B");
  }
}
extern "C" void t_add(int which)
{
  int m = dim("m"), n = dim("n");
  C al = cplx("al", "ali"), be = cplx("be", "bei");
  auto go = [&](auto& c, const auto& a) {
    gm::M A = g(a), C0 = g(c);
    add(c, a, al, be);
    same(c, cscale(A, al) + cscale(C0, be), "add: C = beta C + alpha A");
    same(a, A, "add: the operand is unchanged");
    gm::M C1 = g(c);
    add(c, a, al);
    same(c, cscale(A, al) + C1, "add: the default adds alpha A to C");
  };
  mat_t a = M("A", m, n), c = M("C", m, n);
  if (which == 0) go(c, a);
  else if (which == 1) { hmat_t x = S("A", "la", m, n); go(c, x); }
  else { hmat_t z = S("C", "lc", m, n); go(z, a); }
  if (which == 0) {
    mat_t d = M("D", m, n);
    gm::M A = g(a), D = g(d);
    _add(d, a, al, be);
    same(d, cscale(A, al) + cscale(D, be), "_add: dst = beta dst + alpha src");
    same(a, A, "_add: the operand is unchanged");
    gm::M D1 = g(d);
    _add(d, a, al);
    same(d, cscale(A, al) + D1, "_add: the default adds alpha src to dst");
  }
}
extern "C" void t_scale(int which)
{
  int m = dim("m"), n = dim("n");
  double al = nlv_real("al"), be = nlv_real("be");
  V x = vec("x", n);
  gm::M X = gm::diag(x);
  auto go = [&](auto& c, const auto& a) {
    gm::M A = g(a), C0 = g(c);
    scale(c, a, x, al, be);
    same(c, A * X * al + C0 * be, "scale by a vector: dst = beta dst + alpha src diag(x)");
    same(a, A, "scale: the operand is unchanged");
    gm::M C1 = g(c);
    scale(c, a, x, al);
    same(c, A * X * al, "scale by a vector: the default overwrites dst");
    C1 = g(c);
    scale(c, a, al, be);
    same(c, A * al + C1 * be, "scale by a scalar: dst = beta dst + alpha src");
    scale(c, a, al);
    same(c, A * al, "scale by a scalar: dst = alpha src");
    same(a, A, "scale: the operand is unchanged");
    int i = idx("i", n);
    nlv_eq(x(i), vec("x", n)(i), "scale: the vector is unchanged");
  };
  mat_t a = M("A", m, n), c = M("C", m, n);
  if (which == 0) go(c, a);
  else if (which == 1) { hmat_t y = S("A", "la", m, n); go(c, y); }
  else { hmat_t z = S("C", "lc", m, n); go(z, a); }
}
extern "C" void t_diag()
{
  int m = dim("m"), n = dim("n");
  mat_t a = M("A", m, n);
  auto d = diag(a);
  int i = idx("i", m);
  nlv_assume(i < n);
  nlv_assert(d.extent(0) == (size_t)(m < n ? m : n), "diag: min(nrows, ncols) entries");
  nlv_eq(d(i).real(), a.array()(i, i).real(), "diag: entry i is A(i,i)"); nlv_eq(d(i).imag(), a.array()(i, i).imag(), "diag: entry i is A(i,i)");
  V x = vec("x", n);
  mat_t c = M("Q", m, n);
  auto D = make_diag()(x);
  nlv_assert(D.array().extent(0) == (size_t)n && D.array().extent(1) == (size_t)n && D.map().nrows() == n && D.map().ncols() == n, "make_diag: n x n");
  int j = idx("j", n), k = idx("k", n);
  double v = D.array()(j, k);
  nlv_eq(v, j == k ? x(j) : 0.0, "make_diag: x on the diagonal, zero elsewhere");
}
extern "C" void t_tr(int which)
{
  int m = dim("m"), n = dim("n");
  auto go = [&](const auto& x, const auto& y) {
    C s = innerh_tr()(x, y);
    double re = 0, im = 0;
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j) {
        C a = x.array()(i, j), b = y.array()(i, j);
        re += a.real() * b.real() + a.imag() * b.imag();
        im += a.imag() * b.real() - a.real() * b.imag();
      }
    nlv_eq(s.real(), re, "innerh_tr: real part of tr(X Y^H)"); nlv_eq(s.imag(), im, "innerh_tr: imaginary part of tr(X Y^H)");
  };
  mat_t x = M("A", m, n), y = M("B", m, n);
  if (which == 0) go(x, y);
  else { hmat_t z = S("A", "la", m, n); go(z, y); }
}
extern "C" void t_eigh(int which)
{
  int n = dim("n");
  mat_t s = M("A", n, n, 1);
  gm::M A = g(s);
  V w("w", n);
  auto go = [&](auto& u) {
    bool thrown = false;
    try { eigh(u, w, s); } catch (const std::exception&) { thrown = true; }
    if (thrown) return;
    gm::M U = g(u), W = gm::diag(w);
    gm::eq(A * U, U * W, "eigh: A U = U diag(w)");
    gm::eq(U.H() * U, gm::one(n), "eigh: U is unitary"); gm::eq(U * U.H(), gm::one(n), "eigh: U is unitary");
    same(s, A, "eigh: the input is unchanged");
    nlv_cover("ok");
  };
  mat_t u = M("Q", n, n);
  go(u);
}
// LAPACK failure is reported, never ignored (every execution in which a LAPACK call fails ends in an exception)
extern "C" int nlv_lapack_failed();
extern "C" void t_fail(int which)
{
  int n = dim("n"), r = dim("r");
  mat_t a = M("A", n, n, 1), b = M("B", n, r), u = M("Q", n, n);
  V w("w", n);
  bool thrown = false;
  try {
    if (which == 0) eigh(u, w, a);
    else if (which == 1) solve_sym(a, b);
    else { mat_t x = M("X", n, r); loewdin(x); }
  } catch (const std::exception&) { thrown = true; }
  nlv_assert(thrown == (nlv_lapack_failed() != 0), "a failed factorisation is reported as an exception, a successful one is not");
}
extern "C" void t_solve(int which)
{
  int n = dim("n"), r = dim("r");
  mat_t a = M("A", n, n, 1), b = M("B", n, r);
  gm::M A = g(a), B = g(b);
  auto go = [&](auto& a, auto& b) {
    bool thrown = false;
    try { solve_sym(a, b); } catch (const std::exception&) { thrown = true; }
    if (thrown) return;
    gm::eq(A * g(b), B, "solve_sym: A X = RHS");
    nlv_cover("ok");
  };
  go(a, b);
}
// distributed operands are refused
extern "C" void t_refuse(int which)
{
  int n = dim("n");
  Map<> d(Communicator(MPI_COMM_WORLD), SlabLayoutV({{0, 0, n, n}}));
  mat_t a(d), b = M("B", n, n), c = M("Q", n, n);
  gm::letter(a.array(), "A", 1);
  V w("w", n);
  nlv_assert(refuses([&] { inner(c, a, b); }) && refuses([&] { inner(c, b, a); }) && refuses([&] { inner(a, b, c); }), "inner refuses distributed operands");
  nlv_assert(refuses([&] { outer(c, a, b); }) && refuses([&] { outer(c, b, a); }) && refuses([&] { outer(a, b, c); }), "outer refuses distributed operands");
  nlv_assert(refuses([&] { transform(c, C(0), C(1), a, b); }) && refuses([&] { transform(c, C(0), C(1), b, a); }) && refuses([&] { transform(a, C(0), C(1), b, c); }), "transform refuses distributed operands");
  nlv_assert(refuses([&] { add(c, a, C(1)); }) && refuses([&] { add(a, c, C(1)); }), "add refuses distributed operands");
  nlv_assert(refuses([&] { eigh(c, w, a); }), "eigh refuses distributed operands");
  nlv_assert(refuses([&] { solve_sym(a, b); }) && refuses([&] { solve_sym(b, a); }), "solve_sym refuses distributed operands");
}
// transposed or row-major addition is not implemented and must be refused
extern "C" void t_geam()
{
  int n = dim("n");
  mat_t a = M("A", n, n), b = M("B", n, n);
  gm::M A = g(a), B = g(b);
  typedef cblas::geam<C> geam;
  CBLAS_TRANSPOSE tr[3] = {CblasNoTrans, CblasTrans, CblasConjTrans};
  for (int o = 0; o < 2; ++o)
    for (int s = 0; s < 3; ++s)
      for (int t = 0; t < 3; ++t) {
        bool thrown = refuses([&] { geam::call(o ? CblasRowMajor : CblasColMajor, tr[s], tr[t], n, n, C(1), a.array().data(), n, C(0), b.array().data(), n, b.array().data(), n); });
        nlv_assert(thrown == (o || s || t), "geam refuses exactly the transposed and row-major forms");
        if (thrown) same(b, s || t || o ? A : B, "a refused geam leaves its result alone");
        else same(b, A, "geam: C = alpha A + beta B");
      }
}
// loewdin without and with an overlap operator
extern "C" void t_loewdin(int which)
{
  int m = dim("m"), n = dim("n");
  mat_t x = M("X", m, n);
  gm::M X = g(x), Sop{nlv_mop("Sop", m, 4)};
  bool thrown = false;
  if (which == 0) {
    try {
      auto y = loewdin(x);
      shape(y, m, n, "loewdin: shape of the result");
      gm::eq(g(y).H() * g(y), gm::one(n), "loewdin: Y^H Y = 1");
      gm::eq(g(y), X * gm::M{nlv_mleft(g(y).h, "X")}, "loewdin: the columns span the range of X");
      same(x, X, "loewdin: the input is unchanged");
    } catch (const std::exception&) {}
  } else {
    mat_t sx(mp(m, n));
    gm::put(sx.array(), Sop * X);
    gm::M SX = g(sx);
    try {
      auto y = loewdin(x, sx);
      shape(y, m, n, "loewdin: shape of the result");
      gm::eq(g(y).H() * Sop * g(y), gm::one(n), "loewdin: Y^H S Y = 1");
      gm::eq(g(y), X * gm::M{nlv_mleft(g(y).h, "X")}, "loewdin: the columns span the range of X");
      same(x, X, "loewdin: the input is unchanged"); same(sx, SX, "loewdin: the input is unchanged");
    } catch (const std::exception&) {}
  }
}
