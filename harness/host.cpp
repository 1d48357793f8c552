#include "host.hpp"
#include "la/mvector.hpp"
#include "overlap.hpp"
#include "ultrasoft_precond.hpp"
#include "rt.hpp"
typedef Kokkos::HostSpace H;
extern "C" void mats()
{
  auto hp = std::make_shared<MatHost>("A", "B", "m0", "n0", "m1", "n1");
  MatHost& h = *hp;
  h.strides(0, nlv_int("s00"), nlv_int("s01"));
  h.strides(1, nlv_int("s10"), nlv_int("s11"));
  auto x = make_mmatrix<H>(hp);
  nlv_assert(x.size() == 2, "one matrix per host entry");
  nlv_assert(x.commk().raw() == MPI_COMM_WORLD, "the collection carries the host's communicator");
  for (int q = 0; q < 2; ++q) {
    auto a = x.at(HK[q]).array();
    nlv_assert((int)a.extent(0) == h.n[q][0] && (int)a.extent(1) == h.n[q][1], "matrix has the host's extents");
    nlv_assert(x.at(HK[q]).map().nrows() == h.n[q][0] && x.at(HK[q]).map().ncols() == h.n[q][1], "matrix map has the host's extents");
    nlv_assert((void*)a.data() == h.p[q], "matrix aliases the host memory");
    nlv_assert(a.stride(0) == (size_t)h.s[q][0] && a.stride(1) == (size_t)h.s[q][1], "matrix has the host's strides");
    int i = idx("i", h.n[q][0]), j = idx("j", h.n[q][1]);
    Kokkos::complex<double>* p = (Kokkos::complex<double>*)h.p[q];
    Kokkos::complex<double> c = p[(size_t)i * h.s[q][0] + (size_t)j * h.s[q][1]], e = a(i, j);
    nlv_eq(e.real(), c.real(), "element (i,j) is the host's element at i*stride0 + j*stride1");
    nlv_eq(e.imag(), c.imag(), "element (i,j) is the host's element at i*stride0 + j*stride1");
  }
}
// C16: copies are complete, dense and independent of what they were copied from
typedef Kokkos::complex<double> C_;
static void eqc(C_ a, C_ b, const char* what) { nlv_eq(a.real(), b.real(), what); nlv_eq(a.imag(), b.imag(), what); }
extern "C" void copies()
{
  auto hp = std::make_shared<MatHost>("A", "B", "m0", "n0", "m1", "n1");
  MatHost& h = *hp;
  h.strides(0, nlv_int("s00"), nlv_int("s01"));
  h.strides(1, nlv_int("s10"), nlv_int("s11"));
  auto x = make_mmatrix<H>(hp);
  auto y = copy(x);
  nlv_assert(y.size() == 2 && x.size() == 2, "a copy has the keys of the original");
  for (int q = 0; q < 2; ++q) {
    auto a = x.at(HK[q]).array();
    auto b = y.at(HK[q]).array();
    auto z = copy(x.at(HK[q])).array();
    auto z0 = zeros_like()(x.at(HK[q])).array();
    auto e = empty_like()(x.at(HK[q])).array();
    for (auto& d : {b, z, z0, e}) {
      nlv_assert(d.extent(0) == a.extent(0) && d.extent(1) == a.extent(1), "a copy has the extents of the original");
      nlv_assert((void*)d.data() != (void*)a.data(), "a copy does not share memory with the original");
      nlv_assert(d.stride(0) == 1 && d.stride(1) == a.extent(0), "a copy is dense");
    }
    nlv_assert((void*)b.data() != (void*)z.data() && (void*)z0.data() != (void*)z.data() && (void*)e.data() != (void*)z.data(), "two copies do not share memory");
    nlv_assert(y.at(HK[q]).map().nrows() == h.n[q][0] && y.at(HK[q]).map().ncols() == h.n[q][1], "the map of a copy is that of the original");
    int i = idx("i", h.n[q][0]), j = idx("j", h.n[q][1]);
    C_ was = a(i, j);
    eqc(b(i, j), was, "a copy holds the entries of the original");
    eqc(z(i, j), was, "a copy holds the entries of the original");
    eqc(z0(i, j), C_(0), "zeros_like is zero everywhere");
    a(i, j) = C_(nlv_real("u"), nlv_real("v"));
    eqc(b(i, j), was, "writing the original does not change the copy");
    eqc(z(i, j), was, "writing the original does not change the copy");
    b(i, j) = C_(nlv_real("p"), nlv_real("r"));
    eqc(a(i, j), C_(nlv_real("u"), nlv_real("v")), "writing the copy does not change the original");
    eqc(z(i, j), was, "writing one copy does not change another");
  }
}
extern "C" void vecs()
{
  auto hp = std::make_shared<VecHost>("a", "b", "m0", "m1");
  VecHost& h = *hp;
  h.strides(0, nlv_int("s0")); h.strides(1, nlv_int("s1"));
  auto x = make_mmvector<H>(hp);
  nlv_assert(x.size() == 2, "one vector per host entry");
  nlv_assert(x.commk().raw() == MPI_COMM_WORLD, "the collection carries the host's communicator");
  for (int q = 0; q < 2; ++q) {
    auto a = x.at(HK[q]);
    nlv_assert((int)a.extent(0) == h.n[q], "vector has the host's length");
    nlv_assert((void*)a.data() != h.p[q], "vector is a copy");
    int i = idx("i", h.n[q]);
    nlv_eq(a(i), ((double*)h.p[q])[(size_t)i * h.s[q]], "element i is the host's element at i*stride0");
  }
}
extern "C" void scalars()
{
  auto hp = std::make_shared<ScaHost>("w0", "w1");
  auto x = make_mmscalar(hp);
  nlv_assert(x.size() == 2, "one scalar per host entry");
  nlv_assert(x.commk().raw() == MPI_COMM_WORLD, "the collection carries the host's communicator");
  for (int q = 0; q < 2; ++q) nlv_eq(x.at(HK[q]), hp->v[q], "scalar is the host's value for that k-point");
}
extern "C" void memkinds(int what, int pos)
{
  memory_type t = what == 0 ? memory_type::none : memory_type::device;
  auto mp = std::make_shared<MatHost>("A", "B", "m0", "n0", "m1", "n1");
  for (int q = 0; q < 2; ++q) mp->strides(q, 1, mp->n[q][0]);
  mp->mt[pos] = t;
  nlv_assert(refuses([&] { make_mmatrix<H>(mp); }), "a matrix that is not in host memory is refused");
  auto vp = std::make_shared<VecHost>("a", "b", "m0", "m1");
  vp->strides(0, 1); vp->strides(1, 1);
  vp->mt[pos] = t;
  nlv_assert(refuses([&] { make_mmvector<H>(vp); }), "a vector that is not in host memory is refused");
}
template <class B> struct Op : B {
  int cnt;
  mutable int calls = 0; mutable key k; mutable MatrixBaseZ::buffer_t out, in;
  Op(int c) : cnt(c) {}
  void apply(const key& kk, MatrixBaseZ::buffer_t& o, MatrixBaseZ::buffer_t& i) const override
  {
    ++calls; k = kk; out.stride = o.stride; out.size = o.size; out.data = o.data; out.memtype = o.memtype;
    in.stride = i.stride; in.size = i.size; in.data = i.data; in.memtype = i.memtype;
    // y(r,c) = d_k(r) * x(r,c) through the described buffers
    for (int c = 0; c < o.size[1]; ++c)
      for (int r = 0; r < o.size[0]; ++r)
        o.data[r * (long)o.stride[0] + c * (long)o.stride[1]] = in.data[r * (long)i.stride[0] + c * (long)i.stride[1]];
  }
  std::vector<key> get_keys() const override { std::vector<key> v; for (int q = 0; q < cnt; ++q) v.push_back(HK[q]); return v; }
};
template <class W, class B, class M> static void op_checks(M x, int m, int n)
{
  Op<B> b(2);
  W w(b);
  for (int q = 0; q < 2; ++q) {
    auto y = w.at(HK[q])(x);
    auto xa = x.array(); auto ya = y.array();
    nlv_assert(b.calls == q + 1, "the host operator is applied once");
    nlv_assert(b.k == HK[q], "the host operator is applied to the requested k-point");
    nlv_assert((void*)b.in.data == (void*)xa.data() && (void*)b.out.data == (void*)ya.data() && ya.data() != xa.data(), "buffers are the input and a fresh output");
    nlv_assert(b.in.size[0] == m && b.in.size[1] == n && b.out.size[0] == m && b.out.size[1] == n, "buffer sizes are the matrix sizes");
    nlv_assert(b.in.stride[0] == (int)xa.stride(0) && b.in.stride[1] == (int)xa.stride(1) && b.out.stride[0] == (int)ya.stride(0) && b.out.stride[1] == (int)ya.stride(1), "buffer strides are the matrix strides");
    nlv_assert(b.in.memtype == memory_type::host && b.out.memtype == memory_type::host, "buffers are described as host memory");
    int i = idx("i", m), j = idx("j", n);
    Kokkos::complex<double> u = xa(i, j), v = ya(i, j);
    nlv_eq(v.real(), u.real(), "result is what the operator wrote");
    nlv_eq(v.imag(), u.imag(), "result is what the operator wrote");
  }
}
typedef KokkosDVector<Kokkos::complex<double>**, SlabLayoutV, Kokkos::LayoutLeft, H> mat_t;
static mat_t matrix(const char* nm, int m, int n)
{
  mat_t x(Map<>(Communicator(), SlabLayoutV({{0, 0, m, n}})));
  nlv_input(x.array().data(), nm);
  return x;
}
extern "C" void operators(int which)
{
  int m = nlv_int("m"), n = nlv_int("n");
  nlv_assume(m >= 1 && m < 30000 && n >= 1 && n < 30000);
  mat_t x = matrix("X", m, n);
  if (which == 0) op_checks<Overlap, OverlapBase>(x, m, n);
  else op_checks<USPreconditioner, UltrasoftPrecondBase>(x, m, n);
}
extern "C" void op_strided()
{
  auto hp = std::make_shared<MatHost>("A", "B", "m0", "n0", "m1", "n1");
  hp->strides(0, nlv_int("s00"), nlv_int("s01"));
  hp->strides(1, nlv_int("s10"), nlv_int("s11"));
  auto x = make_mmatrix<H>(hp);
  op_checks<Overlap, OverlapBase>(x.at(HK[0]), hp->n[0][0], hp->n[0][1]);
}
template <class W, class B> static void iterate(int cnt)
{
  Op<B> b(cnt);
  W w(b);
  const W& cw = w;
  int c = 0;
  for (auto& e : w) { nlv_assert(c < cnt && e.first == HK[c], "iteration yields the operator's keys in order"); ++c; }
  nlv_assert(c == cnt, "iteration yields each key once");
  c = 0;
  for (auto& e : cw) { nlv_assert(c < cnt && e.first == HK[c], "iteration yields the operator's keys in order"); ++c; }
  nlv_assert(c == cnt, "iteration yields each key once");
}
extern "C" void iterate_ov(int cnt) { iterate<Overlap, OverlapBase>(cnt); }
extern "C" void iterate_us(int cnt) { iterate<USPreconditioner, UltrasoftPrecondBase>(cnt); }
// operators over collections: each k-point's operator meets that k-point's matrix, once, when evaluated
template <class W, class B> static void collection()
{
  Op<B> b(2);
  W w(b);
  mvector<mat_t> X;
  static const char* nm[2] = {"X0", "X1"}; static const char* mn[2] = {"m0", "m1"}; static const char* nn[2] = {"n0", "n1"};
  int m[2], n[2];
  for (int q = 0; q < 2; ++q) {
    m[q] = nlv_int(mn[q]); n[q] = nlv_int(nn[q]);
    nlv_assume(m[q] >= 1 && m[q] < 30000 && n[q] >= 1 && n[q] < 30000);
    X[HK[q]] = matrix(nm[q], m[q], n[q]);
  }
  auto a = tapply_op(w, X);
  auto d = tapply([](auto x, auto s) { return s(x); }, X, w);
  auto e = tapply_async([](auto x, auto s) { return s(x); }, X, w);
  nlv_assert(a.size() == 2 && d.size() == 2 && e.size() == 2 && b.calls == 0, "one entry per k-point, nothing applied before evaluation");
  for (int t = 0; t < 3; ++t)
    for (int q = 0; q < 2; ++q) {
      b.calls = 0;
      mat_t y = t == 0 ? eval(a.at(HK[q])) : t == 1 ? eval(d.at(HK[q])) : eval(e.at(HK[q]));
      auto xa = X.at(HK[q]).array(); auto ya = y.array();
      nlv_assert(b.calls == 1 && b.k == HK[q], "the operator of the k-point is applied once");
      nlv_assert((void*)b.in.data == (void*)xa.data() && (void*)b.out.data == (void*)ya.data() && ya.data() != xa.data(), "on the k-point's own matrix, into a fresh one");
      nlv_assert(b.in.size[0] == m[q] && b.in.size[1] == n[q] && b.out.size[0] == m[q] && b.out.size[1] == n[q], "with that matrix's sizes");
      int i = idx("i", m[q]), j = idx("j", n[q]);
      Kokkos::complex<double> u = xa(i, j), v = ya(i, j);
      nlv_eq(v.real(), u.real(), "result is what the operator wrote"); nlv_eq(v.imag(), u.imag(), "result is what the operator wrote");
    }
}
extern "C" void op_collection(int which)
{
  if (which == 0) collection<Overlap, OverlapBase>();
  else collection<USPreconditioner, UltrasoftPrecondBase>();
}
