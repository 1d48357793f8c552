// C11: the geodesic step with the real loewdin, eigh, transform over BLAS/LAPACK contracts; S an arbitrary positive operator
#include "host.hpp"
#include "la/lapack.hpp"
#include "la/mvector.hpp"
#include "overlap.hpp"
#include "geodesic.hpp"
#include "rt.hpp"
typedef Kokkos::HostSpace HS;
typedef Kokkos::complex<double> C;
typedef Kokkos::View<double*, HS> V;
typedef KokkosDVector<C**, SlabLayoutV, Kokkos::LayoutLeft, HS> mat_t;
static const char* MN[2] = {"m0", "m1"}; static const char* NN[2] = {"n0", "n1"};
static const char* SN[2] = {"S0", "S1"};
// the operands of the step under contract, and those of an earlier step
static const char* XNs[2][2] = {{"X0", "X1"}, {"Xp0", "Xp1"}}; static const char* ZNs[2][2] = {{"Z0", "Z1"}, {"Zp0", "Zp1"}};
static const char* YNs[2][2] = {{"Y0", "Y1"}, {"Yp0", "Yp1"}}; static const char* ENs[2][2] = {{"E0", "E1"}, {"Ep0", "Ep1"}};
static int PRE;
#define XN XNs[PRE]
#define ZN ZNs[PRE]
#define YN YNs[PRE]
#define EN ENs[PRE]
static int NQ;
static int dim(const char* n) { int k = nlv_int(n); nlv_assume(k >= 1 && k < 30000); return k; }
static Map<> mp(int m, int n) { return Map<>(Communicator(), SlabLayoutV({{0, 0, m, n}})); }
template <class A> static gm::M g(const A& a) { return gm::get(a.array()); }
static int kq(const key& k) { return k == HK[0] ? 0 : 1; }
static gm::M op(int q) { return {nlv_mop(SN[q], dim(MN[q]), 4)}; }
struct Op : OverlapBase {
  void apply(const key& k, MatrixBaseZ::buffer_t& out, MatrixBaseZ::buffer_t& in) const override
  {
    gm::M x{nlv_mget(in.data, in.size[0], in.size[1], in.stride[1])};
    nlv_mput(out.data, out.size[0], out.size[1], out.stride[1], (op(kq(k)) * x).h);
  }
  std::vector<key> get_keys() const override { std::vector<key> v; for (int q = 0; q < NQ; ++q) v.push_back(HK[q]); return v; }
};
struct In {
  mvector<mat_t> X, E, Z, Y;
  Op sb; Overlap S;
  double t;
  In() : S(sb)
  {
    t = nlv_real(PRE ? "tp" : "t");
    for (int q = 0; q < NQ; ++q) {
      int m = dim(MN[q]), n = dim(NN[q]);
      mat_t x(mp(m, n)), z(mp(m, n)), e(mp(n, n)), y(mp(n, n));
      gm::letter(x.array(), XN[q]); gm::letter(z.array(), ZN[q]); gm::letter(e.array(), EN[q], 1); gm::letter(y.array(), YN[q], 1);
      X[HK[q]] = x; Z[HK[q]] = z; E[HK[q]] = e; Y[HK[q]] = y;
    }
  }
  void frame()
  {
    for (int q = 0; q < NQ; ++q) {
      int m = dim(MN[q]), n = dim(NN[q]);
      mat_t x(mp(m, n)), z(mp(m, n)), e(mp(n, n)), y(mp(n, n));
      gm::letter(x.array(), XN[q]); gm::letter(z.array(), ZN[q]); gm::letter(e.array(), EN[q], 1); gm::letter(y.array(), YN[q], 1);
      gm::eq(g(X[HK[q]]), g(x), "the orbitals are not modified"); gm::eq(g(Z[HK[q]]), g(z), "the direction is not modified");
      gm::eq(g(E[HK[q]]), g(e), "eta is not modified"); gm::eq(g(Y[HK[q]]), g(y), "the direction is not modified");
    }
    nlv_assert(X.size() == (size_t)NQ && Z.size() == (size_t)NQ && E.size() == (size_t)NQ && Y.size() == (size_t)NQ, "no k-point is added or lost");
  }
};
static gm::M left(gm::M m, const char* n) { return {nlv_mleft(m.h, n)}; }
template <class EK, class UL, class XQ> static void post(In& in, int q, const EK& ek, const UL& ul, const XQ& xn)
{
  int m = dim(MN[q]), n = dim(NN[q]);
  gm::M x = g(in.X[HK[q]]), z = g(in.Z[HK[q]]), A = g(in.E[HK[q]]) + g(in.Y[HK[q]]) * in.t;
  nlv_assert((int)ek.extent(0) == n, "one energy per band");
  gm::M U = g(ul), Y = g(xn), W = x + z * in.t;
  gm::eq(A * U, U * gm::diag(ek), "the energies and the rotation diagonalise eta + t Z_eta");
  gm::eq(U.H() * U, gm::one(n), "the rotation is unitary"); gm::eq(U * U.H(), gm::one(n), "the rotation is unitary");
  gm::eq(Y.H() * op(q) * Y, gm::one(n), "the new orbitals are S-orthonormal");
  gm::M F = left(Y, XN[q]);
  gm::eq(Y, W * F, "the new orbitals span the range of X + t Z");
  // rotated by U: the orthonormalised X + t Z, then U
  mat_t w(mp(m, n)), sw(mp(m, n));
  gm::put(w.array(), W); gm::put(sw.array(), op(q) * W);
  auto l = loewdin(w, sw);
  gm::eq(Y, g(l) * U, "the new orbitals are rotated by the eigenvectors of eta + t Z_eta");
}
extern "C" void step(int nq)
{
  NQ = nq;
  In in;
  try {
    auto r = geodesic(HS(), in.X, in.E, in.Z, in.Y, in.S, in.t);
    auto ek = std::get<0>(r); auto ul = std::get<1>(r); auto xn = std::get<2>(r);
    nlv_assert(ek.size() == (size_t)NQ && ul.size() == (size_t)NQ && xn.size() == (size_t)NQ, "a result for every k-point");
    for (int q = 0; q < NQ; ++q) post(in, q, ek[HK[q]], ul[HK[q]], xn[HK[q]]);
  } catch (const std::exception&) {}
  in.frame();
}
// the same after an earlier step from another point, of another length, in another direction; its results stay what they are
extern "C" void step_again(int nq)
{
  NQ = nq;
  PRE = 1;
  In before;
  try {
    auto r0 = geodesic(HS(), before.X, before.E, before.Z, before.Y, before.S, before.t);
    PRE = 0;
    In in;
    auto r = geodesic(HS(), in.X, in.E, in.Z, in.Y, in.S, in.t);
    auto ek = std::get<0>(r); auto ul = std::get<1>(r); auto xn = std::get<2>(r);
    for (int q = 0; q < NQ; ++q) post(in, q, ek[HK[q]], ul[HK[q]], xn[HK[q]]);
    in.frame();
    PRE = 1;
    auto e0 = std::get<0>(r0); auto u0 = std::get<1>(r0); auto x0 = std::get<2>(r0);
    for (int q = 0; q < NQ; ++q) post(before, q, e0[HK[q]], u0[HK[q]], x0[HK[q]]);
    before.frame();
  } catch (const std::exception&) {}
}
// norm-conserving step (no overlap operator)
extern "C" void step_nc()
{
  NQ = 1;
  In in;
  int n = dim(NN[0]);
  try {
    auto en = local::advance_eta(in.t)(in.E[HK[0]], in.Y[HK[0]]);
    gm::eq(g(en), g(in.E[HK[0]]) + g(in.Y[HK[0]]) * in.t, "advance_eta");
    auto eu = local::eigvals_and_vectors()(en);
    auto ul = std::get<1>(eu);
    auto y = local::advance_x(in.t)(in.X[HK[0]], in.Z[HK[0]], ul);
    gm::M Y = g(y);
    gm::eq(Y.H() * Y, gm::one(n), "without an overlap operator: the new orbitals are orthonormal");
    gm::eq(Y, (g(in.X[HK[0]]) + g(in.Z[HK[0]]) * in.t) * left(Y, XN[0]), "without an overlap operator: the new orbitals span the range of X + t Z");
  } catch (const std::exception&) {}
  in.frame();
}
