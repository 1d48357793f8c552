// C09, C10, C18: search directions.  HX = H X, S and K are arbitrary operators (H Hermitian, S and K Hermitian positive definite)
#include "host.hpp"
#include "la/lapack.hpp"
#include "la/mvector.hpp"
#include "overlap.hpp"
#include "ultrasoft_precond.hpp"
#include "mvp2/descent_direction.hpp"
#include "rt.hpp"
#ifndef ST
#define ST FERMI_DIRAC
#endif
static const smearing_type SM = smearing_type::ST;
typedef Kokkos::HostSpace HS;
typedef Kokkos::complex<double> C;
typedef Kokkos::View<double*, HS> V;
typedef KokkosDVector<C**, SlabLayoutV, Kokkos::LayoutLeft, HS> mat_t;
static int O;     // 1: the problem solved before the one looked at
struct Nm { const char* a[2]; const char* operator[](int q) const { return a[q + O]; } };
static const Nm MN = {{"m0", "m1"}}; static const Nm NN = {{"n0", "n1"}};
static const Nm XN = {{"X0", "X1"}}; static const Nm HN = {{"H0", "H1"}}; static const Nm SN = {{"S0", "S1"}}; static const Nm KN = {{"K0", "K1"}};
static const Nm ZN = {{"Z0", "Z1"}}; static const Nm YN = {{"Y0", "Y1"}}; static const Nm UN = {{"U0", "U1"}};
static const Nm EN = {{"e0", "e1"}}; static const Nm FN = {{"f0", "f1"}}; static const Nm WN = {{"w0", "w1"}}; static const Nm DN = {{"d0", "d1"}};
static int NQ;   // number of k-points on this rank
static int dim(const char* n) { int k = nlv_int(n); nlv_assume(k >= 1 && k < 30000); return k; }
static Map<> mp(int m, int n) { return Map<>(Communicator(), SlabLayoutV({{0, 0, m, n}})); }
static V vec(const char* nm, int n) { V v("v", n); nlv_input(v.data(), nm); return v; }
template <class A> static gm::M g(const A& a) { return gm::get(a.array()); }
static int kq(const key& k) { return k == HK[0] ? 0 : 1; }
static gm::M op(const Nm& nm, int q, int fl) { return {nlv_mop(nm[q], dim(MN[q]), fl)}; }
template <class B> struct Op : B {
  const Nm& nm;
  Op(const Nm& nm) : nm(nm) {}
  void apply(const key& k, MatrixBaseZ::buffer_t& out, MatrixBaseZ::buffer_t& in) const override
  {
    int q = kq(k);
    gm::M x{nlv_mget(in.data, in.size[0], in.size[1], in.stride[1])};
    gm::M y = op(nm, q, 4) * x;
    nlv_mput(out.data, out.size[0], out.size[1], out.stride[1], y.h);
  }
  std::vector<key> get_keys() const override { std::vector<key> v; for (int q = 0; q < NQ; ++q) v.push_back(HK[q]); return v; }
};
struct FE {
  mvector<V> ek;
  double occupancy() { return nlv_real("mo"); }
  auto get_ek() { return ek; }
};
struct In {
  mvector<mat_t> X, HX, ZX, ZE, U;
  mvector<V> e, f;
  mvector<double> w;
  FE fe;
  Op<OverlapBase> sb; Op<UltrasoftPrecondBase> kb;
  Overlap S; USPreconditioner K;
  double T, kappa, mu;
  // communicators as the driver passes them: results of evaluations carry the rank's own, what the host hands over the global one
  In() : f(Communicator(MPI_COMM_WORLD)), w(Communicator(MPI_COMM_WORLD)),
         fe{mvector<V>(Communicator(MPI_COMM_WORLD))}, sb(SN), kb(KN), S(sb), K(kb)
  {
    T = nlv_real(O ? "T_1" : "T"); kappa = nlv_real(O ? "kappa_1" : "kappa"); mu = nlv_real(O ? "mu_1" : "mu");
    nlv_assume(T > 0);
    for (int q = 0; q < NQ; ++q) {
      int m = dim(MN[q]), n = dim(NN[q]);
      mat_t x(mp(m, n)), hx(mp(m, n)), zx(mp(m, n)), ze(mp(n, n)), u(mp(n, n));
      gm::letter(x.array(), XN[q]);
      gm::put(hx.array(), op(HN, q, 1) * g(x));
      gm::letter(zx.array(), ZN[q]); gm::letter(ze.array(), YN[q], 1); gm::letter(u.array(), UN[q], 2);
      X[HK[q]] = x; HX[HK[q]] = hx; ZX[HK[q]] = zx; ZE[HK[q]] = ze; U[HK[q]] = u;
      e[HK[q]] = vec(EN[q], n); f[HK[q]] = vec(FN[q], n); fe.ek[HK[q]] = vec(DN[q], n);
      double wk = nlv_real(WN[q]);
      nlv_assume(wk > 0);
      w[HK[q]] = wk;
    }
  }
  gm::M x(int q) { return g(X[HK[q]]); }
  gm::M h(int q) { return op(HN, q, 1); }
  gm::M s(int q) { return op(SN, q, 4); }
  gm::M k(int q) { return op(KN, q, 4); }
  // the inputs held by the caller are unchanged
  void frame()
  {
    for (int q = 0; q < NQ; ++q) {
      int m = dim(MN[q]), n = dim(NN[q]);
      mat_t x(mp(m, n)), zx(mp(m, n)), ze(mp(n, n)), u(mp(n, n));
      gm::letter(x.array(), XN[q]); gm::letter(zx.array(), ZN[q]); gm::letter(ze.array(), YN[q], 1); gm::letter(u.array(), UN[q], 2);
      gm::eq(g(X[HK[q]]), g(x), "the orbitals are not modified"); gm::eq(g(HX[HK[q]]), h(q) * g(x), "H X is not modified");
      gm::eq(g(ZX[HK[q]]), g(zx), "the previous direction is not modified"); gm::eq(g(ZE[HK[q]]), g(ze), "the previous direction is not modified"); gm::eq(g(U[HK[q]]), g(u), "the rotation is not modified");
      int i = idx("i", n);
      nlv_eq(e[HK[q]](i), vec(EN[q], n)(i), "the band energies are not modified"); nlv_eq(f[HK[q]](i), vec(FN[q], n)(i), "the occupations are not modified");
      nlv_eq(w[HK[q]], nlv_real(WN[q]), "the weights are not modified");
    }
    nlv_assert(X.size() == (size_t)NQ && HX.size() == (size_t)NQ && ZX.size() == (size_t)NQ && ZE.size() == (size_t)NQ && U.size() == (size_t)NQ, "no k-point is added or lost");
  }
  auto restarted() { return descent_direction<SM>(T, kappa).restarted(HS(), X, e, f, HX, w, mu, S, K, fe); }
  auto conjugated(double fr) { return descent_direction<SM>(T, kappa).conjugated(HS(), fr, X, e, f, HX, ZX, ZE, U, w, mu, S, K, fe); }
  // gradient with respect to the pseudo-Hamiltonian (C12) for H_ij = w X^H H X
  mat_t geta(int q)
  {
    int n = dim(NN[q]);
    mat_t hij(mp(n, n));
    gm::put(hij.array(), x(q).H() * h(q) * x(q) * nlv_real(WN[q]));
    double dF = GradEtaHelper<SM>::dFdmu(fe.ek, e, f, w, mu, T, nlv_real("mo")), dm = GradEtaHelper<SM>::dmu_deta(e, w, mu, T, nlv_real("mo"));
    return GradEta<SM>(T, kappa).g_eta(hij, mu, nlv_real(WN[q]), e[HK[q]], f[HK[q]], dm, dF, nlv_real("mo"));
  }
  mat_t deta(int q)
  {
    int n = dim(NN[q]);
    mat_t hij(mp(n, n));
    gm::put(hij.array(), x(q).H() * h(q) * x(q) * nlv_real(WN[q]));
    return _delta_eta(kappa)(hij, e[HK[q]], nlv_real(WN[q]));
  }
  // solution of A L = B (the contract of solve_sym; may throw)
  gm::M solve(gm::M A, gm::M B, int q)
  {
    int n = dim(NN[q]);
    mat_t a(mp(n, n)), b(mp(n, n));
    gm::put(a.array(), A); gm::put(b.array(), B);
    solve_sym(a, b);
    return g(b);
  }
  // projected residual R = H X - S X L with (SX)^H K R = 0
  gm::M residual(int q)
  {
    gm::M sx = s(q) * x(q), hx = h(q) * x(q);
    return hx - sx * solve(sx.H() * k(q) * sx, sx.H() * k(q) * hx, q);
  }
  gm::M transported(int q)
  {
    gm::M sx = s(q) * x(q), zu = g(ZX[HK[q]]) * g(U[HK[q]]);
    return zu - sx * solve(sx.H() * sx, sx.H() * zu, q);
  }
  gm::M transported_eta(int q) { return g(U[HK[q]]).H() * g(ZE[HK[q]]) * g(U[HK[q]]); }
  // 2 Re tr(g_X^H Z) with g_X = w (H X f - S X L)
  double slope_x(int q, gm::M z)
  {
    gm::M sx = s(q) * x(q), hx = h(q) * x(q);
    gm::M L = solve(sx.H() * k(q) * sx, sx.H() * k(q) * hx, q);
    gm::M gx = (hx * gm::diag(f[HK[q]]) - sx * L) * nlv_real(WN[q]);
    return 2 * nlv_mtr((gx.H() * z).h);
  }
  double slope_eta(int q, const mat_t& ze)
  {
    mat_t ge = geta(q);
    int n = dim(NN[q]);
    double s = 0;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) s += ge.array()(i, j).real() * ze.array()(i, j).real() + ge.array()(i, j).imag() * ze.array()(i, j).imag();
    return s;
  }
};
// C09
extern "C" void tangent(int nq, int which)
{
  NQ = nq;
  In in;
  mvector<mat_t> z;
  try {
    if (which == 0) z = std::get<1>(in.restarted());
    else z = std::get<2>(in.conjugated(nlv_real("fr_old")));
  } catch (const std::exception&) { return; }
  nlv_assert(z.size() == (size_t)NQ, "a direction for every k-point");
  for (int q = 0; q < NQ; ++q) gm::eq((in.s(q) * in.x(q)).H() * g(z[HK[q]]), gm::one(dim(NN[q])) * 0.0, "(S X)^H Z = 0");
}
// C09/C18: the steepest-descent direction
extern "C" void steepest(int nq)
{
  NQ = nq;
  In in;
  try {
    auto r = in.restarted();
    auto z = std::get<1>(r); auto y = std::get<2>(r);
    nlv_assert(z.size() == (size_t)NQ && y.size() == (size_t)NQ, "a direction for every k-point");
    for (int q = 0; q < NQ; ++q) {
      gm::eq(g(z[HK[q]]), in.k(q) * in.residual(q) * -1.0, "the orbital direction is minus the preconditioner applied to the projected residual");
      gm::eq(g(y[HK[q]]), g(in.deta(q)), "the pseudo-Hamiltonian direction is delta_eta of w X^H H X");
    }
  } catch (const std::exception&) {}
  in.frame();
}
// C18
extern "C" void conj_dir(int nq)
{
  NQ = nq;
  In in;
  double fo = nlv_real("fr_old");
  nlv_assume(fo != 0);
  try {
    auto c = in.conjugated(fo);
    auto z = std::get<2>(c); auto y = std::get<3>(c);
    nlv_assert(z.size() == (size_t)NQ && y.size() == (size_t)NQ, "a direction for every k-point");
    double fr = std::get<0>(c), gamma = fr / fo;
    for (int q = 0; q < NQ; ++q) {
      gm::eq(g(z[HK[q]]), in.k(q) * in.residual(q) * -1.0 + in.transported(q) * gamma, "Z_X = Delta_X + gamma Z'_X");
      gm::eq(g(y[HK[q]]), g(in.deta(q)) + in.transported_eta(q) * gamma, "Z_eta = Delta_eta + gamma U^H Z_eta U");
    }
  } catch (const std::exception&) {}
  in.frame();
}
// C10: which 0 restarted slope, 1 Fletcher-Reeves numerator of a conjugated step, 2 slope of a conjugated step, 3 sign of the orbital part
extern "C" void slopes(int nq, int which)
{
  NQ = nq;
  In in;
  double fo = nlv_real("fr_old");
  nlv_assume(fo != 0);
  try {
    if (which == 0 || which == 3) {
      auto r = in.restarted();
      auto z = std::get<1>(r); auto y = std::get<2>(r);
      double s = 0;
      for (int q = 0; q < NQ; ++q) {
        if (which == 0) s += in.slope_x(q, g(z[HK[q]])) + in.slope_eta(q, y[HK[q]]);
        else {
          gm::M R = in.residual(q);
          s += in.slope_eta(q, y[HK[q]]) - 2 * nlv_real(WN[q]) * nlv_mtr((gm::diag(in.f[HK[q]]) * (R.H() * in.k(q) * R)).h);
        }
      }
      nlv_eq(std::get<0>(r), nlv_ar_sum(s), which == 0 ? "slope = sum of 2 Re tr(g_X^H Z_X) + Re tr(g_eta^H Z_eta)" : "orbital part of the slope = -2 sum of w f_i (R^H K R)_ii, not positive for f >= 0 and positive K");
    } else {
      auto c = in.conjugated(fo);
      double s = 0, t = 0;
      for (int q = 0; q < NQ; ++q) {
        gm::M d = in.k(q) * in.residual(q) * -1.0, zp = in.transported(q);
        mat_t ze(mp(dim(NN[q]), dim(NN[q])));
        gm::put(ze.array(), in.transported_eta(q));
        s += in.slope_x(q, d) + in.slope_eta(q, in.deta(q));
        t += in.slope_x(q, zp) + in.slope_eta(q, ze);
      }
      double fr = nlv_ar_sum(s);
      if (which == 1) nlv_eq(std::get<0>(c), fr, "the Fletcher-Reeves numerator is the slope of the steepest-descent direction");
      // Z = Delta + gamma Z' (C18), so the slope along Z is
      else nlv_eq(std::get<1>(c), fr + std::get<0>(c) / fo * nlv_ar_sum(t), "slope = sum of 2 Re tr(g_X^H Z_X) + Re tr(g_eta^H Z_eta) for Z = Delta + gamma Z'");
    }
  } catch (const std::exception&) {}
}
// any earlier use, with other values, of other functions of the same library
static bool before()
{
  NQ = 1; O = 1;
  In in;
  bool ok = true;
  try { in.restarted(); in.conjugated(nlv_real("fr_old_1")); } catch (const std::exception&) { ok = false; }
  O = 0;
  return ok;
}
extern "C" void after(int fn, int which)
{
  if (!before()) return;
  if (fn == 0) tangent(1, which);
  else if (fn == 1) steepest(1);
  else if (fn == 2) slopes(1, which);
  else conj_dir(1);
}
