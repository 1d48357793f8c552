// C09, C10, C18: the k-point-collection functions of mvp2.hpp
#include "dd.cpp"
// the same quantities as functions over k-point collections (mvp2.hpp)
struct NcPrec {   // diagonal_preconditioner by contract (C17): an operator applied out of place or in place
  int q;
  template <class A> auto operator()(const A& x) const { auto y = empty_like()(x); gm::put(y.array(), op(KN, q, 4) * g(x)); return y; }
  template <class A> void apply_in_place(A& x) const { gm::M y = op(KN, q, 4) * g(x); gm::put(x.array(), y); }
};
static void nonempty(size_t n, const char* what) { nlv_assert(n == (size_t)NQ, what); }
// C09: Lagrange multipliers, gradient, preconditioned gradient, tangent projection
extern "C" void parts(int nq, int which)
{
  NQ = nq;
  In in;
  try {
    mvector<mat_t> SX, D, Zc;
    mvector<NcPrec> P;
    for (int q = 0; q < NQ; ++q) {
      mat_t sx(mp(dim(MN[q]), dim(NN[q]))), z(mp(dim(MN[q]), dim(NN[q])));
      gm::put(sx.array(), which == 1 ? in.x(q) : in.s(q) * in.x(q));
      gm::put(z.array(), g(in.ZX[HK[q]]));
      SX[HK[q]] = sx; Zc[HK[q]] = z;
      P.data().insert(std::make_pair(HK[q], NcPrec{q}));
    }
    if (which == 0) {
      auto ll = eval_threaded(lagrange_multipliers(in.X, SX, in.HX, in.K));
      auto gx = eval_threaded(gradX(SX, in.HX, in.f, ll, in.w));
      auto dx = eval_threaded(precondGradX_us(SX, in.HX, in.K, ll));
      nonempty(dx.size(), "a direction for every k-point");
      for (int q = 0; q < NQ; ++q) {
        gm::M sx = in.s(q) * in.x(q), hx = in.h(q) * in.x(q), R = in.residual(q);
        gm::eq(hx - g(ll[HK[q]]), R, "Lagrange multipliers of the residual");
        gm::eq(g(gx[HK[q]]), (hx * gm::diag(in.f[HK[q]]) - g(ll[HK[q]])) * nlv_real(WN[q]), "gradX = w (H X f - S X L)");
        gm::eq(g(dx[HK[q]]), in.k(q) * R * -1.0, "preconditioned gradient = -K R");
        gm::eq(sx.H() * g(dx[HK[q]]), gm::one(dim(NN[q])) * 0.0, "the preconditioned gradient is tangent");
      }
    } else if (which == 1) {   // no overlap operator
      auto ll = eval_threaded(lagrange_multipliers(in.X, SX, in.HX, P));
      auto dx = eval_threaded(precondGradX(SX, in.HX, P, ll));
      nonempty(dx.size(), "a direction for every k-point");
      for (int q = 0; q < NQ; ++q) {
        gm::eq(g(dx[HK[q]]), in.k(q) * (in.h(q) * in.x(q) - g(ll[HK[q]])) * -1.0, "preconditioned gradient = -K R");
        gm::eq(in.x(q).H() * g(dx[HK[q]]), gm::one(dim(NN[q])) * 0.0, "the preconditioned gradient is tangent");
      }
    } else {
      auto z = eval_threaded(apply_lagrange_mult_us(Zc, in.X, SX, 0.0));
      nonempty(z.size(), "a direction for every k-point");
      for (int q = 0; q < NQ; ++q) {
        gm::M sx = in.s(q) * in.x(q), zz = g(in.ZX[HK[q]]);
        gm::eq(g(z[HK[q]]), zz - sx * in.solve(sx.H() * sx, sx.H() * zz, q), "the projection removes only the S X part");
        gm::eq(sx.H() * g(z[HK[q]]), gm::one(dim(NN[q])) * 0.0, "the projected direction is tangent");
      }
    }
    for (int q = 0; q < NQ; ++q) gm::eq(g(SX[HK[q]]), which == 1 ? in.x(q) : in.s(q) * in.x(q), "S X is not modified");
  } catch (const std::exception&) {}
  in.frame();
}
// C18: rotation of the previous direction and its combination with the new gradient
extern "C" void rotations(int nq)
{
  NQ = nq;
  In in;
  double gamma = nlv_real("gamma");
  auto zu = eval_threaded(rotateX(in.ZX, in.U));
  auto ze = eval_threaded(rotateEta(in.ZE, in.U));
  nonempty(zu.size(), "a direction for every k-point"); nonempty(ze.size(), "a direction for every k-point");
  for (int q = 0; q < NQ; ++q) {
    gm::eq(g(zu[HK[q]]), g(in.ZX[HK[q]]) * g(in.U[HK[q]]), "rotateX = Z U");
    gm::eq(g(ze[HK[q]]), in.transported_eta(q), "rotateEta = U^H Z U");
  }
  mvector<mat_t> D;
  for (int q = 0; q < NQ; ++q) D[HK[q]] = in.deta(q);
  auto y = eval_threaded(conjugateeta(D, ze, gamma));
  auto x = eval_threaded(conjugatex(zu, in.X, gamma));
  for (int q = 0; q < NQ; ++q) {
    gm::eq(g(y[HK[q]]), g(in.deta(q)) + in.transported_eta(q) * gamma, "conjugateeta = Delta + gamma Z'");
    gm::M z = g(in.ZX[HK[q]]) * g(in.U[HK[q]]);
    gm::eq(g(x[HK[q]]), z - in.x(q) * (in.x(q).H() * z), "conjugatex = Z - X X^H Z");
    gm::eq(g(D[HK[q]]), g(in.deta(q)), "the new gradient is not modified");
  }
  in.frame();
}
// C10: slopes as functions of gradient and direction
extern "C" void slope_fns(int nq, int which)
{
  NQ = nq;
  In in;
  mvector<mat_t> gx, ge;
  double a = 0, b = 0;
  for (int q = 0; q < NQ; ++q) {
    mat_t hij(mp(dim(NN[q]), dim(NN[q])));
    gm::M hh = in.x(q).H() * in.h(q) * in.x(q);
    gm::put(hij.array(), hh);
    gx[HK[q]] = in.HX[HK[q]]; ge[HK[q]] = hij;
    a += 2 * nlv_mtr(((in.h(q) * in.x(q)).H() * g(in.ZX[HK[q]])).h);
    b += nlv_mtr((hh.H() * g(in.ZE[HK[q]])).h);
  }
  Communicator c(MPI_COMM_WORLD);
  double A = nlv_ar_sum(a), B = nlv_ar_sum(b);
  if (which == 0) {
    auto s = compute_slope(gx, in.ZX, ge, in.ZE, c);
    nlv_eq(std::get<0>(s), A, "compute_slope: sum of 2 Re tr(g_X^H Z_X)"); nlv_eq(std::get<1>(s), B, "compute_slope: sum of Re tr(g_eta^H Z_eta)");
  } else if (which == 1) nlv_eq(compute_slope_single(gx, in.ZX, ge, in.ZE, c), A + B, "compute_slope_single: sum of both");
  else if (which == 2) { nlv_eq(slope_x(gx, in.ZX, c), A, "slope_x: sum of 2 Re tr(g_X^H Z_X)"); nlv_eq(slope_eta(ge, in.ZE, c), B, "slope_eta: sum of Re tr(g_eta^H Z_eta)"); }
  else {
    double r = 0;
    for (int q = 0; q < NQ; ++q) { auto s = local::slope()(gx[HK[q]], in.ZX[HK[q]], ge[HK[q]], in.ZE[HK[q]]); r += std::get<0>(s) + std::get<1>(s); }
    nlv_eq(r, a + b, "local slope: 2 Re tr(g_X^H Z_X) + Re tr(g_eta^H Z_eta)");
  }
  in.frame();
}
