// bounded native stand-in for C09, C10, C18: random problems against direct evaluation of the formulas
#include "nat.hpp"
#include "mvp2/descent_direction.hpp"
struct FE {
  mvector<V> ek; double mo;
  double occupancy() { return mo; }
  auto get_ek() { return ek; }
};
static const char* sel_;   // property whose clauses are reported
static void ck(const char* p, bool ok, const char* what) { if (!strcmp(p, sel_)) chk(ok, what); }
template <smearing_type S> static void go()
{
  Communicator comm(MPI_COMM_WORLD);
  double kT = std::pow(10., U(-3, 0)), T = kT / physical_constants::kb, mu = U(), kappa = U(0.05, 1), mo = R(1, 2), fo = U(-2, -0.1);
  mvector<mat> X, HX, ZX, ZE, Ul;
  mvector<V> e, f(comm);
  mvector<double> w(comm);
  FE fe{mvector<V>(comm), mo};
  Op<OverlapBase> sb; Op<UltrasoftPrecondBase> kb;
  struct Q { D x, hx, s, k, zx, ze, u; V e, f; double w; bool mine; D L, R, dx, zp, ze2, h, de, gx, ge; };
  std::map<key, Q> all;
  int nk = R(np_, 4);
  for (int q = 0; q < nk; ++q) {
    int n = R(1, 4), m = n + R(0, 4);
    key k(q, R(0, 1));
    Q a;
    a.x = rnd(m, n); a.s = posdef(m); a.k = posdef(m); a.hx = mul(herm(m), a.x); a.zx = rnd(m, n); a.ze = herm(n); a.u = unitary(n);
    a.e = V("e", n); a.f = V("f", n); V h("h", n);
    for (int i = 0; i < n; ++i) { a.e(i) = i && !R(0, 3) ? a.e(i - 1) : mu + kT * U(-3, 3); a.f(i) = R(0, 4) ? U(0, mo) : 0; h(i) = U(); }
    a.w = U(0.1, 1); a.mine = q % np_ == rank_;
    if (a.mine) {
      X[k] = put(a.x); HX[k] = put(a.hx); ZX[k] = put(a.zx); ZE[k] = put(a.ze); Ul[k] = put(a.u);
      V e2("e", n), f2("f", n); Kokkos::deep_copy(e2, a.e); Kokkos::deep_copy(f2, a.f);
      e[k] = e2; f[k] = f2; w[k] = a.w; fe.ek[k] = h; sb.m[k] = a.s; kb.m[k] = a.k;
    }
    all[k] = a;
  }
  double dF = GradEtaHelper<S>::dFdmu(fe.ek, e, f, w, mu, T, mo), dm = GradEtaHelper<S>::dmu_deta(e, w, mu, T, mo);
  double fr = 0, orb = 0, orb2 = 0, sp = 0, scale = 1;
  for (auto& it : all) {
    Q& a = it.second;
    D sx = mul(a.s, a.x), ksx = mul(a.k, sx);
    a.L = solve(mul(Hc(sx), ksx), mul(Hc(ksx), a.hx));
    a.R = lin(a.hx, 1.0, mul(sx, a.L), -1.0);
    a.dx = lin(mul(a.k, a.R), -1.0, a.R, 0.0);
    D zu = mul(a.zx, a.u);
    a.zp = lin(zu, 1.0, mul(sx, solve(mul(Hc(sx), sx), mul(Hc(sx), zu))), -1.0);
    a.ze2 = mul(mul(Hc(a.u), a.ze), a.u);
    a.h = lin(mul(Hc(a.x), a.hx), a.w, mul(Hc(a.x), a.hx), 0.0);
    a.de = lin(a.h, kappa / a.w, dg(a.e), -kappa);
    a.gx = lin(mul(a.hx, dg(a.f)), a.w, mul(sx, a.L), -a.w);
    mat hm = put(a.h);
    a.ge = get(GradEta<S>(T, kappa).g_eta(hm, mu, a.w, a.e, a.f, dm, dF, mo));
    double o = 2 * tr(a.gx, a.dx);
    orb += o; fr += o + tr(a.ge, a.de); sp += 2 * tr(a.gx, a.zp) + tr(a.ge, a.ze2);
    scale += std::abs(o) + std::abs(tr(a.ge, a.de)) + std::abs(tr(a.ge, a.ze2));
  }
  auto near = [&](double a, double b) { return std::abs(a - b) <= 1e-7 * scale * (1 + std::abs(fr / fo)); };
  Overlap So(sb); USPreconditioner Ko(kb);
  descent_direction<S> dd(T, kappa);
  auto frame = [&] {
    size_t nm = 0;
    for (auto& it : all) if (it.second.mine) {
      auto k = it.first; auto& a = it.second; ++nm;
      bool ok = eq(get(X[k]), a.x, 1e-15) && eq(get(HX[k]), a.hx, 1e-15) && eq(get(ZX[k]), a.zx, 1e-15) && eq(get(ZE[k]), a.ze, 1e-15) && eq(get(Ul[k]), a.u, 1e-15) && w[k] == a.w;
      for (size_t i = 0; i < a.e.extent(0); ++i) ok = ok && e[k](i) == a.e(i) && f[k](i) == a.f(i);
      ck("C18", ok, "inputs modified");
    }
    ck("C18", X.size() == nm && ZX.size() == nm && ZE.size() == nm, "a k-point was added or lost");
  };
  auto r = dd.restarted(HS(), X, e, f, HX, w, mu, So, Ko, fe);
  auto r1 = std::get<1>(r); auto r2 = std::get<2>(r);
  ck("C10", near(std::get<0>(r), fr), "slope of the restarted direction");
  ck("C10", orb <= 1e-9 * scale, "orbital part of the steepest-descent slope is positive");
  double sl = 0;
  for (auto& it : all) if (it.second.mine) {
    auto k = it.first; auto& a = it.second;
    D z = get(r1.at(k)), y = get(r2.at(k)), sx = mul(a.s, a.x);
    ck("C09", nrm(mul(Hc(sx), z)) <= 1e-7 * (1 + nrm(z)) * (1 + nrm(sx)), "restarted direction not tangent");
    ck("C09", eq(z, a.dx, 1e-7), "restarted direction is not minus K R");
    ck("C18", eq(z, a.dx, 1e-7) && eq(y, a.de, 1e-7), "restarted direction");
    sl += 2 * tr(a.gx, z) + tr(a.ge, y);
  }
  double t = 0; MPI_Allreduce(&sl, &t, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
  ck("C10", near(std::get<0>(r), t), "slope of the restarted direction differs from the derivative along it");
  frame();
  auto c = dd.conjugated(HS(), fo, X, e, f, HX, ZX, ZE, Ul, w, mu, So, Ko, fe);
  auto c2 = std::get<2>(c); auto c3 = std::get<3>(c);
  double ga = fr / fo;
  ck("C10", near(std::get<0>(c), fr), "Fletcher-Reeves numerator");
  ck("C10", near(std::get<1>(c), fr + ga * sp), "slope of the conjugate direction");
  sl = 0;
  for (auto& it : all) if (it.second.mine) {
    auto k = it.first; auto& a = it.second;
    D z = get(c2.at(k)), y = get(c3.at(k)), sx = mul(a.s, a.x);
    ck("C09", nrm(mul(Hc(sx), z)) <= 1e-7 * (1 + nrm(z)) * (1 + nrm(sx)) * (1 + std::abs(ga)), "conjugate direction not tangent");
    ck("C18", eq(z, lin(a.dx, 1.0, a.zp, ga), 1e-7) && eq(y, lin(a.de, 1.0, a.ze2, ga), 1e-7), "conjugate direction");
    sl += 2 * tr(a.gx, z) + tr(a.ge, y);
  }
  MPI_Allreduce(&sl, &t, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
  ck("C10", near(std::get<1>(c), t), "slope of the conjugate direction differs from the derivative along it");
  frame();
#ifndef NLV_NO_EXTRA
  // the same quantities as functions over k-point collections
  mvector<mat> SX, GX, GE, DE;
  for (auto& it : all) if (it.second.mine) { auto& a = it.second; SX[it.first] = put(mul(a.s, a.x)); GX[it.first] = put(a.gx); GE[it.first] = put(a.ge); DE[it.first] = put(a.de); }
  auto ll = eval_threaded(lagrange_multipliers(X, SX, HX, Ko));
  auto gx = eval_threaded(gradX(SX, HX, f, ll, w));
  auto dx = eval_threaded(precondGradX_us(SX, HX, Ko, ll));
  struct Nc { D k; auto operator()(const mat& x) const { return put(mul(k, get(x))); } void apply_in_place(mat& x) const { Kokkos::deep_copy(x.array(), put(mul(k, get(x))).array()); } };
  mvector<Nc> P;
  for (auto& it : all) if (it.second.mine) P.data().insert(std::make_pair(it.first, Nc{it.second.k}));
  auto lln = eval_threaded(lagrange_multipliers(X, X, HX, P));
  auto dxn = eval_threaded(precondGradX(X, HX, P, lln));
  auto zu = eval_threaded(rotateX(ZX, Ul));
  auto ze = eval_threaded(rotateEta(ZE, Ul));
  mvector<mat> zc = copy(zu);
  auto xu = eval_threaded(apply_lagrange_mult_us(zc, X, SX, 0.));
  for (auto& it : all) if (it.second.mine) {
    auto k = it.first; auto& a = it.second;
    D sx = mul(a.s, a.x), zz = mul(a.zx, a.u);
    ck("C09", eq(get(ll[k]), mul(sx, a.L), 1e-7), "lagrange_multipliers"); ck("C09", eq(get(gx[k]), a.gx, 1e-7), "gradX"); ck("C09", eq(get(dx[k]), a.dx, 1e-7), "precondGradX_us");
    D ln = lin(a.hx, 1.0, get(lln[k]), -1.0);
    ck("C09", eq(get(dxn[k]), lin(mul(a.k, ln), -1.0, ln, 0.0), 1e-7) && nrm(mul(Hc(a.x), get(dxn[k]))) <= 1e-7 * (1 + nrm(get(dxn[k]))) * (1 + nrm(a.x)), "precondGradX");
    ck("C09", eq(get(xu[k]), a.zp, 1e-7), "apply_lagrange_mult_us"); ck("C18", eq(get(xu[k]), a.zp, 1e-7), "apply_lagrange_mult_us");
    ck("C18", eq(get(zu[k]), zz, 1e-9) && eq(get(ze[k]), a.ze2, 1e-9), "rotateX, rotateEta");
  }
  auto sl2 = compute_slope(GX, ZX, GE, ZE, comm);
  double one = compute_slope_single(GX, ZX, GE, ZE, comm), s0 = slope_x(GX, ZX, comm), s1 = slope_eta(GE, ZE, comm), A = 0, B = 0, loc = 0, locw = 0;
  for (auto& it : all) {
    auto& a = it.second;
    A += 2 * tr(a.gx, a.zx); B += tr(a.ge, a.ze);
    if (a.mine) { auto l = local::slope()(GX[it.first], ZX[it.first], GE[it.first], ZE[it.first]); loc += std::get<0>(l) + std::get<1>(l); locw += 2 * tr(a.gx, a.zx) + tr(a.ge, a.ze); }
  }
  auto nr = [&](double a, double b) { return std::abs(a - b) <= 1e-8 * (scale + std::abs(A) + std::abs(B)); };
  ck("C10", nr(std::get<0>(sl2), A) && nr(std::get<1>(sl2), B) && nr(one, A + B) && nr(s0, A) && nr(s1, B) && nr(loc, locw), "compute_slope, slope_x, slope_eta");
  auto y = eval_threaded(conjugateeta(DE, ze, 0.7));
  auto xc = eval_threaded(conjugatex(zu, X, 0.7));
  for (auto& it : all) if (it.second.mine) {
    auto k = it.first; auto& a = it.second;
    D zz = mul(a.zx, a.u);
    ck("C18", eq(get(y[k]), lin(a.de, 1.0, a.ze2, 0.7), 1e-8) && eq(get(xc[k]), lin(zz, 1.0, mul(a.x, mul(Hc(a.x), zz)), -1.0), 1e-8), "conjugateeta, conjugatex");
  }
#endif
  frame();
}
int main(int argc, char** argv)
{
  sel_ = argv[1];
  return nat_main(argc, argv, 150, [] {
    switch (case_ % 5) {
      case 0: go<smearing_type::FERMI_DIRAC>(); break;
      case 1: go<smearing_type::GAUSSIAN_SPLINE>(); break;
      case 2: go<smearing_type::COLD>(); break;
      case 3: go<smearing_type::GAUSS>(); break;
      default: go<smearing_type::METHFESSEL_PAXTON>();
    }
  });
}
