// bounded native stand-in for C08 / C19 / C20: the real entry points on toy hosts (well behaved and adversarial), against a
// reference loop written from the properties over the same components
#include "nlcglib.cpp"
#include "nat.hpp"
#include <cstring>
struct MatH : MatrixBaseZ {
  std::vector<key> k; std::vector<D> d; std::vector<std::vector<cd>> buf;
  void set(const std::vector<key>& kk, const std::vector<D>& x)
  {
    k = kk;
    if (buf.empty()) for (auto& a : x) buf.emplace_back(a.size() * a[0].size());
    d = x;
    for (size_t q = 0; q < x.size(); ++q) for (size_t i = 0; i < x[q].size(); ++i) for (size_t j = 0; j < x[q][0].size(); ++j) buf[q][i + j * x[q].size()] = x[q][i][j];
  }
  D cur(int q) const
  {
    D r = d[q];
    for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < r[0].size(); ++j) r[i][j] = buf[q][i + j * r.size()];
    return r;
  }
  buffer_t mk(int i) const { return buffer_t({1, (int)d[i].size()}, {(int)d[i].size(), (int)d[i][0].size()}, const_cast<cd*>(buf[i].data()), memory_type::host); }
  buffer_t get(int i) override { return mk(i); }
  const buffer_t get(int i) const override { return mk(i); }
  int size() const override { return k.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_WORLD; }
  kindex_t kpoint_index(int i) const override { return k[i]; }
};
struct VecH : VectorBaseZ {
  std::vector<key> k; std::vector<std::vector<double>> d;
  buffer_t get(int i) override { return buffer_t({1}, {(int)d[i].size()}, d[i].data(), memory_type::host); }
  const buffer_t get(int i) const override { return buffer_t({1}, {(int)d[i].size()}, const_cast<double*>(d[i].data()), memory_type::host); }
  int size() const override { return k.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_WORLD; }
  kindex_t kpoint_index(int i) const override { return k[i]; }
};
struct ScaH : ScalarBaseZ {
  std::vector<key> k; std::vector<double> v;
  buffer_t get(int i) override { return v[i]; }
  const buffer_t get(int i) const override { return v[i]; }
  int size() const override { return k.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_WORLD; }
  kindex_t kpoint_index(int i) const override { return k[i]; }
};
struct Toy : EnergyBase {
  int how; unsigned seed; int ncomp = 0;
  std::vector<key> k; std::vector<D> Hm;
  std::shared_ptr<MatH> C_ = std::make_shared<MatH>(), H_ = std::make_shared<MatH>();
  std::shared_ptr<VecH> f_ = std::make_shared<VecH>(), e_ = std::make_shared<VecH>();
  std::shared_ptr<ScaH> w_ = std::make_shared<ScaH>();
  double E = 0, mu = 0; int ne, occ;
  std::vector<std::vector<double>> hist;
  void compute() override
  {
    ++ncomp;
    std::vector<D> hx; E = 0;
    std::vector<double> h;
    std::mt19937 g(seed * 1000 + ncomp);
    std::uniform_real_distribution<double> u(-1, 1);
    for (size_t q = 0; q < k.size(); ++q) {
      D c = C_->cur(q), H = Hm[q];
      if (how == 2) for (auto& r : H) for (auto& x : r) x *= 1 + 3 * u(g);
      if (how == 5) for (auto& r : H) for (auto& x : r) x *= 1 + 0.5 * u(g);
      if (how == 2 || how == 5) H = lin(H, 0.5, Hc(H), 0.5);
      D x = mul(H, c);
      hx.push_back(x);
      for (size_t j = 0; j < c[0].size(); ++j) {
        double e = 0;
        for (size_t i = 0; i < c.size(); ++i) { e += (std::conj(c[i][j]) * x[i][j]).real(); h.push_back(c[i][j].real()); h.push_back(c[i][j].imag()); }
        e_->d[q][j] = e;
        E += w_->v[q] * f_->d[q][j] * e;
        h.push_back(f_->d[q][j]);
      }
    }
    if (how == 1) E = 10 + ncomp;            // no step lowers the energy
    if (how == 2) E = 5 * u(g);
    if (how == 3) E += ncomp > 9 ? 1e3 + ncomp : 0;
    if (how == 5) E = -4. * ncomp + (ncomp % 2 ? 6 : 0);   // trial points high, predicted minima ever lower: runs never end early
    H_->set(k, hx);
    hist.push_back(h);
  }
  int nelectrons() override { return ne; }
  int occupancy() override { return occ; }
  double get_total_energy() override { return E; }
  std::map<std::string, double> get_energy_components() override { return {{"E", E}}; }
  std::shared_ptr<MatrixBaseZ> get_hphi(memory_type) override { return H_; }
  std::shared_ptr<MatrixBaseZ> get_sphi(memory_type) override { return H_; }
  std::shared_ptr<MatrixBaseZ> get_C(memory_type) override { return C_; }
  std::shared_ptr<VectorBaseZ> get_fn() override { return f_; }
  void set_fn(const std::vector<key>& kk, const std::vector<std::vector<double>>& f) override
  {
    for (size_t a = 0; a < kk.size(); ++a) for (size_t q = 0; q < k.size(); ++q) if (k[q] == kk[a]) f_->d[q] = f[a];
  }
  std::shared_ptr<VectorBaseZ> get_ek() override { return e_; }
  std::shared_ptr<VectorBaseZ> get_gkvec_ekin() override { return e_; }
  std::shared_ptr<ScalarBaseZ> get_kpoint_weights() override { return w_; }
  void set_chemical_potential(double m) override { mu = m; }
  double get_chemical_potential() override { return mu; }
  void print_info() const override {}
};
static double eps_ = 0;
struct Prob { Toy t; Op<OverlapBase> S; Op<UltrasoftPrecondBase> P; };
static Prob make(unsigned seed, int how)
{
  gen_.seed(seed);
  Prob p; Toy& t = p.t;
  t.how = how; t.seed = seed;
  int nk = R(1, 2);
  std::vector<D> c;
  for (int q = 0; q < nk; ++q) {
    int m = R(3, 6), n = R(2, 3);
    key k(q + 1, 0);
    t.k.push_back(k);
    t.Hm.push_back(herm(m));
    D s = lin(posdef(m), 0.2, one(m), 1.0);
    p.S.m[k] = s;
    p.P.m[k] = lin(posdef(m), 0.3, one(m), 1.0);
    D x = rnd(m, n);
    for (int a = 0; a < n; ++a) {
      for (int b = 0; b <= a; ++b) {
        D sx = mul(s, x);
        cd o = 0;
        for (int i = 0; i < m; ++i) o += std::conj(x[i][b]) * sx[i][a];
        for (int i = 0; i < m; ++i) x[i][a] = b < a ? x[i][a] - o * x[i][b] : x[i][a] / std::sqrt(o.real());
      }
    }
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) x[i][j] += eps_ * (1. + i - 2. * j);
    if (how == 4) { D sx = mul(s, x); p.P.m[k] = lin(mul(sx, Hc(sx)), 100., one(m), -30.); }   // positive on the occupied space only: ascent directions
    c.push_back(x);
    t.f_->d.emplace_back(n, 1.0); t.e_->d.emplace_back(n, 0.0);
    t.w_->v.push_back(1.0 / nk);
  }
  t.f_->k = t.e_->k = t.w_->k = t.k;
  t.C_->set(t.k, c); t.H_->set(t.k, c);
  t.occ = R(1, 2); t.ne = t.occ == 2 ? 2 : 1;
  return p;
}
static long nlong = 0, ndesc = 0, nslope = 0, npos = 0;
struct Out { nlcg_info i; int kind; };   // kind 0 returned, 1 threw
// reference: written from the properties
template <enum smearing_type st> static Out reference(Prob& p, double T, double tol, double kappa, double tau, int maxiter, int restart)
{
  Out o; memset(&o.i, 0, sizeof(o.i)); o.kind = 1;
  if (restart == 0 || T == 0) return o;
  Kokkos::HostSpace hs;
  try {
    Overlap S(p.S); USPreconditioner P(p.P);
    FreeEnergy fe(T, p.t, st);
    fe.compute();
    auto ek = fe.get_ek(); auto wk = fe.get_wk();
    Smearing sm = fe.get_smearing();
    auto mf = sm.fn(ek);
    double mu = std::get<0>(mf);
    auto fn = std::get<1>(mf);
    auto X0 = fe.get_X();
    fe.compute(X0, fn, ek, mu);
    auto Hx = copy(fe.get_HX()); auto X = copy(fe.get_X());
    line_search ls; ls.t_trial = 0.2; ls.tau = tau;
    descent_direction<st> dd(T, kappa);
    auto eta = eval_threaded(tapply(make_diag(), ek));
    auto d = dd.restarted(hs, X, ek, fn, Hx, wk, mu, S, P, fe);
    double slope = std::get<0>(d), fr = slope;
    auto zx = std::get<1>(d); auto ze = std::get<2>(d);
    bool force = false;
    int it = 0;
    o.kind = 0;
    auto report = [&]() { o.i.F = fe.get_F(); o.i.S = fe.get_entropy(); o.i.tolerance = slope; o.i.iter = it; o.i.converged = false; };
    report();
    for (; it < maxiter; ++it) {
      report();
      if (std::abs(slope) < tol) { o.i.converged = true; return o; }
      auto g = [&](double t) {
        auto r = geodesic(hs, X, eta, zx, ze, S, t);
        auto e = std::get<0>(r); auto x = std::get<2>(r);
        auto m = sm.fn(e);
        fe.compute(x, std::get<1>(m), e, std::get<0>(m));
        return std::tuple_cat(r, std::make_tuple(double(std::get<0>(m))));
      };
      auto r = ls(g, fe, slope, force);
      ek = std::get<0>(r); auto ul = std::get<1>(r); X = std::get<2>(r);
      double m = std::get<3>(r);
      eta = eval_threaded(tapply(make_diag(), ek));
      fn = fe.get_fn(); Hx = copy(fe.get_HX());
      bool sd = it % restart == 0 || force;
      if (!sd) {
        auto c = dd.conjugated(hs, fr, X, ek, fn, Hx, zx, ze, ul, wk, m, S, P, fe);
        if (std::get<1>(c) > 0) { ++npos; sd = true; force = true; }
        else { fr = std::get<0>(c); slope = std::get<1>(c); zx = std::get<2>(c); ze = std::get<3>(c); }
      }
      if (sd) {
        auto c = dd.restarted(hs, X, ek, fn, Hx, wk, m, S, P, fe);
        slope = std::get<0>(c); fr = slope; zx = std::get<1>(c); ze = std::get<2>(c);
      }
    }
    return o;
  } catch (DescentError&) { ++ndesc; o.kind = 0; return o;
  } catch (SlopeError&) { ++nslope; o.kind = 0; return o;
  } catch (std::exception&) { o.kind = 1; return o; }
}
static Out ref(int st, Prob& p, double T, double tol, double kappa, double tau, int maxiter, int restart)
{
  if (st == 0) return reference<smearing_type::FERMI_DIRAC>(p, T, tol, kappa, tau, maxiter, restart);
  if (st == 1) return reference<smearing_type::GAUSSIAN_SPLINE>(p, T, tol, kappa, tau, maxiter, restart);
  if (st == 2) return reference<smearing_type::GAUSS>(p, T, tol, kappa, tau, maxiter, restart);
  if (st == 3) return reference<smearing_type::METHFESSEL_PAXTON>(p, T, tol, kappa, tau, maxiter, restart);
  return reference<smearing_type::COLD>(p, T, tol, kappa, tau, maxiter, restart);
}
static Out real(int entry, int sm, Prob& p, double T, double tol, double kappa, double tau, int maxiter, int restart)
{
  Out o; o.kind = 0;
  // stale stack contents must not look like a report
  smearing_type st = (smearing_type)sm;
  try {
    if (entry == 0) o.i = nlcg_us_cpu(p.t, p.P, p.S, st, T, tol, kappa, tau, maxiter, restart);
    else if (entry == 1) o.i = nlcg_us_device_cpu(p.t, p.P, p.S, st, T, tol, kappa, tau, maxiter, restart);
    else if (entry == 2) o.i = nlcg_us_device(p.t, p.P, p.S, st, T, tol, kappa, tau, maxiter, restart);
    else if (entry == 3) o.i = nlcg_us_cpu_device(p.t, p.P, p.S, st, T, tol, kappa, tau, maxiter, restart);
    else if (entry == 4) o.i = nlcg_mvp2_cpu(p.t, st, T, tol, kappa, tau, maxiter, restart);
    else if (entry == 5) o.i = nlcg_mvp2_device(p.t, st, T, tol, kappa, tau, maxiter, restart);
    else if (entry == 6) o.i = nlcg_mvp2_cpu_device(p.t, st, T, tol, kappa, tau, maxiter, restart);
    else o.i = nlcg_mvp2_device_cpu(p.t, st, T, tol, kappa, tau, maxiter, restart);
  } catch (std::exception&) { o.kind = 1; }
  return o;
}
static bool near(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::abs(a - b) <= 1e-6 * (std::abs(a) + std::abs(b)) + 1e-9; }
static long conv = 0, lim = 0, failn = 0;
int main(int argc, char** argv)
{
  std::string prop = argc > 1 ? argv[1] : "all";
  bool c8 = prop == "all" || prop == "C08", c19 = prop == "all" || prop == "C19", c20 = prop == "all" || prop == "C20";
  return nat_main(argc, argv, 180, [&] {
    int how = case_ % 5, sm = (case_ / 5) % 5;
    std::mt19937 g(case_ + 77);
    auto u = [&](double a, double b) { return std::uniform_real_distribution<double>(a, b)(g); };
    auto ri = [&](int a, int b) { return std::uniform_int_distribution<int>(a, b)(g); };
    double T = std::pow(10, u(3, 5.3)), kappa = u(0.1, 0.6), tau = u(0.05, 0.4), tol = std::pow(10, u(-6, 0));
    int maxiter = ri(0, 9), restart = ri(0, 3) ? ri(1, 5) : 100;
    if (case_ % 3 == 0) { Prob z = make(case_, how); Out o = ref(sm, z, T, tol, kappa, tau, 0, restart); if (o.kind == 0 && how != 4 && case_ % 2) tol = std::abs(o.i.tolerance); }
    if (case_ % 3 == 1) { Prob z = make(case_, how); Out o = ref(sm, z, T, 0, kappa, tau, maxiter, restart); if (o.kind == 0) tol = std::abs(o.i.tolerance) * (case_ % 2 ? u(0.1, 1.0) : u(1.0, 3.0)); }
    bool lng = case_ >= 150;   // many iterations: state that must be refreshed in every single one
    if (lng) { how = 5; tol = 0; T = std::pow(10, u(2, 3.5)); maxiter = ri(40, 160); restart = ri(0, 2) ? ri(1, 50) : 1000; }
    Prob a = make(case_, how), b = make(case_, how);
    Out o = real(case_ % 2, sm, a, T, tol, kappa, tau, maxiter, restart);
    Out e = ref(sm, b, T, tol, kappa, tau, maxiter, restart);
    printf("\n");
    if (c20) chk(o.kind == e.kind, "a valid request is served, an invalid one refused");
    if (o.kind == 0 && e.kind == 0) {
      bool same = a.t.hist.size() == b.t.hist.size();
      size_t upto = a.t.hist.size();
      if (lng) {   // compare as far as the run does not amplify rounding: a reference run from a slightly moved start decides that
        eps_ = 1e-12; Prob c = make(case_, how); eps_ = 0;
        ref(sm, c, T, tol, kappa, tau, maxiter, restart);
        upto = std::min(b.t.hist.size(), c.t.hist.size());
        for (size_t i = 0; i < upto; ++i) for (size_t j = 0; j < c.t.hist[i].size(); ++j) if (!(std::abs(c.t.hist[i][j] - b.t.hist[i][j]) <= 1e-8)) upto = std::min(upto, i);
        nlong += upto;
        same = a.t.hist.size() >= upto && (upto < b.t.hist.size() || same);
      }
      if (c8 && (!lng || (upto == a.t.hist.size() && upto == b.t.hist.size()))) {
        if (o.i.converged) ++conv; else if (o.i.iter + 1 >= maxiter) ++lim; else ++failn;
        chk(o.i.converged == e.i.converged, "convergence is reported iff the slope is below the tolerance");
        chk(near(o.i.tolerance, e.i.tolerance), "reported residual");
        chk(near(o.i.F, e.i.F), "reported free energy");
        chk(near(o.i.S, e.i.S), "reported entropy");
        chk(o.i.iter == e.i.iter, "reported iteration");
      }
      for (size_t i = 0; same && i < upto; ++i) {
        if (a.t.hist[i].size() != b.t.hist[i].size()) same = false;
        for (size_t j = 0; same && j < a.t.hist[i].size(); ++j) same = std::abs(a.t.hist[i][j] - b.t.hist[i][j]) <= 1e-5 * (1 + std::abs(b.t.hist[i][j])) || std::isnan(b.t.hist[i][j]);
      }
      if (c19 || c20) chk(same, "sequence of evaluated points (orbitals and occupations) of the run");
    }
    if (c20) {
      for (int en = 0; en < 8; ++en) { Prob x = make(case_, 0); chk(real(en, en < 2 ? 5 + case_ : sm, x, T, tol, kappa, tau, 2, 2).kind == 1, "unavailable entry point or invalid smearing refused"); }
      Prob x = make(case_, 0); chk(real(0, sm, x, 0, tol, kappa, tau, 2, 2).kind == 1, "zero temperature refused");
      Prob y = make(case_, 0); chk(real(0, sm, y, T, tol, kappa, tau, 2, 0).kind == 1, "zero restart period refused");
    }
    printf("\n");
    if (case_ == 179) { fprintf(stderr, "converged %ld limit %ld other %ld, descent errors %ld, slope errors %ld, positive conjugate slopes %ld, evaluations compared in long runs %ld\n", conv, lim, failn, ndesc, nslope, npos, nlong); printf("\n"); }
  });
}
