#include "host.hpp"
#include "free_energy.hpp"
#include "preconditioner.hpp"
#include "rt.hpp"
typedef Kokkos::HostSpace H;
typedef Kokkos::View<double*, H> V;
typedef KokkosDVector<Kokkos::complex<double>**, SlabLayoutV, Kokkos::LayoutLeft, H> mat_t;
static int ph = 0;   // evaluation: 0 the one whose contract is stated, 1 an arbitrary earlier one
static const char* XNp[2][2] = {{"X0", "X1"}, {"Y0", "Y1"}};
static const char* FNp[2][2] = {{"f0", "f1"}, {"g0", "g1"}};
static const char* ENp[2][2] = {{"e0", "e1"}, {"d0", "d1"}};
#define XN XNp[ph]
#define FN FNp[ph]
#define EN ENp[ph]
static const char* MN[2] = {"m0", "m1"};
static const char* NN[2] = {"n0", "n1"};
static mat_t matrix(int q)
{
  int m = nlv_int(MN[q]), n = nlv_int(NN[q]);
  nlv_assume(m >= 1 && m < 30000 && n >= 1 && n < 30000);
  mat_t x(Map<>(Communicator(), SlabLayoutV({{0, 0, m, n}})));
  nlv_input(x.array().data(), XN[q]);
  return x;
}
static V vec(const char* nm, int q)
{
  int n = nlv_int(NN[q]);
  V v("v", n);
  nlv_input(v.data(), nm);
  return v;
}
struct Host : EnergyBase {
  std::shared_ptr<MatHost> C, Hp;
  std::shared_ptr<VecHost> fn, ek, ekin;
  std::shared_ptr<ScaHost> wk;
  mutable int computes = 0, fnsets = 0, musets = 0, totals = 0;
  bool stale = true;          // energy not recomputed since the last change of state
  double mu = 0, E = 0;
  V f[2];
  Host()
  {
    C = std::make_shared<MatHost>("C0", "C1", "m0", "n0", "m1", "n1");
    Hp = std::make_shared<MatHost>("H0", "H1", "m0", "n0", "m1", "n1");
    fn = std::make_shared<VecHost>("F0", "F1", "n0", "n1");
    ek = std::make_shared<VecHost>("K0", "K1", "n0", "n1");
    ekin = std::make_shared<VecHost>("T0", "T1", "m0", "m1");
    for (int q = 0; q < 2; ++q) {
      C->strides(q, 1, nlv_int(q ? "ld1" : "ld0"));
      Hp->strides(q, 1, nlv_int(q ? "hd1" : "hd0"));
      fn->strides(q, 1); ek->strides(q, 1); ekin->strides(q, 1);
    }
    wk = std::make_shared<ScaHost>("w0", "w1");
    E = nlv_real("E_old");
    nlv_assume(nlv_int("occ") == 1 || nlv_int("occ") == 2);
  }
  void check_state(const char* a)
  {
    for (int q = 0; q < 2; ++q) {
      int i = idx("i", C->n[q][0]), j = idx("j", C->n[q][1]);
      mat_t X = matrix(q);
      Kokkos::complex<double>* p = (Kokkos::complex<double>*)C->p[q];
      Kokkos::complex<double> c = p[(size_t)i + (size_t)j * C->s[q][1]], x = X.array()(i, j);
      nlv_eq(c.real(), x.real(), a); nlv_eq(c.imag(), x.imag(), a);
    }
  }
  void compute() override
  {
    ++computes;
    if (plain) { stale = false; return; }
    nlv_assert(fnsets == 1, "occupations are handed over before the host recomputes its energy");
    check_state("the host's orbitals are X when it recomputes its energy");
    E = nlv_real(ph ? "E_first" : "E_new");
    stale = false;
  }
  int nelectrons() override { return nlv_int("ne"); }
  int occupancy() override { return nlv_int("occ"); }
  double get_total_energy() override { ++totals; nlv_assert(!stale, "the total energy is read after the recomputation"); return E; }
  std::map<std::string, double> get_energy_components() override { return {}; }
  std::shared_ptr<MatrixBaseZ> get_hphi(memory_type t) override { return Hp; }
  std::shared_ptr<MatrixBaseZ> get_sphi(memory_type t) override { return Hp; }
  std::shared_ptr<MatrixBaseZ> get_C(memory_type t) override { nlv_assert(t == memory_type::host, "orbitals requested in host memory"); return C; }
  std::shared_ptr<VectorBaseZ> get_fn() override { return fn; }
  void set_fn(const std::vector<std::pair<int, int>>& k, const std::vector<std::vector<double>>& v) override
  {
    ++fnsets; stale = true;
    nlv_assert(k.size() == 2 && v.size() == 2, "every k-point's occupations are handed over");
    bool seen[2] = {false, false};
    for (int r = 0; r < 2; ++r)
      for (int q = 0; q < 2; ++q)
        if (k[r] == HK[q]) {
          seen[q] = true;
          V ref = vec(FN[q], q);
          nlv_assert(v[r].size() == ref.extent(0), "occupation vector has one entry per band");
          int i = idx("i", fn->n[q]);
          nlv_eq(v[r][i], ref(i), "occupations are handed over under their k-point");
        }
    nlv_assert(seen[0] && seen[1], "occupations of both k-points are handed over");
  }
  std::shared_ptr<VectorBaseZ> get_ek() override { return ek; }
  std::shared_ptr<VectorBaseZ> get_gkvec_ekin() override { return ekin; }
  std::shared_ptr<ScalarBaseZ> get_kpoint_weights() override { return wk; }
  bool plain = false;   // a computation without an evaluation
  void set_chemical_potential(double m) override { ++musets; mu = m; }
  // the host may hold on to a chemical potential of its own
  double get_chemical_potential() override { return nlv_real("mu_host"); }
  void print_info() const override {}
};
#define TY(i) static_cast<smearing_type>(i)
template <class S> double spec_entropy(const V& e, double mu, double kT)
{
  double s = 0;
  for (size_t i = 0; i < e.extent(0); ++i) s += S::entropy((mu - e(i)) / kT, nlv_int("occ"));
  return s;
}
static void evaluate(FreeEnergy& fe, double mu)
{
  mvector<mat_t> X;
  mvector<V> f, e;   // results of evaluations: the rank's own communicator
  for (int q = 0; q < 2; ++q) { X[HK[q]] = matrix(q); f[HK[q]] = vec(FN[q], q); e[HK[q]] = vec(EN[q], q); }
  fe.compute(X, f, e, mu);
}
extern "C" void free_energy(int ty, int again)
{
  double T = nlv_real("T"), mu = nlv_real("mu");
  nlv_assume(T > 0);
  Host h;
  FreeEnergy fe(T, h, TY(ty));
  if (again) {
    ph = 1; evaluate(fe, nlv_real("mu_first"));
    ph = 0; h.computes = h.fnsets = h.musets = h.totals = 0; h.stale = true;
  }
  mvector<mat_t> X;
  mvector<V> f, e;   // results of evaluations: the rank's own communicator
  for (int q = 0; q < 2; ++q) { X[HK[q]] = matrix(q); f[HK[q]] = vec(FN[q], q); e[HK[q]] = vec(EN[q], q); }
  fe.compute(X, f, e, mu);
  nlv_assert(h.computes == 1, "the host recomputes its energy once");
  nlv_assert(!h.stale && h.fnsets == 1, "the host state is not changed after the recomputation");
  h.check_state("the host's orbitals are X after the evaluation");
  nlv_assert(h.musets >= 1, "the chemical potential is handed over");
  nlv_eq(h.mu, mu, "the chemical potential handed over is mu");
  double rm = fe.get_chemical_potential();
  nlv_assert((rm == mu) | (rm == nlv_real("mu_host")), "the reported chemical potential is the host's or the one handed over");
  double kT = physical_constants::kb * T, ref = 0;
  for (int q = 0; q < 2; ++q) {
    V en = vec(EN[q], q);
    double s = 0, w = nlv_real(q ? "w1" : "w0");
    switch (TY(ty)) {
      case smearing_type::FERMI_DIRAC: s = spec_entropy<smearing<smearing_type::FERMI_DIRAC>>(en, mu, kT); break;
      case smearing_type::GAUSSIAN_SPLINE: s = spec_entropy<smearing<smearing_type::GAUSSIAN_SPLINE>>(en, mu, kT); break;
      case smearing_type::GAUSS: s = spec_entropy<smearing<smearing_type::GAUSS>>(en, mu, kT); break;
      case smearing_type::METHFESSEL_PAXTON: s = spec_entropy<smearing<smearing_type::METHFESSEL_PAXTON>>(en, mu, kT); break;
      case smearing_type::COLD: s = spec_entropy<smearing<smearing_type::COLD>>(en, mu, kT); break;
    }
    ref += w * s;
  }
  double S = -nlv_ar_sum(ref), Enew = nlv_real("E_new");
  nlv_eq(fe.get_entropy(), kT * S, "entropy term = kB T S(e, mu)");
  nlv_eq(fe.get_F(), Enew + kT * S, "F = E_KS + kB T S with the energy after the recomputation");
  nlv_eq(fe.ks_energy(), Enew, "reported Kohn-Sham energy");
  for (int q = 0; q < 2; ++q) {
    int i = idx("i", h.C->n[q][0]), j = idx("j", h.C->n[q][1]);
    mat_t r = matrix(q);
    Kokkos::complex<double> c = X.at(HK[q]).array()(i, j), d = r.array()(i, j);
    nlv_eq(c.real(), d.real(), "the caller's orbitals are unchanged"); nlv_eq(c.imag(), d.imag(), "the caller's orbitals are unchanged");
    V a = vec(FN[q], q), b = vec(EN[q], q);
    nlv_eq(f.at(HK[q])(j), a(j), "the caller's occupations are unchanged");
    nlv_eq(e.at(HK[q])(j), b(j), "the caller's energies are unchanged");
  }
}
// evaluation with orbitals of a strided host view (the type returned by the host accessors)
extern "C" void accessors()
{
  double T = nlv_real("T");
  nlv_assume(T > 0);
  Host h;
  FreeEnergy fe(T, h, smearing_type::FERMI_DIRAC);
  auto X = fe.get_X(); auto HX = fe.get_HX(); auto f = fe.get_fn(); auto ek = fe.get_ek(); auto wk = fe.get_wk();
  nlv_assert(fe.occupancy() == nlv_int("occ"), "occupancy is the host's");
  for (int q = 0; q < 2; ++q) {
    nlv_assert((void*)X.at(HK[q]).array().data() == h.C->p[q] && X.at(HK[q]).array().stride(1) == (size_t)h.C->s[q][1], "get_X views the host's orbitals");
    nlv_assert((void*)HX.at(HK[q]).array().data() == h.Hp->p[q] && HX.at(HK[q]).array().stride(1) == (size_t)h.Hp->s[q][1], "get_HX views the host's H|X>");
    int j = idx("j", h.C->n[q][1]);
    nlv_eq(f.at(HK[q])(j), ((double*)h.fn->p[q])[j], "get_fn returns the host's occupations");
    nlv_eq(ek.at(HK[q])(j), ((double*)h.ek->p[q])[j], "get_ek returns the host's band energies");
    nlv_eq(wk.at(HK[q]), nlv_real(q ? "w1" : "w0"), "get_wk returns the host's weights");
  }
  h.plain = true; fe.compute();
  nlv_assert(h.computes == 1 && !h.stale && h.fnsets == 0 && h.musets == 0, "compute() recomputes the host's energy in the state the host is in");
  nlv_assert(fe.get_gkvec_ekin().get() == h.ekin.get(), "get_gkvec_ekin returns the host's kinetic energies");
}
// ---- C17
extern "C" void teter()
{
  auto h = std::make_shared<VecHost>("T0", "T1", "m0", "m1");
  h->strides(0, nlv_int("s0")); h->strides(1, nlv_int("s1"));
  PreconditionerTeter<H> P(h);
  for (int q = 0; q < 2; ++q) {
    mat_t x = matrix(q);
    auto d = P.at(HK[q]);
    auto y = d(x);
    int i = idx("i", h->n[q]), j = idx("j", nlv_int(NN[q]));
    double t = ((double*)h->p[q])[(size_t)i * h->s[q]];
    nlv_assume(t >= 0);
    double k = 1 / (1 + 16 * t * t * t * t / (27 + 18 * t + 12 * t * t + 8 * t * t * t));
    mat_t ref = matrix(q);
    Kokkos::complex<double> a = y.array()(i, j), b = ref.array()(i, j), c = x.array()(i, j);
    nlv_assert(y.array().data() != x.array().data() && y.array().extent(0) == x.array().extent(0) && y.array().extent(1) == x.array().extent(1), "out-of-place result is a fresh matrix of the same shape");
    nlv_eq(a.real(), k * b.real(), "row i is multiplied by the Teter entry i"); nlv_eq(a.imag(), k * b.imag(), "row i is multiplied by the Teter entry i");
    nlv_eq(c.real(), b.real(), "the input is unchanged"); nlv_eq(c.imag(), b.imag(), "the input is unchanged");
    d.apply_in_place(x);
    Kokkos::complex<double> e = x.array()(i, j);
    nlv_eq(e.real(), a.real(), "in-place and out-of-place forms agree"); nlv_eq(e.imag(), a.imag(), "in-place and out-of-place forms agree");
  }
  int kz = nlv_int("kz"), sz = nlv_int("sz");
  nlv_assume(kz >= 0 && kz < 1000000 && sz >= 0 && sz < 1000000);
  nlv_assume((kz != HK[0].first) | (sz != HK[0].second)); nlv_assume((kz != HK[1].first) | (sz != HK[1].second));
  nlv_assert(refuses([&] { P.at(key(kz, sz)); }), "an unknown k-point is refused");
}
// the law itself (consequences of the formula proved above)
extern "C" void teter_law()
{
  double t = nlv_real("t"), u = nlv_real("u");
  nlv_assume(t >= 0 && u >= t);
  auto k = [](double t) { return 1 / (1 + 16 * t * t * t * t / (27 + 18 * t + 12 * t * t + 8 * t * t * t)); };
  nlv_assert(k(t) > 0, "entries are positive");
  nlv_assert(k(t) <= 1, "entries are at most one");
  nlv_eq(k(0), 1, "entry at zero kinetic energy is one");
  double a = 27 + 18 * t + 12 * t * t + 8 * t * t * t, b = 27 + 18 * u + 12 * u * u + 8 * u * u * u;
  nlv_assert(16 * t * t * t * t * b <= 16 * u * u * u * u * a, "entries never increase with the kinetic energy");
}
// construction refuses exactly the zero temperature
extern "C" void construct(int ty)
{
  double T = nlv_real("T");
  Host h;
  bool thrown = false;
  try {
    FreeEnergy fe(T, h, TY(ty));
  } catch (const std::exception&) { thrown = true; }
  if (thrown) { nlv_cover("refused"); nlv_assert(T == 0, "C20: only a zero temperature is refused"); }
  else { nlv_cover("accepted"); nlv_assert(!(T == 0), "C20: a zero temperature is refused by the free energy"); }
}
