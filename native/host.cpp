// bounded native stand-in for C06 / C15 / C17: a recording host with random extents and strides
#include "la/mvector.hpp"
#include "free_energy.hpp"
#include "preconditioner.hpp"
#include "overlap.hpp"
#include "ultrasoft_precond.hpp"
#include <cstdio>
#include <random>
#include <unistd.h>
#include <mpi.h>
using namespace nlcglib;
typedef Kokkos::HostSpace H;
typedef Kokkos::View<double*, H> V;
typedef KokkosDVector<Kokkos::complex<double>**, SlabLayoutV, Kokkos::LayoutLeft, H> mat_t;
typedef std::pair<int, int> key;
typedef std::complex<double> C;
static long n_ = 0, bad_ = 0;
static void chk(bool ok, const char* what, int c) { ++n_; if (!ok && ++bad_ < 10) printf("FAIL case %d: %s\n", c, what); }
static bool near(double a, double b) { return std::abs(a - b) <= 1e-11 * (1 + std::abs(a) + std::abs(b)); }
template <class F> static bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
static std::mt19937 g(5);
static int R(int a, int b) { return std::uniform_int_distribution<int>(a, b)(g); }
static double U() { return std::uniform_real_distribution<double>(-1, 1)(g); }
struct Mat : MatrixBaseZ {
  std::vector<key> k; std::vector<std::array<int, 2>> n, s; std::vector<std::vector<C>> d; std::vector<memory_type> mt;
  Mat(const std::vector<key>& k, const std::vector<std::array<int, 2>>& n, bool unit) : k(k), n(n)
  {
    for (size_t i = 0; i < k.size(); ++i) {
      int s0 = unit ? 1 : R(1, 3), s1;
      bool row = !unit && R(0, 1);
      if (row) { s1 = s0; s0 = n[i][1] * s1 + R(0, 2); } else s1 = n[i][0] * s0 + R(0, 3);
      s.push_back({s0, s1});
      d.emplace_back(n[i][0] * s0 + n[i][1] * s1 + 1);
      for (auto& x : d.back()) x = C(U(), U());
      mt.push_back(memory_type::host);
    }
  }
  buffer_t get(int i) override { return buffer_t(s[i], n[i], d[i].data(), mt[i]); }
  const buffer_t get(int i) const override { return buffer_t(s[i], n[i], const_cast<C*>(d[i].data()), mt[i]); }
  int size() const override { return k.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_WORLD; }
  kindex_t kpoint_index(int i) const override { return k[i]; }
  C el(int q, int i, int j) const { return d[q][i * s[q][0] + j * s[q][1]]; }
};
struct Vec : VectorBaseZ {
  std::vector<key> k; std::vector<int> n, s; std::vector<std::vector<double>> d; std::vector<memory_type> mt;
  Vec(const std::vector<key>& k, const std::vector<int>& n, bool unit, bool pos = false) : k(k), n(n)
  {
    for (size_t i = 0; i < k.size(); ++i) {
      s.push_back(unit ? 1 : R(1, 3)); d.emplace_back(n[i] * s[i] + 1); mt.push_back(memory_type::host);
      for (auto& x : d.back()) x = pos ? (R(0, 5) == 0 ? 0.0 : std::exp(6 * U())) : U();
    }
  }
  buffer_t get(int i) override { return buffer_t({s[i]}, {n[i]}, d[i].data(), mt[i]); }
  const buffer_t get(int i) const override { return buffer_t({s[i]}, {n[i]}, const_cast<double*>(d[i].data()), mt[i]); }
  int size() const override { return k.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_WORLD; }
  kindex_t kpoint_index(int i) const override { return k[i]; }
};
struct Sca : ScalarBaseZ {
  std::vector<key> k; std::vector<double> v;
  Sca(const std::vector<key>& k) : k(k) { for (auto& x : k) v.push_back(std::abs(U()) + 0.1); }
  buffer_t get(int i) override { return v[i]; }
  const buffer_t get(int i) const override { return v[i]; }
  int size() const override { return k.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_WORLD; }
  kindex_t kpoint_index(int i) const override { return k[i]; }
};
static std::vector<key> keys(int nk)
{
  std::vector<key> v;
  while ((int)v.size() < nk) { key x(R(0, 5), R(0, 1)); if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); }
  return v;
}
template <class B> struct Op : B {
  std::vector<key> k;
  mutable int calls = 0; mutable key last; mutable std::vector<std::array<int, 4>> dims; mutable void *pi, *po;
  void apply(const key& kk, MatrixBaseZ::buffer_t& o, MatrixBaseZ::buffer_t& in) const override
  {
    ++calls; last = kk; pi = in.data; po = o.data;
    dims = {{in.size[0], in.size[1], in.stride[0], in.stride[1]}, {o.size[0], o.size[1], o.stride[0], o.stride[1]}};
    for (int i = 0; i < in.size[0]; ++i)
      for (int j = 0; j < in.size[1]; ++j) o.data[i * o.stride[0] + j * o.stride[1]] = (2.0 + kk.first + 10 * kk.second + i) * in.data[i * in.stride[0] + j * in.stride[1]];
  }
  std::vector<key> get_keys() const override { return k; }
};
template <class W, class B, class X> static void op_test(const std::vector<key>& ks, X x, int c)
{
  Op<B> b; b.k = ks;
  W w(b);
  auto a = x.array();
  int m = a.extent(0), n = a.extent(1);
  for (size_t q = 0; q < ks.size(); ++q) {
    auto y = w.at(ks[q])(x);
    auto ya = y.array();
    chk(b.calls == (int)q + 1 && b.last == ks[q], "operator applied once to the requested k-point", c);
    chk(b.pi == (void*)a.data() && b.po == (void*)ya.data() && b.pi != b.po, "operator buffers are the input and a fresh output", c);
    chk(b.dims[0] == std::array<int, 4>{m, n, (int)a.stride(0), (int)a.stride(1)} && b.dims[1] == std::array<int, 4>{m, n, (int)ya.stride(0), (int)ya.stride(1)}, "operator buffers describe the matrices", c);
    bool ok = true;
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) ok = ok && near(ya(i, j).real(), (2.0 + ks[q].first + 10 * ks[q].second + i) * a(i, j).real()) && near(ya(i, j).imag(), (2.0 + ks[q].first + 10 * ks[q].second + i) * a(i, j).imag());
    chk(ok, "operator result is what the host wrote", c);
  }
  const W& cw = w;
  size_t t = 0;
  for (auto& e : w) { chk(t < ks.size() && e.first == ks[t], "operator iteration yields its keys", c); if (++t > 20) break; }
  chk(t == ks.size(), "operator iteration yields each key once", c);
  t = 0;
  for (auto& e : cw) { chk(t < ks.size() && e.first == ks[t], "operator iteration yields its keys", c); if (++t > 20) break; }
  chk(t == ks.size(), "operator iteration yields each key once", c);
}
static void c15()
{
  for (int c = 0; c < 300; ++c) {
    int nk = R(0, 4);
    auto ks = keys(nk);
    std::vector<std::array<int, 2>> n; std::vector<int> nv;
    for (int q = 0; q < nk; ++q) { n.push_back({R(1, 6), R(1, 5)}); nv.push_back(R(1, 7)); }
    auto mp = std::make_shared<Mat>(ks, n, false);
    auto x = make_mmatrix<H>(mp);
    chk((int)x.size() == nk && x.commk().raw() == MPI_COMM_WORLD, "one matrix per entry", c);
    for (int q = 0; q < nk; ++q) {
      auto a = x.at(ks[q]).array();
      chk((int)a.extent(0) == n[q][0] && (int)a.extent(1) == n[q][1] && (void*)a.data() == (void*)mp->d[q].data(), "matrix extents and aliasing", c);
      bool ok = true;
      for (int i = 0; i < n[q][0]; ++i) for (int j = 0; j < n[q][1]; ++j) ok = ok && a(i, j).real() == mp->el(q, i, j).real() && a(i, j).imag() == mp->el(q, i, j).imag();
      chk(ok, "matrix elements", c);
    }
    auto vp = std::make_shared<Vec>(ks, nv, R(0, 1));
    auto v = make_mmvector<H>(vp);
    chk((int)v.size() == nk && v.commk().raw() == MPI_COMM_WORLD, "one vector per entry", c);
    for (int q = 0; q < nk && v.size() == ks.size(); ++q) {
      auto a = v.at(ks[q]);
      bool ok = (int)a.extent(0) == nv[q] && a.data() != vp->d[q].data();
      for (int i = 0; ok && i < nv[q]; ++i) ok = a(i) == vp->d[q][i * vp->s[q]];
      chk(ok, "vector elements at i*stride", c);
    }
    auto sp = std::make_shared<Sca>(ks);
    auto s = make_mmscalar(sp);
    chk((int)s.size() == nk && s.commk().raw() == MPI_COMM_WORLD, "one scalar per entry", c);
    for (int q = 0; q < nk; ++q) chk(s.at(ks[q]) == sp->v[q], "scalar", c);
    if (nk) {
      int bad = R(0, nk - 1);
      auto t = R(0, 1) ? memory_type::none : memory_type::device;
      mp->mt[bad] = t; vp->mt[bad] = t;
      chk(throws([&] { make_mmatrix<H>(mp); }), "matrix in unsupported memory refused", c);
      chk(throws([&] { make_mmvector<H>(vp); }), "vector in unsupported memory refused", c);
    }
    mat_t L(Map<>(Communicator(), SlabLayoutV({{0, 0, R(1, 5), R(1, 5)}})));
    for (size_t i = 0; i < L.array().extent(0); ++i) for (size_t j = 0; j < L.array().extent(1); ++j) L.array()(i, j) = Kokkos::complex<double>(U(), U());
    op_test<Overlap, OverlapBase>(ks, L, c);
    op_test<USPreconditioner, UltrasoftPrecondBase>(ks, L, c);
    if (nk) op_test<Overlap, OverlapBase>(ks, x.at(ks[0]), c);
  }
}
static int occ_ = 2;
struct Host : EnergyBase {
  std::shared_ptr<Mat> Cm, Hm; std::shared_ptr<Vec> f, e, T; std::shared_ptr<Sca> w;
  std::vector<key> ks, kf; std::vector<std::vector<double>> vf;
  int computes = 0, fnsets = 0, late = 0, early = 0; double mu = 0, E = 1; bool stale = true; std::vector<std::vector<C>> snap;
  void compute() override { ++computes; snap = Cm->d; stale = false; E = -3.25 - computes; if (!fnsets) ++early; }
  int nelectrons() override { return 4; }
  int occupancy() override { return occ_; }
  double get_total_energy() override { if (stale) ++late; return E; }
  std::map<std::string, double> get_energy_components() override { return {}; }
  std::shared_ptr<MatrixBaseZ> get_hphi(memory_type) override { return Hm; }
  std::shared_ptr<MatrixBaseZ> get_sphi(memory_type) override { return Hm; }
  std::shared_ptr<MatrixBaseZ> get_C(memory_type) override { return Cm; }
  std::shared_ptr<VectorBaseZ> get_fn() override { return f; }
  void set_fn(const std::vector<key>& k, const std::vector<std::vector<double>>& v) override { ++fnsets; kf = k; vf = v; stale = true; E = 77; }
  std::shared_ptr<VectorBaseZ> get_ek() override { return e; }
  std::shared_ptr<VectorBaseZ> get_gkvec_ekin() override { return T; }
  std::shared_ptr<ScalarBaseZ> get_kpoint_weights() override { return w; }
  void set_chemical_potential(double m) override { mu = m; }
  double get_chemical_potential() override { return mu + 0.01; }
  void print_info() const override {}
};
template <class S> static double ent(const std::vector<V>& e, const std::vector<double>& w, double mu, double kT)
{
  double s = 0;
  for (size_t q = 0; q < e.size(); ++q) for (size_t i = 0; i < e[q].extent(0); ++i) s -= w[q] * S::entropy((mu - e[q](i)) / kT, occ_);
  return s;
}
static void c06()
{
  for (int c = 0; c < 150; ++c) {
    int nk = R(1, 3), ty = c % 5; occ_ = R(1, 2);
    Host h; h.ks = keys(nk);
    std::vector<std::array<int, 2>> n; std::vector<int> nb, ng;
    for (int q = 0; q < nk; ++q) { n.push_back({R(1, 6), R(1, 4)}); ng.push_back(n[q][0]); nb.push_back(n[q][1]); }
    h.Cm = std::make_shared<Mat>(h.ks, n, R(0, 1)); h.Hm = std::make_shared<Mat>(h.ks, n, true);
    h.f = std::make_shared<Vec>(h.ks, nb, true); h.e = std::make_shared<Vec>(h.ks, nb, true); h.T = std::make_shared<Vec>(h.ks, ng, true); h.w = std::make_shared<Sca>(h.ks);
    double T = 500 + 3000 * std::abs(U()), mu = U();
    FreeEnergy fe(T, h, static_cast<smearing_type>(ty));
    mvector<mat_t> X; mvector<V> f, e;
    std::vector<V> ev; std::vector<std::vector<double>> fv; std::vector<std::vector<Kokkos::complex<double>>> xv;
    for (int q = 0; q < nk; ++q) {
      mat_t x(Map<>(Communicator(), SlabLayoutV({{0, 0, n[q][0], n[q][1]}})));
      xv.emplace_back();
      for (int j = 0; j < n[q][1]; ++j) for (int i = 0; i < n[q][0]; ++i) { x.array()(i, j) = Kokkos::complex<double>(U(), U()); xv.back().push_back(x.array()(i, j)); }
      V a("", nb[q]), b("", nb[q]), bc("", nb[q]); fv.emplace_back();
      for (int i = 0; i < nb[q]; ++i) { a(i) = std::abs(U()); bc(i) = b(i) = mu + 0.02 * U(); fv.back().push_back(a(i)); }
      X[h.ks[q]] = x; f[h.ks[q]] = a; e[h.ks[q]] = b; ev.push_back(bc);
    }
    int base = 0;
    if (R(0, 1)) {   // after another evaluation
      mvector<mat_t> Y; mvector<V> g, d;
      for (int q = 0; q < nk; ++q) {
        mat_t x(Map<>(Communicator(), SlabLayoutV({{0, 0, n[q][0], n[q][1]}})));
        for (int j = 0; j < n[q][1]; ++j) for (int i = 0; i < n[q][0]; ++i) x.array()(i, j) = Kokkos::complex<double>(U(), U());
        V a("", nb[q]), b("", nb[q]);
        for (int i = 0; i < nb[q]; ++i) { a(i) = R(0, 1) ? fv[q][i] : std::abs(U()); b(i) = R(0, 1) ? ev[q](i) : U(); }
        Y[h.ks[q]] = x; g[h.ks[q]] = a; d[h.ks[q]] = b;
      }
      fe.compute(Y, g, d, R(0, 1) ? mu : U()); base = 1; h.late = h.early = 0; h.stale = true;
    }
    fe.compute(X, f, e, mu);
    chk(h.computes == base + 1 && h.fnsets == base + 1 && !h.late && !h.early && !h.stale, "order: orbitals and occupations, recomputation, total energy", c);
    bool okx = h.snap == h.Cm->d;
    for (int q = 0; q < nk; ++q) { int t = 0; for (int j = 0; j < n[q][1]; ++j) for (int i = 0; i < n[q][0]; ++i, ++t) okx = okx && h.Cm->el(q, i, j).real() == xv[q][t].real() && h.Cm->el(q, i, j).imag() == xv[q][t].imag(); }
    chk(okx, "host orbitals are X", c);
    bool okf = (int)h.kf.size() == nk && (int)h.vf.size() == nk;
    for (int q = 0; okf && q < nk; ++q) { auto it = std::find(h.kf.begin(), h.kf.end(), h.ks[q]); okf = it != h.kf.end() && h.vf[it - h.kf.begin()] == fv[q]; }
    chk(okf, "host occupations are f under their keys", c);
    chk(h.mu == mu, "chemical potential handed over", c);
    double kT = physical_constants::kb * T, S = 0;
    switch (static_cast<smearing_type>(ty)) {
      case smearing_type::FERMI_DIRAC: S = ent<smearing<smearing_type::FERMI_DIRAC>>(ev, h.w->v, mu, kT); break;
      case smearing_type::GAUSSIAN_SPLINE: S = ent<smearing<smearing_type::GAUSSIAN_SPLINE>>(ev, h.w->v, mu, kT); break;
      case smearing_type::GAUSS: S = ent<smearing<smearing_type::GAUSS>>(ev, h.w->v, mu, kT); break;
      case smearing_type::METHFESSEL_PAXTON: S = ent<smearing<smearing_type::METHFESSEL_PAXTON>>(ev, h.w->v, mu, kT); break;
      case smearing_type::COLD: S = ent<smearing<smearing_type::COLD>>(ev, h.w->v, mu, kT); break;
    }
    chk(std::abs(fe.get_entropy() - kT * S) < 1e-12 && std::abs(fe.get_F() - (-4.25 - base + kT * S)) < 1e-12, "F = E + kB T S", c);
    bool oku = true;
    for (int q = 0; q < nk; ++q) {
      int t = 0;
      for (int j = 0; j < n[q][1]; ++j) for (int i = 0; i < n[q][0]; ++i, ++t) oku = oku && X.at(h.ks[q]).array()(i, j) == xv[q][t];
      for (int i = 0; i < nb[q]; ++i) oku = oku && f.at(h.ks[q])(i) == fv[q][i] && e.at(h.ks[q])(i) == ev[q](i);
    }
    chk(oku, "caller's data unchanged", c);
    auto gX = fe.get_X(); auto gH = fe.get_HX(); auto gf = fe.get_fn(); auto ge = fe.get_ek(); auto gw = fe.get_wk();
    for (int q = 0; q < nk; ++q) {
      chk((void*)gX.at(h.ks[q]).array().data() == (void*)h.Cm->d[q].data() && (void*)gH.at(h.ks[q]).array().data() == (void*)h.Hm->d[q].data(), "accessors view the host's orbitals", c);
      chk(gf.at(h.ks[q])(0) == h.f->d[q][0] && ge.at(h.ks[q])(0) == h.e->d[q][0] && gw.at(h.ks[q]) == h.w->v[q], "accessors return the host's vectors", c);
    }
  }
}
static void c17()
{
  for (int c = 0; c < 200; ++c) {
    int nk = R(1, 3);
    auto ks = keys(nk); std::vector<int> n;
    for (int q = 0; q < nk; ++q) n.push_back(R(1, 8));
    auto h = std::make_shared<Vec>(ks, n, R(0, 1), true);
    PreconditionerTeter<H> P(h);
    for (int q = 0; q < nk; ++q) {
      mat_t x(Map<>(Communicator(), SlabLayoutV({{0, 0, n[q], R(1, 5)}})));
      int nc = x.array().extent(1);
      for (int j = 0; j < nc; ++j) for (int i = 0; i < n[q]; ++i) x.array()(i, j) = Kokkos::complex<double>(U(), U());
      auto x0 = copy(x);
      auto d = P.at(ks[q]);
      auto y = d(x);
      bool ok = true, un = true, agree = true, bound = true;
      for (int j = 0; j < nc; ++j) for (int i = 0; i < n[q]; ++i) {
        double t = h->d[q][i * h->s[q]], k = 1 / (1 + 16 * t * t * t * t / (27 + 18 * t + 12 * t * t + 8 * t * t * t));
        ok = ok && near(y.array()(i, j).real(), k * x0.array()(i, j).real()) && near(y.array()(i, j).imag(), k * x0.array()(i, j).imag());
        un = un && x.array()(i, j) == x0.array()(i, j);
        bound = bound && std::abs(y.array()(i, j).real()) <= std::abs(x0.array()(i, j).real()) && y.array()(i, j).real() * x0.array()(i, j).real() >= 0;
      }
      d.apply_in_place(x);
      for (int j = 0; j < nc; ++j) for (int i = 0; i < n[q]; ++i) agree = agree && x.array()(i, j) == y.array()(i, j);
      chk(ok, "rows scaled by the Teter entries", c); chk(un, "input unchanged", c); chk(agree, "in-place agrees", c); chk(bound, "entries in (0,1]", c);
    }
  }
}
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  Kokkos::initialize();
  std::string w = argv[1];
  try {
    if (w == "C15") c15();
    if (w == "C06") c06();
    if (w == "C17") c17();
  } catch (std::exception& e) { printf("FAIL unexpected exception: %s\n", e.what()); ++bad_; }
  printf("DONE %ld\n", n_);
  fflush(stdout);
  _exit(bad_ ? 1 : 0);
}
