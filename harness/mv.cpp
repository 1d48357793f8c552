#include "nlv.hpp"
#include "la/mvector.hpp"
#include "rt.hpp"
using namespace nlcglib;
typedef Kokkos::View<double*, Kokkos::HostSpace> V;
typedef std::pair<int, int> key;
// any non-negative keys with this order: KEYS[1] < KEYS[2] < KEYS[3] < KEYS[0], the middle two being spin components of one k-point
static const int NK = 4;
static struct {
  key operator[](int q) const
  {
    if (q == 0) return {nlv_int("kc"), nlv_int("s0")};
    if (q == 1) return {nlv_int("ka"), nlv_int("s1")};
    if (q == 2) return {nlv_int("kb"), nlv_int("s2")};
    return {nlv_int("kb"), nlv_int("s3")};
  }
} KEYS;
static void order()
{
  for (auto n : {"ka", "kb", "kc", "s0", "s1", "s2", "s3"}) nlv_assume(nlv_int(n) >= 0 && nlv_int(n) < 2147483647);
  nlv_assume(nlv_int("ka") < nlv_int("kb") && nlv_int("kb") < nlv_int("kc") && nlv_int("s2") < nlv_int("s3"));
}
static const char* NM[NK] = {"e0", "e1", "e2", "e3"};
static const char* NN[NK] = {"n0", "n1", "n2", "n3"};
static const char* WN[NK] = {"w0", "w1", "w2", "w3"};
static V vec(int q)
{
  int k = nlv_int(NN[q]);
  nlv_assume(k >= 1 && k < 100000);
  V v("v", k);
  nlv_input(v.data(), NM[q]);
  return v;
}
static int count(int m) { return (m & 1) + (m >> 1 & 1) + (m >> 2 & 1) + (m >> 3 & 1); }
// ---- C14
extern "C" void gather_views(int mine, int all)
{
  order();
  for (int q = 0; q < NK; ++q) { int k = nlv_int(NN[q]); nlv_assume(k >= 1 && k < 100000); }   // on every rank
  mvector<V> x(Communicator{MPI_COMM_WORLD});
  for (int q = 0; q < NK; ++q)
    if (mine >> q & 1) x[KEYS[q]] = vec(q);
  auto r = x.allgather();
  nlv_assert((int)r.size() == count(all), "gathered collection has exactly the keys of all ranks");
  for (int q = 0; q < NK; ++q)
    if (all >> q & 1) {
      V v = r.at(KEYS[q]);
      V ref = vec(q);
      nlv_assert(v.extent(0) == ref.extent(0), "gathered vector has the length of the owner's vector");
      int i = nlv_fresh_int("i");
      nlv_assume(i >= 0 && i < (int)ref.extent(0));
      nlv_eq(v(i), ref(i), "gathered vector holds the owner's values under its key");
    }
  for (int q = 0; q < NK; ++q)
    if (mine >> q & 1) {
      V v = x.at(KEYS[q]), ref = vec(q);
      int i = nlv_fresh_int("i");
      nlv_assume(i >= 0 && i < (int)ref.extent(0));
      nlv_eq(v(i), ref(i), "gathering leaves the local values unchanged");
    }
}
extern "C" void gather_scalars(int mine, int all)
{
  order();
  mvector<double> x(Communicator{MPI_COMM_WORLD});
  for (int q = 0; q < NK; ++q)
    if (mine >> q & 1) x[KEYS[q]] = nlv_real(WN[q]);
  auto r = x.allgather();
  nlv_assert((int)r.size() == count(all), "gathered collection has exactly the keys of all ranks");
  for (int q = 0; q < NK; ++q)
    if (all >> q & 1) nlv_eq(r.at(KEYS[q]), nlv_real(WN[q]), "gathered scalar is the owner's value under its key");
  nlv_assert((int)x.size() == count(mine), "gathering leaves the local keys unchanged");
}
extern "C" void global_sum(int mine)
{
  order();
  mvector<double> x(Communicator{MPI_COMM_WORLD});
  double loc = 0;
  for (int q = 0; q < NK; ++q)
    if (mine >> q & 1) { x[KEYS[q]] = nlv_real(WN[q]); loc += nlv_real(WN[q]); }
  nlv_eq(sum(x), nlv_ar_sum(loc), "sum is over all k-points of all ranks");
  nlv_eq(sum(x, Communicator{MPI_COMM_WORLD}), nlv_ar_sum(loc), "sum over an explicit communicator");
  mvector<double> y(Communicator{MPI_COMM_SELF});
  for (int q = 0; q < NK; ++q)
    if (mine >> q & 1) y[KEYS[q]] = nlv_real(WN[q]);
  nlv_eq(sum(y, Communicator{MPI_COMM_WORLD}), nlv_ar_sum(loc), "sum over an explicit communicator");
  nlv_eq(sum(y), loc, "sum over the collection's own communicator");
  // the communicator survives lazy application
  nlv_eq(sum(tapply([](double a) { return a; }, x)), nlv_ar_sum(loc), "sum of a lazily evaluated collection");
  // per-k sums of vectors, then over ranks
}
extern "C" void sum_views(int mine)
{
  order();
  mvector<V> x(Communicator{MPI_COMM_WORLD});
  double loc = 0;
  for (int q = 0; q < NK; ++q)
    if (mine >> q & 1) {
      V v = vec(q);
      x[KEYS[q]] = v;
      for (size_t i = 0; i < v.extent(0); ++i) loc += v(i);
    }
  nlv_eq(sum(sum(x)), nlv_ar_sum(loc), "sum of the per-k sums over all ranks");
}
template <class F> static bool refuses(F f)
{
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
extern "C" void refuse(int what)
{
  order();
  mvector<double> x(Communicator{MPI_COMM_WORLD});
  x[KEYS[0]] = nlv_real("w0");
  mvector<V> v(Communicator{MPI_COMM_WORLD});
  v[KEYS[0]] = vec(0);
  Communicator small{MPI_COMM_SELF};
  if (what == 0) nlv_assert(refuses([&] { x.allgather(small); }), "gather of scalars over a smaller communicator is refused");
  if (what == 1) nlv_assert(refuses([&] { v.allgather(small); }), "gather of vectors over a smaller communicator is refused");
  if (what == 2) nlv_assert(refuses([&] { sum(x, small); }), "sum over a smaller communicator is refused");
}
// default communicator of the two communicator type
extern "C" void reduce_ops()
{
  order();
  Communicator c{MPI_COMM_WORLD};
  double a = nlv_real("a");
  nlv_eq(c.allreduce(a, mpi_op::sum), nlv_ar_sum(a), "allreduce sum");
  Communicator s{MPI_COMM_SELF};
  nlv_eq(s.allreduce(a, mpi_op::sum), a, "allreduce on self");
  Communicator d(c);
  Communicator e{MPI_COMM_SELF};
  e = c;
  nlv_eq(d.allreduce(a, mpi_op::sum), nlv_ar_sum(a), "a copied communicator is the same");
  nlv_eq(e.allreduce(a, mpi_op::sum), nlv_ar_sum(a), "an assigned communicator is the same");
  Communicator f(std::move(d));
  nlv_eq(f.allreduce(a, mpi_op::sum), nlv_ar_sum(a), "a moved communicator is the same");
}

// comparison of communicators (every collective uses it to select its default)
extern "C" void compare()
{
  Communicator w{MPI_COMM_WORLD}, s{MPI_COMM_SELF}, n{MPI_COMM_NULL}, w2{MPI_COMM_WORLD}, n2;
  nlv_assert(w == w2 && s == s && n == Communicator{MPI_COMM_NULL}, "a communicator equals itself");
  nlv_assert(!(w == s) && !(s == w), "different communicators differ");
  nlv_assert(!(w == n) && !(n == w) && !(s == n) && !(n == s), "no communicator equals the null communicator");
  nlv_assert(s < w && !(w < s) && !(w < w2) && w > s && !(s > w) && !(w > w2), "communicators are ordered by size");
}
// one array per rank, of any length
static const char* LN[4] = {"l0", "l1", "l2", "l3"};
static int len_of(int q, int kinds) { int k = kinds / (q == 0 ? 1 : q == 1 ? 3 : q == 2 ? 9 : 27) % 3; return k == 2 ? nlv_int(LN[q]) : k; }
extern "C" void gather_arrays(int me, int np, int kinds)
{
  static const char* ZN[4] = {"z0", "z1", "z2", "z3"};
  for (int q = 0; q < np; ++q) { int k = nlv_int(LN[q]); nlv_assume(k >= 2 && k < 100000); }
  std::vector<double> v(len_of(me, kinds));
  if (v.size() == 1) v[0] = nlv_real(ZN[me]);
  else if (v.size()) nlv_input(v.data(), ZN[me]);
  auto r = Communicator{MPI_COMM_WORLD}.allgather(v);
  nlv_assert((int)r.size() == np, "one array per rank");
  for (int q = 0; q < np; ++q) {
    int len = len_of(q, kinds);
    nlv_assert((int)r[q].size() == len, "the gathered array has the length sent");
    if (len == 1) nlv_eq(r[q][0], nlv_real(ZN[q]), "the gathered array holds what its rank sent");
    if (len <= 1) continue;
    V ref("r", len);
    nlv_input(ref.data(), ZN[q]);
    int i = nlv_fresh_int("i");
    nlv_assume(i >= 0 && i < len);
    nlv_eq(r[q][i], ref(i), "the gathered array holds what its rank sent");
  }
}

// ---- C16
static mvector<double> scal(int mask, const char** nm)
{
  mvector<double> x(Communicator{MPI_COMM_WORLD});
  for (int q = 0; q < NK; ++q)
    if (mask >> q & 1) x[KEYS[q]] = nlv_real(nm[q]);
  return x;
}
static const char* AN[NK] = {"a0", "a1", "a2", "a3"};
static const char* BN[NK] = {"b0", "b1", "b2", "b3"};
struct fn2 { double operator()(double a, double b) const { return nlv_uf2("f", a, b); } };
template <class M> static void expect2(M& r, int mask, const char* what)
{
  nlv_assert((int)r.size() == count(mask), "the result has the keys of the first collection");
  for (int q = 0; q < NK; ++q)
    if (mask >> q & 1) nlv_eq(eval(r.at(KEYS[q])), nlv_uf2("f", nlv_real(AN[q]), nlv_real(BN[q])), what);
}
template <class M> static void unchanged(M& r, int mask, const char** nm)
{
  nlv_assert((int)r.size() == count(mask), "reading a collection does not change its keys");
  for (int q = 0; q < NK; ++q)
    if (mask >> q & 1) nlv_eq(r.at(KEYS[q]), nlv_real(nm[q]), "reading a collection does not change its values");
}
extern "C" void apply_keys(int ma, int mb)
{
  order();
  auto a = scal(ma, AN);
  auto b = scal(mb, BN);
  bool missing = (ma & ~mb) != 0;
  bool threw = false;
  try {
    auto r = tapply(fn2(), a, b);
    auto e = eval_threaded(r);
    nlv_assert(!missing, "a key missing from another collection raises an exception");
    expect2(r, ma, "lazy application is on the entries of its key");
    expect2(e, ma, "eager application is on the entries of its key");
    nlv_assert(r.commk().size() == a.commk().size(), "the lazy result lives on the communicator of the first collection");
  } catch (const std::exception&) { threw = true; }
  nlv_assert(threw == missing, "an exception is raised exactly if a key is missing");
  threw = false;
  try {
    auto d = tapply_async(fn2(), a, b);
    nlv_assert(!missing, "a key missing from another collection raises an exception");
    expect2(d, ma, "deferred application is on the entries of its key");
    auto ee = eval_threaded(d);
    expect2(ee, ma, "deferred application, evaluated, is on the entries of its key");
  } catch (const std::exception&) { threw = true; }
  nlv_assert(threw == missing, "an exception is raised exactly if a key is missing");
  threw = false;
  try {
    auto p = a * b;
    nlv_assert((int)p.size() == count(ma), "the result has the keys of the first collection");
    for (int q = 0; q < NK; ++q)
      if (ma >> q & 1) nlv_eq(eval(p.at(KEYS[q])), nlv_real(AN[q]) * nlv_real(BN[q]), "product of collections is keywise");
  } catch (const std::exception&) { threw = true; }
  nlv_assert(threw == missing, "an exception is raised exactly if a key is missing");
  unchanged(a, ma, AN);
  unchanged(b, mb, BN);
  // lazy arguments
  if (!missing) {
    auto la = tapply([](double x) { return x + 1; }, a);
    auto r = tapply(fn2(), la, b);
    for (int q = 0; q < NK; ++q)
      if (ma >> q & 1) nlv_eq(eval(r.at(KEYS[q])), nlv_uf2("f", nlv_real(AN[q]) + 1, nlv_real(BN[q])), "lazy arguments are evaluated for their key");
  }
}
struct counter { int* n; double operator()(double a) const { ++*n; return nlv_uf("g", a); } };
extern "C" void deferred_once(int ma)
{
  order();
  auto a = scal(ma, AN);
  int n = 0;
  auto d = tapply_async(counter{&n}, a);
  nlv_assert(n == 0, "a deferred evaluation does not run before it is needed");
  for (int rep = 0; rep < 3; ++rep)
    for (auto& e : d) eval(e.second);
  nlv_assert(n == count(ma), "a deferred evaluation runs once per key");
  auto ee = eval_threaded(d);
  nlv_assert(n == count(ma), "a deferred evaluation runs once per key");
  for (int q = 0; q < NK; ++q)
    if (ma >> q & 1) nlv_eq(ee.at(KEYS[q]), nlv_uf("g", nlv_real(AN[q])), "deferred value");
  int m = 0;
  auto l = tapply(counter{&m}, a);
  nlv_assert(m == 0, "a lazy evaluation does not run before it is needed");
  execute(l);
  nlv_assert(m == count(ma), "execute runs each key once");
  auto ev = eval_threaded(l);
  nlv_assert(m == 2 * count(ma), "eager evaluation runs each key once");
}
extern "C" void unzip_keys(int ma)
{
  order();
  mvector<std::tuple<double, int, double>> t(Communicator{MPI_COMM_WORLD});
  for (int q = 0; q < NK; ++q)
    if (ma >> q & 1) t[KEYS[q]] = std::make_tuple(nlv_real(AN[q]), nlv_int(NN[q]), nlv_real(BN[q]));
  auto u = unzip(t);
  auto w = unzip(t, Communicator{MPI_COMM_WORLD});
  nlv_assert(std::get<0>(w).commk().size() == 2 && std::get<1>(w).commk().size() == 2 && std::get<2>(w).commk().size() == 2, "unzip keeps the communicator it is given");
  nlv_assert((int)std::get<0>(u).size() == count(ma) && (int)std::get<1>(u).size() == count(ma) && (int)std::get<2>(u).size() == count(ma), "unzip keeps the keys");
  nlv_assert((int)std::get<0>(w).size() == count(ma) && (int)std::get<1>(w).size() == count(ma) && (int)std::get<2>(w).size() == count(ma), "unzip keeps the keys");
  for (int q = 0; q < NK; ++q)
    if (ma >> q & 1) {
      nlv_eq(std::get<0>(u).at(KEYS[q]), nlv_real(AN[q]), "unzip keeps key and position");
      nlv_eq(std::get<1>(u).at(KEYS[q]), nlv_int(NN[q]), "unzip keeps key and position");
      nlv_eq(std::get<2>(u).at(KEYS[q]), nlv_real(BN[q]), "unzip keeps key and position");
      nlv_eq(std::get<0>(w).at(KEYS[q]), nlv_real(AN[q]), "unzip keeps key and position");
      nlv_eq(std::get<1>(w).at(KEYS[q]), nlv_int(NN[q]), "unzip keeps key and position");
      nlv_eq(std::get<2>(w).at(KEYS[q]), nlv_real(BN[q]), "unzip keeps key and position");
    }
}
extern "C" void missing_key()
{
  order();
  auto a = scal(3, AN);
  const auto& c = a;
  int threw = 0;
  try { a.at(KEYS[2]); } catch (const std::exception&) { ++threw; }
  try { c.at(KEYS[2]); } catch (const std::exception&) { ++threw; }
  try { c[KEYS[2]]; } catch (const std::exception&) { ++threw; }
  nlv_assert(threw == 3, "reading a missing key raises an exception");
  unchanged(a, 3, AN);
}
