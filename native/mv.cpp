// bounded native stand-in for C14 / C16
#include "la/mvector.hpp"
#include <cstdio>
#include <random>
#include <set>
#include <mpi.h>
using namespace nlcglib;
typedef Kokkos::View<double*, Kokkos::HostSpace> V;
typedef KokkosDVector<Kokkos::complex<double>**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace> M;
typedef std::pair<int, int> key;
static int rank_, np_;
static long n_ = 0, bad_ = 0;
static void chk(bool ok, const char* what, int c)
{
  ++n_;
  if (!ok && ++bad_ < 10) printf("FAIL rank %d/%d case %d: %s\n", rank_, np_, c, what);
}
template <class F> static bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
int main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
  MPI_Comm_size(MPI_COMM_WORLD, &np_);
  Kokkos::initialize();
  std::string what = argv[1];
  {
    std::mt19937 g(11);
    auto R = [&](int a, int b) { return std::uniform_int_distribution<int>(a, b)(g); };
    auto U = [&]() { return std::uniform_real_distribution<double>(-1, 1)(g); };
    Communicator comm(MPI_COMM_WORLD), self(MPI_COMM_SELF);
    for (int c = 0; c < 300; ++c) {
      int nk = R(1, 7);
      std::set<key> ks;
      while ((int)ks.size() < nk) ks.insert(key(R(0, 6), R(0, 1)));
      std::vector<key> keys(ks.begin(), ks.end());
      std::shuffle(keys.begin(), keys.end(), g);
      int style = R(0, 3), target = R(0, np_ - 1);
      std::map<key, std::vector<double>> data;
      std::map<key, double> sc;
      std::map<key, int> own;
      double tot = 0, totv = 0;
      for (auto& k : keys) {
        data[k].resize(R(1, 9));
        for (auto& x : data[k]) { x = U(); totv += x; }
        sc[k] = U(); tot += sc[k];
        own[k] = style == 0 ? target : R(0, np_ - 1);
      }
      mvector<V> x(comm);
      mvector<double> w(comm);
      for (auto& k : keys) {
        if (own[k] != rank_) continue;
        V v("v", data[k].size());
        for (size_t i = 0; i < data[k].size(); ++i) v(i) = data[k][i];
        x[k] = v; w[k] = sc[k];
      }
      if (what == "C14") {
        auto xa = x.allgather();
        auto wa = w.allgather();
        chk(xa.size() == keys.size() && wa.size() == keys.size(), "gather: number of keys", c);
        for (auto& k : keys) {
          bool h = false;
          for (auto& e : xa) if (e.first == k) {
            h = e.second.extent(0) == data[k].size();
            for (size_t i = 0; h && i < data[k].size(); ++i) if (e.second(i) != data[k][i]) h = false;
          }
          chk(h, "gathered vector under its key", c);
          h = false;
          for (auto& e : wa) if (e.first == k && e.second == sc[k]) h = true;
          chk(h, "gathered scalar under its key", c);
        }
        std::vector<std::vector<double>> per(np_);
        for (auto& p : per) { p.resize(R(0, 4)); for (auto& z : p) z = U(); }
        chk(comm.allgather(per[rank_]) == per, "gather of one array per rank", c);
        Communicator nul{MPI_COMM_NULL}, comm2(MPI_COMM_WORLD);
        chk(comm == comm2 && !(comm == nul) && !(nul == comm) && nul == Communicator{MPI_COMM_NULL} && (np_ == 1 || (self < comm && comm > self && !(comm < self))) && !(comm < comm2), "comparison of communicators", c);
        chk(std::abs(sum(w) - tot) < 1e-12, "global sum", c);
        chk(std::abs(sum(w, comm) - tot) < 1e-12, "global sum, explicit communicator", c);
        chk(std::abs(sum(sum(x)) - totv) < 1e-12, "global sum of vector sums", c);
        if (np_ > 1) {
          chk(throws([&] { w.allgather(self); }), "smaller communicator accepted (scalars)", c);
          chk(throws([&] { x.allgather(self); }), "smaller communicator accepted (vectors)", c);
          chk(throws([&] { sum(w, self); }), "smaller communicator accepted (sum)", c);
        }
      } else {
        mvector<double> a(comm), b(comm);
        for (auto& k : keys) a[k] = U();
        bool missing = false;
        for (auto& k : keys) { if (R(0, 9) == 0) missing = true; else b[k] = U(); }
        b[key(9, 1)] = 3;
        auto a0 = a, b0 = b;
        int calls = 0;
        auto f = [&calls](double p, double q) { ++calls; return p + 10 * q; };
        auto ok = [&](auto& r) {
          if (r.size() != a.size()) return false;
          for (auto& k : keys) if (eval(r.at(k)) != a.at(k) + 10 * b.at(k)) return false;
          return true;
        };
        bool t1 = throws([&] { auto r = tapply(f, a, b); chk(ok(r), "lazy application", c); auto e = eval_threaded(r); chk(ok(e), "eager application", c); });
        chk(t1 == missing, "missing key (lazy)", c);
        bool t2 = throws([&] { calls = 0; auto r = tapply_async(f, a, b); chk(calls == 0, "deferred ran early", c); chk(ok(r), "deferred application", c); chk(ok(r), "deferred application", c); auto e = eval_threaded(r); chk(ok(e), "deferred, evaluated", c); chk(calls == (int)a.size(), "deferred evaluation runs once", c); });
        chk(t2 == missing, "missing key (deferred)", c);
        chk(a.data() == a0.data() && b.data() == b0.data(), "inputs changed", c);
        chk(throws([&] { const auto& q = a; q.at(key(8, 0)); }) && throws([&] { const auto& q = a; q[key(8, 0)]; }), "missing key read", c);
        mvector<std::tuple<double, int>> z(comm);
        int cnt = 0;
        for (auto& k : keys) z[k] = std::make_tuple(a[k], cnt++);
        auto u = unzip(z);
        auto u2 = unzip(z, comm);
        for (auto& k : keys) chk(std::get<0>(u).at(k) == std::get<0>(z[k]) && std::get<1>(u).at(k) == std::get<1>(z[k]) && std::get<0>(u2).at(k) == std::get<0>(z[k]) && std::get<1>(u2).at(k) == std::get<1>(z[k]), "unzip", c);
        chk(std::get<0>(u2).commk().size() == np_ && std::get<1>(u2).commk().size() == np_, "unzip communicator", c);
        mvector<M> m(comm);
        int p = R(1, 6), q = R(1, 4);
        for (auto& k : keys) {
          M mm(Map<>(self, SlabLayoutV({{0, 0, p, q}})));
          for (int i = 0; i < p; ++i) for (int j = 0; j < q; ++j) mm.array()(i, j) = Kokkos::complex<double>(U(), U());
          m[k] = mm;
        }
        auto cp = copy(m);
        auto c1 = copy(m.begin()->second);
        std::map<key, std::vector<Kokkos::complex<double>>> before;
        for (auto& k : keys) for (int i = 0; i < p; ++i) for (int j = 0; j < q; ++j) before[k].push_back(m[k].array()(i, j));
        auto k0 = m.begin()->first;
        for (auto& k : keys) for (int i = 0; i < p; ++i) for (int j = 0; j < q; ++j) m[k].array()(i, j) = 77.0;
        bool same = cp.size() == m.size();
        for (auto& k : keys) { int s = 0; for (int i = 0; i < p; ++i) for (int j = 0; j < q; ++j, ++s) if (cp[k].array()(i, j) != before[k][s] || (k == k0 && c1.array()(i, j) != before[k][s])) same = false; }
        chk(same, "copies own their data", c);
        for (auto& k : keys) cp[k].array()(0, 0) = -5.0;
        same = true;
        for (auto& k : keys) if (m[k].array()(0, 0) != Kokkos::complex<double>(77.0)) same = false;
        chk(same, "writing a copy changed the original", c);
      }
    }
  }
  Kokkos::finalize();
  if (rank_ == 0) printf("DONE %ld\n", n_);
  MPI_Finalize();
  return 0;
}
