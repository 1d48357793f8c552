// Host-code mocks: buffers with arbitrary extents and strides, recording every call.
#pragma once
#include "nlv.hpp"
#include "interface.hpp"
#include <utility>
using namespace nlcglib;
typedef std::pair<int, int> key;
// two distinct keys, not in map order: either different k-points or the two spin components of one
static struct {
  key operator[](int i) const
  {
    int a = nlv_int("ka"), b = nlv_int("kb"), s = nlv_int("sa"), t = nlv_int("sb");
    nlv_assume(a >= 0 && a < 1000000 && b >= 0 && b < 1000000 && s >= 0 && s < 1000000 && t >= 0 && t < 1000000);
    nlv_assume((a < b) | ((a == b) & (s < t)));
    return i == 0 ? key{b, t} : key{a, s};
  }
} HK;
struct MatHost : MatrixBaseZ {
  const char* nm[2]; int n[2][2], s[2][2]; void* p[2]; memory_type mt[2]; int cnt;
  MPI_Comm ec;
  MatHost(const char* a, const char* b, const char* n00, const char* n01, const char* n10, const char* n11, int cnt = 2) : cnt(cnt), ec(MPI_COMM_SELF)
  {
    nm[0] = a; nm[1] = b;
    n[0][0] = nlv_int(n00); n[0][1] = nlv_int(n01); n[1][0] = nlv_int(n10); n[1][1] = nlv_int(n11);
    for (int i = 0; i < 2; ++i) {
      for (int d = 0; d < 2; ++d) nlv_assume(n[i][d] >= 1 && n[i][d] < 30000);
      mt[i] = memory_type::host;
    }
  }
  void strides(int i, int s0, int s1)
  {
    s[i][0] = s0; s[i][1] = s1;
    nlv_assume(s0 >= 1 && s0 < 30000 && s1 >= 1 && s1 < 30000);
    p[i] = nlv_host(nm[i], 16, 2, n[i][0], n[i][1], s0, s1);
  }
  buffer_t mk(int i) const { return buffer_t({s[i][0], s[i][1]}, {n[i][0], n[i][1]}, (std::complex<double>*)p[i], mt[i], ec); }
  buffer_t get(int i) override { return mk(i); }
  const buffer_t get(int i) const override { return mk(i); }
  int size() const override { return cnt; }
  MPI_Comm mpicomm(int) const override { return ec; }
  MPI_Comm mpicomm() const override { return MPI_COMM_WORLD; }
  kindex_t kpoint_index(int i) const override { return HK[i]; }
};
struct VecHost : VectorBaseZ {
  const char* nm[2]; int n[2], s[2]; void* p[2]; memory_type mt[2]; int cnt;
  VecHost(const char* a, const char* b, const char* n0, const char* n1, int cnt = 2) : cnt(cnt)
  {
    nm[0] = a; nm[1] = b; n[0] = nlv_int(n0); n[1] = nlv_int(n1);
    for (int i = 0; i < 2; ++i) { nlv_assume(n[i] >= 1 && n[i] < 30000); mt[i] = memory_type::host; }
  }
  void strides(int i, int s0) { s[i] = s0; nlv_assume(s0 >= 1 && s0 < 30000); p[i] = nlv_host(nm[i], 8, 1, n[i], 1, s0, 1); }
  buffer_t mk(int i) const { return buffer_t({s[i]}, {n[i]}, (double*)p[i], mt[i]); }
  buffer_t get(int i) override { return mk(i); }
  const buffer_t get(int i) const override { return mk(i); }
  int size() const override { return cnt; }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_WORLD; }
  kindex_t kpoint_index(int i) const override { return HK[i]; }
};
struct ScaHost : ScalarBaseZ {
  double v[2];
  ScaHost(const char* a, const char* b) { v[0] = nlv_real(a); v[1] = nlv_real(b); }
  buffer_t get(int i) override { return v[i]; }
  const buffer_t get(int i) const override { return v[i]; }
  int size() const override { return 2; }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return MPI_COMM_WORLD; }
  kindex_t kpoint_index(int i) const override { return HK[i]; }
};
static int idx(const char* nm, int n)
{
  int i = nlv_fresh_int(nm);
  nlv_assume(i >= 0 && i < n);
  return i;
}
template <class F> static bool refuses(F f)
{
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
