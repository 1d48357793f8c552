#pragma once
#include <cstddef>
extern "C" {
double nlv_real(const char*);
int nlv_int(const char*);
bool nlv_bool(const char*);
void nlv_assume(bool);
void nlv_assert(bool, const char*);
void nlv_cover(const char*);
void nlv_input(const void*, const char*);
void nlv_out_d(const char*, double);
void nlv_out_i(const char*, long);
void nlv_out_p(const char*, const void*);
void nlv_out_view(const char*, const void*, unsigned long n0, unsigned long n1, unsigned long s0, unsigned long s1, unsigned long esz);
void nlv_event(const char*, double);
double nlv_uf(const char*, double);
double nlv_uf2(const char*, double, double);
double nlv_fresh(const char*);
int nlv_fresh_int(const char*);
bool nlv_fresh_bool(const char*);
void nlv_eq(double, double, const char*);
double nlv_ar_sum(double);
void* nlv_host(const char*, unsigned long esz, unsigned long rank, unsigned long n0, unsigned long n1, unsigned long s0, unsigned long s1);
}
template <class V> void nlv_out(const char* n, const V& v)
{
  nlv_out_view(n, v.data(), v.extent(0), v.extent(1), v.stride(0), v.stride(1), sizeof(typename V::value_type));
}
// matrix ghosts: handles of matrix polynomials
extern "C" {
void nlv_mletter(const void*, unsigned long n0, unsigned long n1, unsigned long ld, const char*, int flags);
int nlv_mop(const char*, unsigned long n, int flags);
int nlv_mget(const void*, unsigned long n0, unsigned long n1, unsigned long ld);
void nlv_mput(const void*, unsigned long n0, unsigned long n1, unsigned long ld, int);
int nlv_mmul(int, int);
int nlv_mH(int);
int nlv_madd(int, int, double re, double im);   // a + c b
int nlv_mscale(int, double re, double im);
int nlv_mident(unsigned long);
int nlv_mdiag(const void*, unsigned long);
void nlv_meq(int, int, const char*);
// results determined by their arguments (contract functions)
void nlv_fun_begin(const char*);
void nlv_fun_m(int);
void nlv_fun_v(const void*, unsigned long);
void nlv_fun_d(double);
double nlv_fun_real();
int nlv_fun_mat(unsigned long n0, unsigned long n1, int);   // Hermitian if all matrix arguments are
int nlv_mleft(int, const char*);        // A of m = L A + (rest), for the input letter L
double nlv_mtr(int);                     // real part of the trace
}
namespace gm {
struct M {
  int h;
  M operator*(M b) const { return {nlv_mmul(h, b.h)}; }
  M operator+(M b) const { return {nlv_madd(h, b.h, 1, 0)}; }
  M operator-(M b) const { return {nlv_madd(h, b.h, -1, 0)}; }
  M operator*(double c) const { return {nlv_mscale(h, c, 0)}; }
  M H() const { return {nlv_mH(h)}; }
};
template <class V> M get(const V& v) { return {nlv_mget(v.data(), v.extent(0), v.extent(1), v.stride(1))}; }
template <class V> void put(const V& v, M m) { nlv_mput(v.data(), v.extent(0), v.extent(1), v.stride(1), m.h); }
template <class V> void letter(const V& v, const char* n, int fl = 0) { nlv_mletter(v.data(), v.extent(0), v.extent(1), v.stride(1), n, fl); }
template <class V> M diag(const V& v) { return {nlv_mdiag(v.data(), v.extent(0))}; }
inline M one(unsigned long n) { return {nlv_mident(n)}; }
inline void eq(M a, M b, const char* n) { nlv_meq(a.h, b.h, n); }
}
