// Contract model of Kokkos::complex (textbook complex arithmetic over the component type).
#pragma once
#include <complex>
#include <cmath>
#include <iosfwd>
namespace Kokkos {
template <class T>
class alignas(2 * sizeof(T)) complex {
public:
  using value_type = T;
  complex() = default;
  complex(const complex&) = default;
  complex& operator=(const complex&) = default;
  template <class A> complex(const complex<A>& o) : re(o.real()), im(o.imag()) {}
  complex(const std::complex<T>& o) : re(o.real()), im(o.imag()) {}
  complex(const T& r) : re(r), im(T(0)) {}
  template <class A, class B> complex(const A& r, const B& i) : re(r), im(i) {}
  operator std::complex<T>() const { return std::complex<T>(re, im); }
  complex& operator=(const T& v) { re = v; im = T(0); return *this; }
  complex& operator=(const std::complex<T>& v) { re = v.real(); im = v.imag(); return *this; }
  T& real() { return re; }
  T& imag() { return im; }
  T real() const { return re; }
  T imag() const { return im; }
  void real(T v) { re = v; }
  void imag(T v) { im = v; }
  complex& operator+=(const complex& o) { re += o.re; im += o.im; return *this; }
  complex& operator-=(const complex& o) { re -= o.re; im -= o.im; return *this; }
  complex& operator*=(const complex& o) { T r = re * o.re - im * o.im; T i = re * o.im + im * o.re; re = r; im = i; return *this; }
  complex& operator/=(const complex& o) { T d = o.re * o.re + o.im * o.im; T r = (re * o.re + im * o.im) / d; T i = (im * o.re - re * o.im) / d; re = r; im = i; return *this; }
  complex& operator+=(const T& o) { re += o; return *this; }
  complex& operator-=(const T& o) { re -= o; return *this; }
  complex& operator*=(const T& o) { re *= o; im *= o; return *this; }
  complex& operator/=(const T& o) { re /= o; im /= o; return *this; }
private:
  T re{};
  T im{};
};
template <class A, class B> using nlv_ct = std::common_type_t<A, B>;
template <class A, class B> auto operator+(const complex<A>& x, const complex<B>& y) { return complex<nlv_ct<A, B>>(x.real() + y.real(), x.imag() + y.imag()); }
template <class A, class B> auto operator-(const complex<A>& x, const complex<B>& y) { return complex<nlv_ct<A, B>>(x.real() - y.real(), x.imag() - y.imag()); }
template <class A, class B> auto operator*(const complex<A>& x, const complex<B>& y) { return complex<nlv_ct<A, B>>(x.real() * y.real() - x.imag() * y.imag(), x.real() * y.imag() + x.imag() * y.real()); }
template <class A, class B> auto operator/(const complex<A>& x, const complex<B>& y) { complex<nlv_ct<A, B>> r(x); r /= y; return r; }
#define NLV_SC(B) std::enable_if_t<std::is_arithmetic<B>::value, int> = 0
template <class A, class B, NLV_SC(B)> auto operator+(const complex<A>& x, const B& y) { return complex<nlv_ct<A, B>>(x.real() + y, x.imag()); }
template <class A, class B, NLV_SC(B)> auto operator+(const B& y, const complex<A>& x) { return complex<nlv_ct<A, B>>(x.real() + y, x.imag()); }
template <class A, class B, NLV_SC(B)> auto operator-(const complex<A>& x, const B& y) { return complex<nlv_ct<A, B>>(x.real() - y, x.imag()); }
template <class A, class B, NLV_SC(B)> auto operator-(const B& y, const complex<A>& x) { return complex<nlv_ct<A, B>>(y - x.real(), -x.imag()); }
template <class A, class B, NLV_SC(B)> auto operator*(const complex<A>& x, const B& y) { return complex<nlv_ct<A, B>>(x.real() * y, x.imag() * y); }
template <class A, class B, NLV_SC(B)> auto operator*(const B& y, const complex<A>& x) { return complex<nlv_ct<A, B>>(x.real() * y, x.imag() * y); }
template <class A, class B, NLV_SC(B)> auto operator/(const complex<A>& x, const B& y) { return complex<nlv_ct<A, B>>(x.real() / y, x.imag() / y); }
template <class A, class B> auto operator*(const std::complex<A>& x, const complex<B>& y) { return complex<A>(x) * y; }
template <class A> complex<A> operator-(const complex<A>& x) { return complex<A>(-x.real(), -x.imag()); }
template <class A> complex<A> operator+(const complex<A>& x) { return x; }
template <class A, class B> bool operator==(const complex<A>& x, const complex<B>& y) { return x.real() == y.real() && x.imag() == y.imag(); }
template <class A, class B> bool operator!=(const complex<A>& x, const complex<B>& y) { return !(x == y); }
template <class A, class B, NLV_SC(B)> bool operator==(const complex<A>& x, const B& y) { return x.real() == y && x.imag() == 0; }
template <class A, class B, NLV_SC(B)> bool operator!=(const complex<A>& x, const B& y) { return !(x == y); }
template <class A> complex<A> conj(const complex<A>& x) { return complex<A>(x.real(), -x.imag()); }
template <class A> A real(const complex<A>& x) { return x.real(); }
template <class A> A imag(const complex<A>& x) { return x.imag(); }
template <class A> A abs(const complex<A>& x) { return std::sqrt(x.real() * x.real() + x.imag() * x.imag()); }
template <class A> std::ostream& operator<<(std::ostream& o, const complex<A>&) { return o; }
}  // namespace Kokkos
