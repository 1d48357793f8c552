#include "smearing.hpp"
#define H(S) \
  extern "C" double S##_fn(double x, double mo) { return nlcglib::smearing<nlcglib::smearing_type::S>::fn(x, mo); } \
  extern "C" double S##_delta(double x, double mo) { return nlcglib::smearing<nlcglib::smearing_type::S>::delta(x, mo); } \
  extern "C" double S##_dxdelta(double x, double mo) { return nlcglib::smearing<nlcglib::smearing_type::S>::dxdelta(x, mo); } \
  extern "C" double S##_entropy(double x, double mo) { return nlcglib::smearing<nlcglib::smearing_type::S>::entropy(x, mo); }
H(FERMI_DIRAC)
H(GAUSSIAN_SPLINE)
H(GAUSS)
H(METHFESSEL_PAXTON)
H(COLD)
