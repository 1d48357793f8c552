#pragma once
// contract of newton_minimization_chemical_potential (its body is proved against it by newton_contract):
// throws failed_to_converge, or returns mu with |N(mu) - ne| <= 1e-2
#include <cmath>
#include <stdexcept>
#include <iomanip>
#include "utils/logger.hpp"
#include "nlv.hpp"
namespace nlcglib {
struct failed_to_converge : std::exception
{
};
template <class Nt, class DNt, class D2Nt>
double newton_minimization_chemical_potential(
    Nt&& N, DNt&& dN, D2Nt&& ddN, double mu0, double ne, double tol, int maxstep = 1000)
{
  if (nlv_fresh_bool("newton_fails")) throw failed_to_converge();
  double mu = nlv_fresh("mu_newton");
  nlv_assume(std::abs(N(mu) - ne) <= 1e-2);
  return mu;
}
}  // namespace nlcglib
