#include "nlv.hpp"
#include <string>
#include <cmath>
#include <stdexcept>
#include "linesearch/linesearch.hpp"
using namespace nlcglib;
// arbitrary free energy along the curve; one evaluation = one call of G
struct point { double t; };
struct FEm
{
  double F, last_t;
  int n;
  double get_F() const { return F; }
};
struct Gm
{
  FEm& fe;
  bool other = false;   // the path of an earlier search
  std::tuple<double> operator()(double t)
  {
    fe.F = other ? nlv_uf("Fp", t) : nlv_uf("F", t);
    fe.last_t = t;
    fe.n = 1;
    return std::make_tuple(t);
  }
};
// an earlier search with the same object along another path; whatever it left behind in the object stays
static void earlier(line_search& ls)
{
  FEm fe;
  fe.F = nlv_real("Fp0");
  bool restart = nlv_bool("restartp");
  Gm G{fe, true};
  try {
    ls(G, fe, nlv_real("slopep"), restart);
    nlv_cover("earlier search returns");
  } catch (const std::exception&) {
    nlv_cover("earlier search throws");
  }
}
extern "C" void ls_contract(int after)
{
  FEm fe;
  fe.F = nlv_real("F0");
  fe.last_t = nlv_real("tstart");
  fe.n = 0;
  double F0 = fe.F;
  line_search ls;
  ls.t_trial = nlv_real("t_trial");
  double tau = nlv_real("tau");
  ls.tau = tau;
  if (after) earlier(ls);
  double slope = nlv_real("slope");
  bool restart0 = nlv_bool("restart");
  bool restart = restart0;
  Gm G{fe};
  double t;
  try {
    auto r = ls(G, fe, slope, restart);
    t = std::get<0>(r);
  } catch (const SlopeError&) {
    nlv_cover("slope error");
    nlv_assert(slope > 0 && fe.n == 0, "slope error only for a positive slope, before any evaluation");
    return;
  } catch (const DescentError&) {
    nlv_cover("descent error");
    nlv_assert(restart0, "descent error only after a restart had been forced");
    nlv_assert(!(slope > 0), "positive slope raises the slope error");
    nlv_assert(fe.n == 1 && !(nlv_uf("F", fe.last_t) < F0), "descent error only if no lower energy was found");
    return;
  } catch (const std::runtime_error&) {
    nlv_cover("invalid tau");
    nlv_assert(tau >= 1, "invalid-parameter error only for tau >= 1");
    return;
  }
  nlv_cover("returns");
  nlv_assert(!(slope > 0), "positive slope raises the slope error");
  nlv_assert(fe.n == 1, "a returned point has been evaluated");
  nlv_eq(t, fe.last_t, "the returned point is the one evaluated last");
  nlv_eq(fe.F, nlv_uf("F", t), "the energy object holds the energy of the returned point");
  if (restart) {
    nlv_cover("returns to start");
    nlv_assert(t == 0, "a restart is requested only at the starting point");
  } else {
    nlv_cover("accepts");
    nlv_assert(fe.F <= F0, "an accepted point is not above the starting energy (and is a number)");
  }
}
// the accepted quadratic step (arithmetic in the reals)
struct FEq { double F, t, pt, pF; bool second; double get_F() const { return F; } };
struct Gq
{
  FEq& fe;
  std::tuple<double> operator()(double t)
  {
    fe.pt = fe.t; fe.pF = fe.F;
    fe.F = nlv_uf("F", t); fe.t = t;
    return std::make_tuple(t);
  }
};
extern "C" void ls_parabola()
{
  FEq fe;
  double F0 = nlv_real("F0"), slope = nlv_real("slope"), tt = nlv_real("t_trial");
  nlv_assume(tt > 0);
  fe.F = F0; fe.t = fe.pt = 0; fe.pF = F0;
  line_search ls;
  ls.t_trial = tt; ls.tau = nlv_real("tau");
  bool restart = nlv_bool("restart");
  Gq G{fe};
  double t; bool quad;
  try {
    auto r = ls(G, fe, slope, restart);
    t = std::get<0>(r);
    quad = std::get<1>(r).type.size() == 5;   // "qline", not "btsearch"
  } catch (const std::exception&) { return; }
  if (!quad) return;
  nlv_cover("quadratic step");
  double a = (fe.pF - slope * fe.pt - F0) / (fe.pt * fe.pt);
  nlv_eq(t * 2 * a, -slope, "the quadratic step is the minimiser of the parabola through start value, slope and last trial value");
  nlv_assert(!(a < 0), "the fitted curvature is not negative");
}
