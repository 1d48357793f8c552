// Contracts of the components the driver (src/nlcglib.cpp) composes.
// Distributed matrices and vectors are tokens: a value identifier, or an alias of a host buffer whose content the
// host changes.  Every component result is determined by its arguments; preconditions are the named assertions.
#ifndef NLV_DRV_CONTRACT
#define NLV_DRV_CONTRACT
#include "nlv.hpp"
#include <Kokkos_Core.hpp>
#include <cmath>
#include <map>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>
#include "interface.hpp"
#include "exceptions.hpp"
#include "traits.hpp"
#include "mpi/communicator.hpp"
extern "C" {
void nlv_fun_i(long);
long nlv_fun_int();
void nlv_limit(const char*);
}
namespace nlcglib {
// ---- tokens
struct Host { long X, HX; };
inline Host g_host;
struct Tok
{
  int loc;    // 0: own value, 1: alias of the host orbitals, 2: alias of the host H|X>
  long v;
  long read() const { return loc == 0 ? v : (loc == 1 ? g_host.X : g_host.HX); }
};
inline Tok own(long v) { Tok t; t.loc = 0; t.v = v; return t; }
inline Tok alias(int l) { Tok t; t.loc = l; t.v = 0; return t; }
struct Fun
{
  Fun(const char* n) { nlv_fun_begin(n); }
  Fun& operator()(long v) { nlv_fun_i(v); return *this; }
  Fun& operator()(double v) { nlv_fun_d(v); return *this; }
  long i() { return nlv_fun_int(); }
  double d() { return nlv_fun_real(); }
};
template <class T> struct mvector
{
  T t;
  Communicator commk() const { return Communicator(); }
  mvector allgather(const Communicator&) const { return *this; }
  template <class... A> mvector allgather(const A&...) const { return *this; }
};
template <class T> long rd(const mvector<T>& m) { return m.t.read(); }
template <class T> mvector<T> mv(T t) { mvector<T> m; m.t = t; return m; }
template <class T> T&& eval_threaded(T&& t) { return std::forward<T>(t); }
template <class T> mvector<T> eval_threaded(mvector<T>& t) { return t; }
template <class T> mvector<T> eval_threaded(mvector<T>&& t) { return t; }
template <class T> T eval(const T& t) { return t; }
template <class T> void execute(const T&) {}
template <class F, class T> auto tapply(F&& f, const mvector<T>& a) { Tok x = a.t; return mv(f(x)); }
template <class F, class T, class... R> auto tapply(F&& f, const mvector<T>& a, const R&... r) { nlv_limit("tapply"); return mv(Tok(a.t)); }
template <class F, class... R> auto tapply_async(F&& f, const R&... r) { return tapply(f, r...); }
template <class O, class T> auto tapply_op(const O& o, const mvector<T>& a) { nlv_limit("tapply_op"); return mv(Tok(a.t)); }
inline Tok copy(const Tok& t) { return own(t.read()); }
inline mvector<Tok> copy(const mvector<Tok>& m) { return mv(own(m.t.read())); }
struct empty_like { Tok operator()(const Tok&) { return own(Fun("uninitialised storage").i()); } };
inline void add(Tok&, const Tok&, double = 1, double = 1) { nlv_limit("add in the driver"); }
inline double l2norm(const mvector<Tok>& m) { return Fun("l2norm")(rd(m)).d(); }
inline double innerh_reduce(const mvector<Tok>& a, const mvector<Tok>& b) { return Fun("innerh")(rd(a))(rd(b)).d(); }
struct make_diag { Tok operator()(const Tok& e) { return own(Fun("diag")(e.read()).i()); } };
// ---- ghost state
struct Pt { long X, fn, ek; double mu; };
struct Ghost
{
  // what the entry point was asked for
  double T, tol, kappa, tau;
  int maxiter, restart, smear;
  const void *S, *P, *E;
  long wk;
  // last evaluated point and its rotation, accepted point
  Pt ev, acc;
  long ev_ul, acc_ul, acc_eta;
  double accF, accS;
  // pending geodesic result
  long ge, gul, gX;
  // last direction
  int ndir;              // 0 none, 1 steepest descent, 2 conjugate
  long zx, ze;
  double slope, fr;
  bool forced;           // the direction is a restart forced by a failed line search or a positive conjugate slope
  int posconj;           // the conjugate slope was positive and has not been replaced
  int pending;           // a line search returned and no direction has been computed since
  int reqrestart;        // the last line search asked for a restart
  // line searches begun, how the last one ended
  int nls, failed;
  // the report that belongs to the point at which the last line search began (or the starting point)
  double rF, rS, rslope;
  int riter;
};
inline Ghost G;
inline double F_of(const Pt& p) { return Fun("F")(p.X)(p.fn)(p.ek)(p.mu).d(); }
inline double S_of(const Pt& p) { return Fun("S")(p.X)(p.fn)(p.ek)(p.mu).d(); }
inline long HX_of(const Pt& p) { return Fun("HX")(p.X)(p.fn).i(); }
inline long fn_of(long ek) { return Fun("fn")(ek).i(); }
inline double mu_of(long ek) { return Fun("mu")(ek).d(); }
// ---- operators
struct Overlap { const void* p; Overlap(const OverlapBase& b) : p(&b) {} Tok operator()(const Tok& t) const { return t; } };
struct USPreconditioner { const void* p; USPreconditioner(const UltrasoftPrecondBase& b) : p(&b) {} };
// ---- smearing: C01-C05
struct Smearing
{
  template <class X> auto fn(const mvector<X>& ek) { return std::make_tuple(mu_of(rd(ek)), mv(own(fn_of(rd(ek))))); }
};
// ---- free energy: C06, C15
class FreeEnergy
{
  EnergyBase& e;
  double F, S;
  long fn_;
  double mu_;
  Smearing sm;
public:
  FreeEnergy(double T, EnergyBase& e, smearing_type s) : e(e), F(nlv_fresh("F0")), S(nlv_fresh("S0")), fn_(Fun("host occupations").i()), mu_(nlv_fresh("mu0"))
  {
    if (G.nls >= 0) {
      nlv_eq(T, G.T, "C20: the free energy uses the requested temperature");
      nlv_assert((int)s == G.smear, "C20: the free energy uses the requested smearing");
      nlv_assert(&e == G.E, "C20: the host of the entry point is used");
      if (T == 0) throw std::runtime_error("T");
    }
    g_host.X = Fun("host orbitals").i();
    g_host.HX = Fun("host H|X>").i();
  }
  bool fresh = false;   // the host has computed: what it reports belongs to its orbitals
  void compute() { g_host.HX = Fun("host H|X> (computed)").i(); fresh = true; }
  template <class X, class Y, class Z> void compute(const mvector<X>& x, const mvector<Y>& fn, const mvector<Z>& ek, double mu)
  {
    Pt p{rd(x), rd(fn), rd(ek), mu};
    nlv_assert(p.fn == fn_of(p.ek), "C19: a point is evaluated with the occupations of its own energies");
    nlv_eq(mu, mu_of(p.ek), "C19: a point is evaluated with the chemical potential of its own energies");
    if (G.nls == 0) {
      nlv_assert(p.X == Fun("host orbitals").i(), "C19: the run starts from the host's orbitals");
      nlv_assert(p.ek == Fun("host band energies (computed)").i(), "C19: the run starts from band energies the host reports after a computation");
    }
    fresh = true;
    if (G.nls > 0 && !G.pending) {
      nlv_assert(p.X == G.gX && p.ek == G.ge, "C19: the evaluated orbitals and energies belong to the same trial step");
      G.ev_ul = G.gul;
    }
    F = F_of(p); S = S_of(p);
    g_host.X = p.X; g_host.HX = HX_of(p);
    fn_ = p.fn; mu_ = mu;
    G.ev = p;
  }
  auto get_X() { return mv(alias(1)); }
  auto get_HX() { return mv(alias(2)); }
  auto get_fn() { return mv(own(fn_)); }
  auto get_ek() { return mv(own(Fun(fresh ? "host band energies (computed)" : "host band energies (not computed)").i())); }
  auto get_wk() { return mv(own(G.wk)); }
  double occupancy() { return e.occupancy(); }
  double ks_energy() { return Fun("E")(G.ev.X)(G.ev.fn).d(); }
  std::map<std::string, double> ks_energy_components() { return std::map<std::string, double>(); }
  double get_F() const { return F; }
  double get_entropy() const { return S; }
  const auto& ehandle() const { return e; }
  Smearing& get_smearing() { return sm; }
  double get_chemical_potential() const { return mu_; }
};
// ---- geodesic: C11
template <class M, class X, class E, class ZX, class ZE, class Op>
auto geodesic(const M&, const X& x, const E& eta, const ZX& zx, const ZE& ze, const Op& S, double t)
{
  nlv_assert(rd(x) == G.acc.X, "C19: a trial step starts from the accepted orbitals");
  nlv_assert(rd(eta) == G.acc_eta, "C19: a trial step starts from the diagonal of the accepted energies");
  nlv_assert(rd(zx) == G.zx && rd(ze) == G.ze, "C19: a trial step follows the last direction");
  nlv_assert(S.p == G.S, "C20: the overlap operator of the entry point is used");
  G.ge = Fun("geo ek")(rd(eta))(rd(ze))(t).i();
  G.gul = Fun("geo ul")(rd(eta))(rd(ze))(t).i();
  G.gX = Fun("geo X")(rd(x))(rd(eta))(rd(zx))(rd(ze))(t).i();
  return std::make_tuple(mv(own(G.ge)), mv(own(G.gul)), mv(own(G.gX)));
}
// ---- line search: C07
struct line_search_info { int type; };
inline void snapshot(int iter) { G.rF = G.accF; G.rS = G.accS; G.rslope = G.slope; G.riter = iter; }
inline void accept()
{
  G.acc = G.ev; G.acc_ul = G.ev_ul; G.accF = F_of(G.acc); G.accS = S_of(G.acc);
  G.acc_eta = Fun("diag")(G.acc.ek).i();
}
class line_search
{
public:
  double t_trial{0.2};
  double tau{0.1};
  template <class GEO, class FE> auto operator()(GEO&& g, FE&& fe, double slope, bool& force_restart)
  {
    nlv_cover("line search");
    nlv_eq(slope, G.slope, "C19: the line search is given the slope of the last direction");
    nlv_eq(tau, G.tau, "C20: the line search uses the requested tau");
    nlv_assert(G.posconj == 0, "C19: a positive conjugate slope is replaced by a restart");
    nlv_assert(G.pending == 0 && G.ndir != 0, "C19: a direction is computed after every accepted point");
    nlv_assert(G.ev.X == G.acc.X && G.ev.ek == G.acc.ek, "C19: the line search starts from the accepted point");
    nlv_eq(fe.get_F(), G.accF, "C19: the line search starts from the energy of the accepted point");
    nlv_assert(!(std::abs(G.slope) < G.tol), "C08: no iteration is performed once the slope is below the tolerance");
    nlv_assert(G.nls < G.maxiter, "C08: at most the requested number of iterations");
    snapshot(G.nls);
    G.nls = G.nls + 1;
    if (slope > 0) { G.failed = 1; nlv_cover("slope error"); throw SlopeError(); }
    bool asked = force_restart;
    g(nlv_fresh("t_trial"));
    if (nlv_fresh_bool("no lower energy")) {
      nlv_assert(asked == G.forced, "C08: a search without success asks for a restart, and ends the run if the restart was already forced");
      if (tau >= 1) { nlv_cover("invalid tau"); G.failed = 2; throw std::runtime_error("invalid value"); }
      if (asked) { G.failed = 1; nlv_cover("descent error"); throw DescentError(); }
      force_restart = true;
      G.reqrestart = 1;
    } else {
      force_restart = false;
      G.reqrestart = 0;
    }
    auto r = g(nlv_fresh("t_accepted"));
    nlv_assert(rd(std::get<0>(r)) == G.ev.ek && rd(std::get<1>(r)) == G.ev_ul && rd(std::get<2>(r)) == G.ev.X, "C19: the curve returns the point it evaluated");
    nlv_eq(std::get<3>(r), G.ev.mu, "C19: the curve returns the chemical potential of the point it evaluated");
    accept();
    G.pending = 1;
    return std::tuple_cat(r, std::make_tuple(line_search_info{0}));
  }
};
// ---- directions: C09, C10, C18
template <enum smearing_type SM> class descent_direction
{
  double T, kappa;
  template <class X, class E, class N, class H, class W, class Op, class Pr>
  void at_point(const X& x, const E& ek, const N& fn, const H& hx, const W& wk, double mu, const Op& S, const Pr& P)
  {
    if (G.ndir == 0) { G.ev_ul = Fun("no rotation").i(); accept(); }
    nlv_assert(rd(x) == G.acc.X, "C19: directions are computed from the accepted orbitals");
    nlv_assert(rd(ek) == G.acc.ek, "C19: directions are computed from the accepted energies");
    nlv_assert(rd(fn) == G.acc.fn, "C19: directions use the occupations of the accepted point");
    nlv_assert(rd(hx) == HX_of(G.acc), "C19: directions use H|X> of the accepted point");
    nlv_assert(rd(wk) == G.wk, "C19: directions use the weights of the host");
    nlv_eq(mu, G.acc.mu, "C19: directions use the chemical potential of the accepted point");
    nlv_assert(S.p == G.S && P.p == G.P, "C20: the operators of the entry point are used");
    nlv_eq(T, G.T, "C20: the directions use the requested temperature");
    nlv_eq(kappa, G.kappa, "C20: the directions use the requested kappa");
    nlv_assert((int)SM == G.smear, "C20: the directions use the requested smearing");
  }
  bool due() const { return (G.nls - 1) % G.restart == 0; }
public:
  descent_direction(double T, double kappa) : T(T), kappa(kappa) {}
  template <class M, class X, class E, class N, class H, class W, class Op, class Pr, class FE>
  auto restarted(const M&, const X& x, const E& ek, const N& fn, const H& hx, const W& wk, double mu, Op&& S, Pr&& P, FE&& fe)
  {
    int d0 = G.ndir;
    at_point(x, ek, fn, hx, wk, mu, S, P);
    if (d0 == 0) nlv_assert(G.nls == 0, "C19: the first direction precedes the first line search");
    else {
      nlv_assert(G.pending == 1 || G.posconj == 1, "C19: one direction per accepted point");
      if (!G.posconj) {
        bool d = due();
        nlv_assert(d || G.reqrestart, "C19: a steepest-descent step needs a reason");
      }
    }
    long a = Fun("sd")(G.acc.X)(G.acc.fn)(G.acc.ek)(rd(hx))(mu)(T)(kappa).i();
    G.slope = nlv_fresh("sd slope"); G.fr = G.slope;
    G.zx = Fun("sd z_x")(a).i(); G.ze = Fun("sd z_eta")(a).i();
    G.forced = d0 != 0 && (G.posconj || G.reqrestart);
    G.ndir = 1; G.posconj = 0; G.pending = 0;
    if (d0 == 0) snapshot(0);
    return std::make_tuple(G.slope, mv(own(G.zx)), mv(own(G.ze)));
  }
  template <class M, class X, class E, class N, class H, class A, class B, class U, class W, class Op, class Pr, class FE>
  auto conjugated(const M&, double fr_old, const X& x, const E& ek, const N& fn, const H& hx, const A& zx, const B& ze, const U& ul, const W& wk, double mu, Op&& S, Pr&& P, FE&& fe)
  {
    nlv_cover("conjugate direction");
    nlv_assert(G.ndir != 0 && G.pending == 1, "C19: one direction per accepted point");
    at_point(x, ek, fn, hx, wk, mu, S, P);
    nlv_eq(fr_old, G.fr, "C19: conjugation uses the Fletcher-Reeves numerator of the previous direction");
    nlv_assert(rd(zx) == G.zx && rd(ze) == G.ze, "C19: conjugation uses the previous direction");
    nlv_assert(rd(ul) == G.acc_ul, "C19: conjugation uses the rotation of the accepted point");
    bool d = due();
    nlv_assert(!d, "C19: a restart is made when the restart period is due");
    nlv_assert(!G.reqrestart, "C19: a restart is made when the line search asked for it");
    long a = Fun("cg")(G.acc.X)(G.acc.fn)(G.acc.ek)(rd(hx))(mu)(T)(kappa)(rd(zx))(rd(ze))(rd(ul))(fr_old).i();
    G.fr = nlv_fresh("fr"); G.slope = nlv_fresh("cg slope");
    G.zx = Fun("cg z_x")(a).i(); G.ze = Fun("cg z_eta")(a).i();
    G.ndir = 2; G.pending = 0; G.forced = false;
    if (G.slope > 0) { nlv_cover("positive conjugate slope"); G.posconj = 1; } else G.posconj = 0;
    return std::make_tuple(G.fr, G.slope, mv(own(G.zx)), mv(own(G.ze)));
  }
};
}  // namespace nlcglib
namespace Kokkos {
template <class S> nlcglib::Tok create_mirror_view_and_copy(const S&, const nlcglib::Tok& t) { return t; }
}
#endif
