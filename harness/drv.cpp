// The real driver and entry points (src/nlcglib.cpp) over the contracts of overlay/drv_contract.hpp.
#include "nlv.hpp"
#include <cstdio>
#include <Kokkos_Core.hpp>
#ifndef KOKKOS_VERSION
#define KOKKOS_VERSION 30400
#endif
#include "nlcglib.cpp"
#include "rt.hpp"
using namespace nlcglib;
struct E_ : EnergyBase {
  void compute() override {}
  int nelectrons() override { return nlv_fresh_int("ne"); }
  int occupancy() override { return 2; }
  double get_total_energy() override { return nlv_fresh("e"); }
  std::map<std::string, double> get_energy_components() override { return {}; }
  std::shared_ptr<MatrixBaseZ> get_hphi(memory_type) override { return nullptr; }
  std::shared_ptr<MatrixBaseZ> get_sphi(memory_type) override { return nullptr; }
  std::shared_ptr<MatrixBaseZ> get_C(memory_type) override { return nullptr; }
  std::shared_ptr<VectorBaseZ> get_fn() override { return nullptr; }
  void set_fn(const std::vector<std::pair<int, int>>&, const std::vector<std::vector<double>>&) override {}
  std::shared_ptr<VectorBaseZ> get_ek() override { return nullptr; }
  std::shared_ptr<VectorBaseZ> get_gkvec_ekin() override { return nullptr; }
  std::shared_ptr<ScalarBaseZ> get_kpoint_weights() override { return nullptr; }
  void set_chemical_potential(double) override {}
  double get_chemical_potential() override { return nlv_fresh("m"); }
  void print_info() const override {}
};
struct S_ : OverlapBase {
  void apply(const key_t&, MatrixBaseZ::buffer_t&, MatrixBaseZ::buffer_t&) const override {}
  std::vector<std::pair<int, int>> get_keys() const override { return {}; }
};
struct P_ : UltrasoftPrecondBase {
  void apply(const key_t&, MatrixBaseZ::buffer_t&, MatrixBaseZ::buffer_t&) const override {}
  std::vector<std::pair<int, int>> get_keys() const override { return {}; }
};
static void ask(EnergyBase& e, OverlapBase& s, UltrasoftPrecondBase& p, int sm)
{
  G.T = nlv_real("T"); G.tol = nlv_real("tol"); G.kappa = nlv_real("kappa"); G.tau = nlv_real("tau");
  G.maxiter = nlv_int("maxiter"); G.restart = nlv_int("restart"); G.smear = sm;
  G.E = &e; G.S = &s; G.P = &p;
  G.wk = Fun("weights").i();
  G.ndir = 0; G.forced = false; G.posconj = 0; G.pending = 0; G.reqrestart = 0; G.nls = 0; G.failed = 0;
}
static nlcg_info call(int entry, EnergyBase& e, OverlapBase& s, UltrasoftPrecondBase& p, int sm)
{
  smearing_type st = (smearing_type)sm;
  if (entry == 0) return nlcg_us_cpu(e, p, s, st, G.T, G.tol, G.kappa, G.tau, G.maxiter, G.restart);
  if (entry == 1) return nlcg_us_device_cpu(e, p, s, st, G.T, G.tol, G.kappa, G.tau, G.maxiter, G.restart);
  if (entry == 2) return nlcg_us_device(e, p, s, st, G.T, G.tol, G.kappa, G.tau, G.maxiter, G.restart);
  if (entry == 3) return nlcg_us_cpu_device(e, p, s, st, G.T, G.tol, G.kappa, G.tau, G.maxiter, G.restart);
  if (entry == 4) return nlcg_mvp2_cpu(e, st, G.T, G.tol, G.kappa, G.tau, G.maxiter, G.restart);
  if (entry == 5) return nlcg_mvp2_device(e, st, G.T, G.tol, G.kappa, G.tau, G.maxiter, G.restart);
  if (entry == 6) return nlcg_mvp2_cpu_device(e, st, G.T, G.tol, G.kappa, G.tau, G.maxiter, G.restart);
  return nlcg_mvp2_device_cpu(e, st, G.T, G.tol, G.kappa, G.tau, G.maxiter, G.restart);
}
extern "C" void drv(int entry, int sm)
{
  E_ e; S_ s; P_ p;
  ask(e, s, p, sm);
  nlcg_info info;
  try {
    info = call(entry, e, s, p, sm);
  } catch (const std::exception&) {
    nlv_cover("refused");
    nlv_assert(G.T == 0 || G.restart == 0 || G.failed == 2, "C20: a valid request is not refused");
    return;
  }
  nlv_assert(!(G.T == 0), "C20: a zero temperature is refused");
  nlv_assert(G.restart != 0, "C20: a zero restart period is refused");
  nlv_assert(G.ndir != 0, "C08: the report describes an evaluated point");
  if (info.converged) {
    nlv_cover("converged");
    nlv_assert(G.failed == 0, "C08: a failed run is not reported as converged");
    nlv_assert(std::abs(G.slope) < G.tol, "C08: convergence is reported only if the slope is below the tolerance");
    nlv_assert(G.pending == 0, "C08: convergence is judged by the slope at the current point");
    nlv_eq(info.tolerance, G.slope, "C08: the reported residual is the slope at the current point");
    nlv_eq(info.F, G.accF, "C08: the reported free energy is that of the current point");
    nlv_eq(info.S, G.accS, "C08: the reported entropy is that of the current point");
    nlv_assert(info.iter == G.nls, "C08: the reported iteration number is the number of iterations performed");
  } else {
    nlv_cover("not converged");
    nlv_assert(G.failed == 1 || G.nls >= G.maxiter, "C08: a run ends without convergence only on failure or at the iteration limit");
    nlv_eq(info.tolerance, G.rslope, "C08: the residual reported without convergence is the slope at the reported point");
    nlv_eq(info.F, G.rF, "C08: the free energy reported without convergence is that of the reported point");
    nlv_eq(info.S, G.rS, "C08: the entropy reported without convergence is that of the reported point");
    nlv_assert(info.iter == G.riter, "C08: the iteration reported without convergence is that of the reported point");
    if (G.failed == 1) nlv_cover("failure reported");
    else if (G.nls > 0) nlv_cover("iteration limit");
  }
}
// values that are no smearing type; entry points without implementation
extern "C" void refuse(int entry)
{
  E_ e; S_ s; P_ p;
  int sm = nlv_int("smearing");
  if (entry < 2) nlv_assume(sm < 0 || sm > 4);
  ask(e, s, p, sm);
  bool thrown = false;
  try {
    call(entry, e, s, p, sm);
  } catch (const std::exception&) { thrown = true; }
  nlv_cover("refused");
  nlv_assert(thrown, "C20: a request that cannot be served is refused with an exception");
}
