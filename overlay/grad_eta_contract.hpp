#pragma once
// contracts of GradEtaHelper::dFdmu, GradEtaHelper::dmu_deta and GradEta::g_eta: functions of their arguments (their bodies are
// proved in C12); g_eta is n x n, and Hermitian when H is.  Everything else of the header is the real text.
#define GradEta GradEta_body
#define GradEtaHelper GradEtaHelper_body
#include "nlv_real/pseudo_hamiltonian/grad_eta.hpp"
#undef GradEta
#undef GradEtaHelper
#include "nlv.hpp"
namespace nlcglib {
template <enum smearing_type smearing_t>
struct GradEtaHelper
{
  template <class array1_t, class array2_t, class array3_t, class array4_t>
  static double dFdmu(const mvector<array1_t>& Hii, const mvector<array2_t>& en, const mvector<array3_t>& fn, const mvector<array4_t>& wk, double mu, double T, double mo)
  {
    nlv_fun_begin("dFdmu");
    for (auto& x : Hii) { auto k = x.first; nlv_fun_d(k.first); nlv_fun_d(k.second); nlv_fun_v(x.second.data(), x.second.size()); nlv_fun_v(en[k].data(), en[k].size()); nlv_fun_v(fn[k].data(), fn[k].size()); nlv_fun_d(wk[k]); }
    nlv_fun_d(mu); nlv_fun_d(T); nlv_fun_d(mo); nlv_fun_d((int)smearing_t);
    return nlv_fun_real();
  }
  template <class array1_t>
  static double dmu_deta(const mvector<array1_t>& en, const mvector<double>& wk, double mu, double T, double mo)
  {
    nlv_fun_begin("dmu_deta");
    for (auto& x : wk) { auto k = x.first; nlv_fun_d(k.first); nlv_fun_d(k.second); nlv_fun_v(en[k].data(), en[k].size()); nlv_fun_d(x.second); }
    nlv_fun_d(mu); nlv_fun_d(T); nlv_fun_d(mo); nlv_fun_d((int)smearing_t);
    return nlv_fun_real();
  }
};
template <enum smearing_type smearing_t>
class GradEta
{
public:
  GradEta(double T, double kappa) : T(T), kappa(kappa) {}
  template <class matrix_t, class array1_t, class array2_t>
  to_layout_left_t<matrix_t> g_eta(const matrix_t& Hij, double mu, double wk, const array1_t& ek, const array2_t& fn, double dmu_deta, double dFdmu, double mo)
  {
    to_layout_left_t<matrix_t> r(Hij.map());
    nlv_fun_begin("g_eta");
    nlv_fun_m(gm::get(Hij.array()).h);
    nlv_fun_v(ek.data(), ek.size()); nlv_fun_v(fn.data(), fn.size());
    nlv_fun_d(mu); nlv_fun_d(wk); nlv_fun_d(dmu_deta); nlv_fun_d(dFdmu); nlv_fun_d(mo); nlv_fun_d(T); nlv_fun_d((int)smearing_t);
    gm::put(r.array(), {nlv_fun_mat(Hij.array().extent(0), Hij.array().extent(1), 0)});
    return r;
  }
  template <class matrix_t, class vector_t, class vector2_t>
  auto delta_eta(const mvector<matrix_t>& Hij, const mvector<vector_t>& ek, const mvector<vector2_t>& wk) { return tapply_async(_delta_eta(kappa), Hij, ek, wk); }
private:
  double T, kappa;
};
}  // namespace nlcglib
