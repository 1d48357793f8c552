// bounded native stand-in for C11
#include "nat.hpp"
#include "geodesic.hpp"
static void one_case()
{
  Communicator comm(MPI_COMM_WORLD);
  mvector<mat> X, E, Z, Y;
  Op<OverlapBase> sb;
  double t = R(0, 5) ? U(-3, 3) : 0;
  struct Q { D x, s, z, e, y; };
  std::map<key, Q> all;
  int nk = R(1, 3);
  for (int q = 0; q < nk; ++q) {
    int n = R(1, 5), m = n + R(0, 4);
    key k(q, R(0, 1));
    Q a{rnd(m, n), posdef(m), rnd(m, n), herm(n), herm(n)};
    X[k] = put(a.x); Z[k] = put(a.z); E[k] = put(a.e); Y[k] = put(a.y); sb.m[k] = a.s;
    all[k] = a;
  }
  Overlap S(sb);
  auto r = geodesic(HS(), X, E, Z, Y, S, t);
  auto ek = std::get<0>(r); auto ul = std::get<1>(r); auto xn = std::get<2>(r);
  chk(ek.size() == all.size() && ul.size() == all.size() && xn.size() == all.size(), "a k-point is missing");
  for (auto& it : all) {
    auto k = it.first; auto& a = it.second;
    int n = a.e.size();
    D w = lin(a.x, 1.0, a.z, t), u = get(ul.at(k)), y = get(xn.at(k)), A = lin(a.e, 1.0, a.y, t);
    chk(eq(mul(Hc(u), u), one(n)), "rotation not unitary");
    chk(eq(mul(A, u), mul(u, dg(ek.at(k)))), "energies and rotation do not diagonalise eta + t Z_eta");
    D M = mul(Hc(w), mul(a.s, w));
    // X + t Z nearly rank deficient: skip the ill-conditioned clauses
    D Mi = solve(M, one(n));
    if (nrm(M) * nrm(Mi) > 1e5) continue;
    chk(eq(mul(Hc(y), mul(a.s, y)), one(n), 1e-7), "orbitals not S-orthonormal");
    D F = mul(Mi, mul(Hc(w), mul(a.s, y)));
    chk(eq(mul(w, F), y, 1e-7), "orbitals leave the range of X + t Z");
    // Loewdin: w^-1 y u^H is Hermitian positive definite
    D P = mul(F, Hc(u));
    bool pos = eq(P, Hc(P), 1e-6);
    for (int i = 0; i < n; ++i) pos = pos && P[i][i].real() > 0;
    chk(pos, "orbitals not rotated by the eigenvectors");
    chk(eq(mul(P, mul(M, P)), one(n), 1e-6), "orthonormalisation is not symmetric");
  }
  for (auto& it : all) {
    auto k = it.first; auto& a = it.second;
    chk(eq(get(X[k]), a.x, 1e-15) && eq(get(Z[k]), a.z, 1e-15) && eq(get(E[k]), a.e, 1e-15) && eq(get(Y[k]), a.y, 1e-15), "inputs modified");
    D w = a.x;
    if (a.x.size() == 0) continue;
    auto l = get(loewdin(X[k]));
    D M = mul(Hc(w), w), Mi = solve(M, one(w[0].size()));
    if (nrm(M) * nrm(Mi) > 1e5) continue;
    chk(eq(mul(Hc(l), l), one(w[0].size()), 1e-7), "loewdin without overlap operator");
    chk(eq(mul(w, mul(Mi, mul(Hc(w), l))), l, 1e-7), "loewdin leaves the range");
    auto en = local::advance_eta(t)(E[k], Y[k]);
    auto ul2 = std::get<1>(local::eigvals_and_vectors()(en));
    auto y = get(local::advance_x(t)(X[k], Z[k], ul2));
    D w2 = lin(a.x, 1.0, a.z, t), M2 = mul(Hc(w2), w2), Mi2 = solve(M2, one(w[0].size()));
    if (nrm(M2) * nrm(Mi2) > 1e5) continue;
    chk(eq(mul(Hc(y), y), one(w[0].size()), 1e-7), "step without overlap operator: not orthonormal");
    chk(eq(mul(w2, mul(Mi2, mul(Hc(w2), y))), y, 1e-7), "step without overlap operator: leaves the range");
  }
}
int main(int argc, char** argv) { return nat_main(argc, argv, 200, one_case); }
