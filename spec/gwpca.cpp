#include "gwr_common.h"
#include "gwmodelpp/GWPCA.h"

namespace claims_gwpca
{
// at location i: singular value decomposition of sqrt(w_i) % (x - weighted mean)
struct Local { mat V; vec d; double sw; };
static Local local(const mat& x, const vec& w)
{
    double s = accu(w);
    mat z(x.n_rows, x.n_cols);
    for (uword j = 0; j < x.n_cols; j++)
    {
        double m = dot(w, x.col(j)) / s;
        for (uword i = 0; i < x.n_rows; i++) z(i, j) = sqrt(w(i)) * (x(i, j) - m);
    }
    Local r; mat U; r.sw = s;
    svd(U, r.d, r.V, z);
    return r;
}
static void components(int comps)
{
    uword n = int_("n"), k = int_("k");
    mat x = mat_("x", n, k), u = mat_("u", n, 2);
    SpatialWeight sw = Ref::user_sw(), rw = Ref::located(sw, u, u);
    GWPCA a; a.setCoords(u); a.setVariables(x); a.setSpatialWeight(sw); a.setKeepComponents(comps);
    a.run();
    mat dev(n, k), pv(n, comps);
    cube load(n, k, comps);
    for (uword i = 0; i < n; i++)
    {
        Local l = local(x, rw.weightVector(i));
        double total = 0;
        for (uword j = 0; j < k; j++) total += l.d(j) * l.d(j);
        for (uword j = 0; j < k; j++) dev(i, j) = sqrt(l.d(j) * l.d(j) / l.sw);
        for (int c = 0; c < comps; c++)
        {
            pv(i, c) = 100 * l.d(c) * l.d(c) / total;
            for (uword j = 0; j < k; j++) load(i, j, c) = l.V(j, c);
        }
    }
    for (int c = 0; c < comps; c++) same("loadings", a.loadings().slice(c), load.slice(c));
    same("standard deviations", a.sdev(), dev);
    same("percentage of variance", a.localPV(), pv);
    uvec best(n);
    for (uword i = 0; i < n; i++) best(i) = index_max(load.slice(0).row(i));
    same("winning variable", a.mWinner, best);
    same("variables", a.variables(), x);
}
void claim_components_1() { components(1); }
void claim_components_2() { components(2); }
void claim_components_3() { components(3); }
void claim_components_again()
{
    uword n = int_("n"), k = int_("k");
    mat x = mat_("x", n, k), u = mat_("u", n, 2);
    SpatialWeight sw = Ref::user_sw();
    GWPCA a; a.setCoords(u); a.setVariables(x); a.setSpatialWeight(sw); a.setKeepComponents(2);
    a.run();
    mat dev = a.sdev(), pv = a.localPV(); cube l = a.loadings();
    a.run();
    same("standard deviations again", a.sdev(), dev);
    same("percentage of variance again", a.localPV(), pv);
    same("loadings again", a.loadings(), l);
}
}
