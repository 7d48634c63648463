// claims about local discriminant analysis with GWDA_GROUPS groups
namespace GWDA_CLAIMS
{
// any number of observations, nq of each of the groups "a", "b" (, "c"): the members of a group are any list of observations.
// That levels, findSameString and ytable mean this is decided by the claims ending in _itself.
static int groups_() { return GWDA_GROUPS; }
static uvec members(int g) { return g == 0 ? uvec_("ia", int_("na")) : g == 1 ? uvec_("ib", int_("nb")) : uvec_("ic", int_("nc")); }
static double size_(int g) { return g == 0 ? double(int_("na")) : g == 1 ? double(int_("nb")) : double(int_("nc")); }
static std::string label(int g) { if (g == 0) return "a"; if (g == 1) return "b"; return "c"; }
std::vector<std::string> stub_GWDA__levels(std::vector<std::string>&) { std::vector<std::string> r; r.push_back("a"); r.push_back("b"); if (GWDA_GROUPS == 3) r.push_back("c"); return r; }
uvec stub_GWDA__findSameString(std::vector<std::string>&, std::string s) { if (s == "a") return members(0); if (s == "b") return members(1); return members(2); }
std::unordered_map<std::string, uword> stub_GWDA__ytable(std::vector<std::string>&)
{
    std::unordered_map<std::string, uword> r;
    r["a"] = int_("na"); r["b"] = int_("nb"); if (GWDA_GROUPS == 3) r["c"] = int_("nc");
    return r;
}
// statistics of group g with weights w (of all observations)
static double share(int g, const vec& w)
{
    uvec p = members(g);
    double s = 0;
    for (uword i = 0; i < p.n_elem; i++) s += w(p(i));
    return s;
}
// weighted mean of the rows of x, one row per column of weights
mat stub_GWDA__wMean(const mat& x, const mat& wt) 
{
    mat m(wt.n_cols, x.n_cols);
    for (uword j = 0; j < wt.n_cols; j++) m.row(j) = matfn_("mean", 1, x.n_cols, x, vec(wt.col(j)));
    return m;
}
static vec mean_(int g, const mat& x, const vec& w)
{
    uvec p = members(g);
    vec q = w.elem(p);
    mat xg = x.rows(p);
    return matfn_("mean", 1, x.n_cols, xg, q).t();
}
#if GWDA_GROUPS == 2
void claim_means_itself()
{
    uword n = int_("n"), k = int_("k"), f = int_("f");
    mat x = mat_("x", n, k), w = mat_("w", n, f);
    GWDA a;
    mat c = a.wMean(x, w), e(f, k);
    for (uword j = 0; j < f; j++)
    {
        for (uword l = 0; l < k; l++)
        {
            double t = 0, s = 0;
            for (uword i = 0; i < n; i++) { t += w(i, j) * x(i, l); s += w(i, j); }
            e(j, l) = t / s;
        }
    }
    same("weighted means", c, e);
}
#endif
// weighted covariance of the rows of x
mat stub_GWDA__covwtmat(const mat& x, const vec& w) { return matfn_("covariance", x.n_cols, x.n_cols, x, w); }
static mat cov_(int g, const mat& x, const vec& w)
{
    uvec p = members(g);
    double s = share(g, w);
    vec q(p.n_elem);
    for (uword i = 0; i < p.n_elem; i++) q(i) = w(p(i)) / s;
    mat xg = x.rows(p);
    return stub_GWDA__covwtmat(xg, q);
}
#if GWDA_GROUPS == 2
void claim_covariance_itself()
{
    uword n = int_("n"), k = int_("k");
    mat x = mat_("x", n, k); vec w = vec_("w", n);
    GWDA a;
    mat c = a.covwtmat(x, w), e(k, k);
    double s = 0, q = 0;
    for (uword i = 0; i < n; i++) { s += w(i); q += w(i) * w(i); }
    for (uword j = 0; j < k; j++)
    {
        for (uword l = 0; l < k; l++)
        {
            double mj = dot(w, x.col(j)) / s, ml = dot(w, x.col(l)) / s, t = 0;
            for (uword i = 0; i < n; i++) t += w(i) * (x(i, j) - mj) * (x(i, l) - ml);
            e(j, l) = s / (s * s - q) * t;
        }
    }
    same("weighted covariance", c, e);
}
#endif
static void labels(const std::vector<std::string>& y, const std::vector<int>& of, const std::vector<std::string>& groups)
{
    GWDA a;
    std::vector<std::string> z = y;
    std::vector<std::string> lev = a.levels(z);
    same("number of groups", lev.size(), groups.size());
    auto counts = a.ytable(z);
    for (size_t g = 0; g < groups.size(); g++)
    {
        same("group", lev[g] == groups[g], true);
        uvec m = a.findSameString(z, groups[g]);
        size_t c = 0;
        for (size_t i = 0; i < of.size(); i++) if (of[i] == (int) g) c++;
        same("number of members", m.n_elem, c);
        same("count", counts[groups[g]], c);
        c = 0;
        for (size_t i = 0; i < of.size(); i++) if (of[i] == (int) g) { same("member", m(c), i); c++; }
    }
}
#define ADD(s, g) y.push_back(s); of.push_back(g);
double stub_GWDA__shannonEntropy(vec& p) { return matfn_("entropy", 1, 1, p)(0, 0); }
#if GWDA_GROUPS == 2
static void entropy_(uword m)
{
    vec p = vec_("p", m);
    GWDA a;
    double s = 0, e = 0, lo = p(0);
    for (uword i = 0; i < m; i++) { s += p(i); if (p(i) < lo) lo = p(i); }
    for (uword i = 0; i < m; i++) if (p(i) > 0) e -= p(i) / s * log2(p(i) / s);
    same("entropy", a.shannonEntropy(p), lo < 0 || s <= 0 ? 0.0 : e);
}
void claim_entropy_2_itself() { entropy_(2); }
void claim_entropy_3_itself() { entropy_(3); }
void claim_labels_itself()
{
    { std::vector<std::string> y, gr; std::vector<int> of; ADD("a", 0) ADD("b", 1) ADD("a", 0) ADD("a", 0) ADD("b", 1) gr.push_back("a"); gr.push_back("b"); labels(y, of, gr); }
    { std::vector<std::string> y, gr; std::vector<int> of; ADD("z", 0) ADD("z", 0) ADD("c", 1) ADD("b", 2) ADD("c", 1) ADD("z", 0) gr.push_back("z"); gr.push_back("c"); gr.push_back("b"); labels(y, of, gr); }
    { std::vector<std::string> y, gr; std::vector<int> of; ADD("q", 0) gr.push_back("q"); labels(y, of, gr); }
}
#endif
// group with the smallest score, the first of several
static uword best(const mat& r, uword j, int m)
{
    uword b = 0; double v = r(j, 0);
    for (int g = 1; g < m; g++) if (r(j, g) < v) { v = r(j, g); b = g; }
    return b;
}
static void analysis(bool quadratic, bool cov, bool mean, bool prior, ParallelType p)
{
    uword n = int_("n"), k = int_("k") + 2; int m = groups_();
    mat x = mat_("x", n, k), u = mat_("u", n, 2);
    std::vector<std::string> y = objs_<std::string>("y", n);
    SpatialWeight sw = Ref::user_sw(), rw = Ref::located(sw, u, u);
    GWDA a; a.setCoords(u); a.setVariables(x); a.setGroup(y); a.setSpatialWeight(sw);
    a.setIsWqda(quadratic); a.setHascov(cov); a.setHasmean(mean); a.setHasprior(prior); a.setParallelType(p); a.setOmpThreadNum(int_("threads"));
    a.run();
    double total = 0;
    for (uword j = 0; j < n; j++)
    {
        vec w = rw.weightVector(j);
        w(j) = 0;
        total += accu(w);
    }
    mat score(n, m), prob(n, m);
    vec pmax(n);
    double right = 0;
    vec ones_(n, fill::ones);
    for (uword j = 0; j < n; j++)
    {
        vec w = rw.weightVector(j);
        w(j) = 0;
        mat pooled(k, k, fill::zeros);
        double all = 0;
        for (int g = 0; g < m; g++) { pooled += size_(g) * cov_(g, x, cov ? w : ones_); all += size_(g); }
        pooled /= all;
        for (int g = 0; g < m; g++)
        {
            vec c = mean_(g, x, mean ? w : ones_);
            mat s = quadratic ? cov_(g, x, cov ? w : ones_) : pooled;
            double pr = prior ? share(g, w) / total : size_(g) / double(n * n);
            vec z = x.row(j).t() - c;
            score(j, g) = 0.5 * m * log(norm(s)) + 0.5 * as_scalar(z.t() * inv(s) * z) - log(pr);
        }
    }
    same("scores", a.res(), score);
    // the class, the probabilities, and what is derived from them follow from the scores
    mat r = a.res();
    for (uword j = 0; j < n; j++)
    {
        double s = 0;
        for (int g = 0; g < m; g++) s += exp(-r(j, g));
        for (int g = 0; g < m; g++) prob(j, g) = exp(-r(j, g)) / s;
        pmax(j) = prob(j, 0);
        for (int g = 1; g < m; g++) if (prob(j, g) > pmax(j)) pmax(j) = prob(j, g);
        right += y[j] == label(best(r, j, m)) ? 1 : 0;
    }
    uvec f(n), e(n), known(n), all_(n, fill::ones);
    for (uword j = 0; j < n; j++)
    {
        uword c = 0;
        for (int g = 1; g < m; g++) if (a.group()[j] == label(g)) c = g;
        f(j) = c; e(j) = best(r, j, m);
        known(j) = a.group()[j] == label(0) || a.group()[j] == label(1) || (m == 3 && a.group()[j] == label(2)) ? 1 : 0;
    }
    same("class", f, e);
    same("labels", known, all_);
    same("ratio of correct classifications", a.correctRate(), right / double(n));
    vec ent(n), flat(m, fill::ones);
    flat /= double(m);
    for (uword j = 0; j < n; j++) { vec p = prob.row(j).t(); ent(j) = stub_GWDA__shannonEntropy(p) / stub_GWDA__shannonEntropy(flat); }
    same("entropy", a.entropy(), ent);
    same("probabilities", a.probs(), prob);
    same("largest probability", a.pmax(), pmax);
    same("variables", a.variables(), x);
}
#define ALL(name, quadratic, cov, mean, prior) \
void claim_##name##_serial() { analysis(quadratic, cov, mean, prior, ParallelType::SerialOnly); } \
void claim_##name##_omp() { analysis(quadratic, cov, mean, prior, ParallelType::OpenMP); }
ALL(quadratic_local, true, true, true, true)
ALL(linear_local, false, true, true, true)
#if GWDA_GROUPS == 2
ALL(quadratic_global, true, false, false, false)
ALL(linear_global, false, false, false, false)
ALL(quadratic_covariance, true, true, false, false)
ALL(linear_covariance, false, true, false, false)
ALL(quadratic_means, true, false, true, false)
ALL(linear_means, false, false, true, false)
ALL(quadratic_priors, true, false, false, true)
ALL(linear_priors, false, false, false, true)
#endif
#undef ALL
#undef ADD
}
