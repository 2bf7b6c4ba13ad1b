// C18: from a start close to a regular root both solvers return that root.
#include "problems.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C18";
uint64_t totalCases(bool th) { return th ? 40000 : 1500; }
void setupCheck(Ctx &) {}
typedef std::vector<double> V;
typedef std::vector<V> M;
static bool evalF(const Problem &p, const V &x, V &f) {
    Env e;
    for (size_t i = 0; i < x.size(); ++i) e[p.names[i]] = x[i];
    bool ok = true;
    f.assign(p.eq.size(), 0);
    for (size_t i = 0; i < p.eq.size(); ++i) f[i] = evalAst(p.eq[i], e, ok);
    return ok;
}
static bool evalJ(const Problem &p, const V &x, M &J) {
    Env e;
    for (size_t i = 0; i < x.size(); ++i) e[p.names[i]] = x[i];
    bool ok = true;
    J.assign(p.eq.size(), V(x.size()));
    for (size_t i = 0; i < p.eq.size(); ++i) for (size_t j = 0; j < x.size(); ++j) {
        Jet d = jetAst(p.eq[i], e, p.names[j], 1, ok);
        if (!ok || d.m[0] > 1e3L || d.m[1] > 1e3L) return false;
        J[i][j] = (double)d.c[1];
    }
    return ok;
}
static bool inverse(M a, M &b) {
    int n = (int)a.size();
    b.assign(n, V(n));
    for (int i = 0; i < n; ++i) b[i][i] = 1;
    for (int k = 0; k < n; ++k) {
        int q = k;
        for (int i = k; i < n; ++i) if (std::fabs(a[i][k]) > std::fabs(a[q][k])) q = i;
        if (std::fabs(a[q][k]) < 1e-3) return false;
        std::swap(a[q], a[k]); std::swap(b[q], b[k]);
        double w = a[k][k];
        for (int j = 0; j < n; ++j) { a[k][j] /= w; b[k][j] /= w; }
        for (int i = 0; i < n; ++i) if (i != k) { double t = a[i][k]; for (int j = 0; j < n; ++j) { a[i][j] -= t * a[k][j]; b[i][j] -= t * b[k][j]; } }
    }
    return true;
}
static double norm(const V &v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
static double norm(const M &a) { double m = 0; for (auto &r : a) { double s = 0; for (double x : r) s += std::fabs(x); m = std::max(m, s); } return m; }
static V mul(const M &a, const V &x) { V y(a.size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < x.size(); ++j) y[i] += a[i][j] * x[j]; return y; }
static M mul(const M &a, const M &b) { size_t n = a.size(); M c(n, V(n)); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < n; ++j) c[i][j] += a[i][k] * b[k][j]; return c; }
// local convergence condition at x0 (sampled Lipschitz constant with a safety factor); root: the root it guarantees
static bool kantorovich(const Problem &p, const V &x0, Rng &r, V &root, double &beta) {
    V f;
    M J, B;
    if (!evalF(p, x0, f) || !evalJ(p, x0, J) || !inverse(J, B)) return false;
    beta = norm(B);
    if (beta > 20 || norm(J) > 200) return false;
    double eta = norm(mul(B, f));
    if (eta < 1e-6 || eta > 0.5) return false;
    double R = 3 * eta, K = 0;
    for (int t = 0; t < 12; ++t) {
        V a = x0, b = x0;
        M Ja, Jb;
        for (double &v : a) v += R * r.uniform(-1, 1);
        if (t % 2) b = a;
        for (double &v : b) v += R * r.uniform(-0.7, 0.7);
        V d = a;
        for (size_t i = 0; i < d.size(); ++i) d[i] -= b[i];
        if (!evalJ(p, a, Ja) || !evalJ(p, b, Jb)) return false;
        for (size_t i = 0; i < Ja.size(); ++i) for (size_t j = 0; j < Ja.size(); ++j) Ja[i][j] -= Jb[i][j];
        K = std::max(K, norm(mul(B, Ja)) / std::max(norm(d), 1e-3 * R));
    }
    if (8 * K * eta > 0.4) return false;
    root = x0;
    for (int it = 0; it < 30; ++it) {
        V ff;
        M JJ, BB;
        if (!evalF(p, root, ff) || !evalJ(p, root, JJ) || !inverse(JJ, BB)) return false;
        V s = mul(BB, ff);
        for (size_t i = 0; i < s.size(); ++i) root[i] -= s[i];
        if (norm(s) < 1e-14 * (1 + norm(root))) break;
        if (it == 29) return false;
    }
    V d = root;
    for (size_t i = 0; i < d.size(); ++i) d[i] -= x0[i];
    if (norm(d) > 2 * eta) return false;
    if (!evalF(p, root, f)) return false;
    return norm(f) < 1e-12;
}
static void judge(Ctx &c, const Problem &p, const V &root, double tol, const char *how, const std::function<VarsTable()> &run) {
    c.eval();
    try {
        VarsTable t = run();
        for (size_t i = 0; i < root.size(); ++i) {
            double v = t[p.names[i]];
            if (!(std::fabs(v - root[i]) <= tol)) c.fail("another-point", std::string(how) + ": " + p.names[i] + " = " + num17(v) + ", the root is " + num17(root[i]));
        }
        c.event(how);
    } catch (const std::runtime_error &e) {
        c.fail("no-root", std::string(how) + ": " + e.what());
    }
}
static void local(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    Problem p;
    V x0, root;
    double beta = 0;
    bool common = r.chance(1, 3), found = false; // common: every variable starts at the configured initial value
    double iv = 0;
    for (int t = 0; t < 30 && !found; ++t) {
        p = genProblem(r, r.chance(1, 2) ? 0 : 3, r.chance(1, 30) ? 8 : r.chance(1, 6) ? 5 : 3);
        iv = r.chance(1, 3) ? 1.0 : r.uniform(-3, 3);
        double dist = std::pow(10.0, r.uniform(-4, -0.4));
        x0.clear();
        if (common) { // replant the root near the common start
            bool ok = true;
            for (auto &v : p.names) p.root[v] = iv + dist * r.uniform(-1, 1);
            for (auto &e : p.eq) e = shiftToRoot(e, p.root, ok);
            if (!ok) continue;
        }
        for (auto &v : p.names) { double s = common ? iv : p.root[v] + dist * r.uniform(-1, 1); p.start[v] = s; x0.push_back(s); }
        found = kantorovich(p, x0, r, root, beta);
    }
    if (!found) { c.event("no-suitable-start"); return; }
    std::set<std::string> used;
    for (auto &e : p.eq) varsOf(e, used);
    if (used.size() != p.names.size()) return;
    SymVec f = libEqs(p, r);
    VarsTable t = libTable(p, r);
    c.describe(p.text() + (common ? " initial value " + num17(iv) : ""));
    c.sample(c.caseText);
    c.nontrivial(hashStr(c.caseText));
    double tol = 4 * beta * 1e-9 * root.size() + 1e-10;
    auto &cfg = Config::Get();
    cfg.allowIndeterminateEquation = r.chance(1, 3);
    if (!common || r.chance(1, 2)) cfg.initialValue = r.chance(1, 2) ? 1.0 : r.uniform(-50, 50); // must not matter with a table
    judge(c, p, root, tol, "newton-with-table", [&] { return Solve(f, t); });
    judge(c, p, root, tol, "newton-direct", [&] { return SolveByNewtonRaphson(f, t); });
    cfg.nonlinearMethod = NonlinearMethod::LM;
    judge(c, p, root, tol, "lm-with-table", [&] { return Solve(f, t); });
    judge(c, p, root, tol, "lm-direct", [&] { return SolveByLM(f, t); });
    if (common) {
        cfg.initialValue = iv;
        judge(c, p, root, tol, "lm-initial-value", [&] { return Solve(f); });
        cfg.nonlinearMethod = NonlinearMethod::NEWTON_RAPHSON;
        judge(c, p, root, tol, "newton-initial-value", [&] { return Solve(f); });
    }
}
static void affine(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    int n = r.chance(1, 200) ? r.range(25, 48) : r.chance(1, 60) ? r.range(13, 24) : r.chance(1, 10) ? r.range(6, 12) : r.range(1, 5);
    Problem p;
    M a, B;
    double scale = r.chance(1, 3) ? std::pow(10.0, r.uniform(-0.7, 1)) : 1;
    for (int t = 0;; ++t) {
        a.assign(n, V(n));
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = (n > 24 ? r.chance(n - 4, n) : r.chance(1, 4)) ? 0 : scale * (r.chance(1, 2) ? r.range(-5, 5) : r.uniform(-4, 4));
        if (t > 20) for (int i = 0; i < n; ++i) a[i][i] += scale * 10;
        if (t > 50) return;
        if (inverse(a, B) && norm(B) <= 10 && norm(B) * norm(a) <= 200) break;
    }
    p.names = pickNames(r, n);
    V root;
    double far = r.chance(1, 3) ? 1000 : r.chance(1, 2) ? 50 : 3;
    for (auto &v : p.names) { root.push_back(r.uniform(-20, 20)); p.start[v] = r.uniform(-far, far); }
    double iv = r.uniform(-far, far);
    for (int i = 0; i < n; ++i) {
        A e;
        long double s = 0;
        std::vector<int> ord(n);
        for (int j = 0; j < n; ++j) ord[j] = j;
        for (int j = n - 1; j > 0; --j) std::swap(ord[j], ord[r.below(j + 1)]);
        for (int j : ord) {
            s += (long double)a[i][j] * root[j];
            A t = r.chance(1, 2) ? aBin(MUL, aNum(a[i][j]), aVar(p.names[j])) : aBin(MUL, aVar(p.names[j]), aNum(a[i][j]));
            if (r.chance(1, 6)) t = aBin(DIV, aVar(p.names[j]), aNum(a[i][j] == 0 ? 1 : 1 / a[i][j])), t = a[i][j] == 0 ? aBin(MUL, aNum(0), aVar(p.names[j])) : t;
            e = e ? aBin(ADD, e, t) : t;
        }
        p.eq.push_back(aBin(SUB, e, aNum((double)s)));
    }
    SymVec f = libEqs(p, r);
    VarsTable t = libTable(p, r);
    c.describe(p.text());
    c.nontrivial(hashStr(c.caseText));
    double tol = norm(B) * 1e-8 * n + 1e-9;
    auto &cfg = Config::Get();
    judge(c, p, root, tol, "newton-affine", [&] { return Solve(f, t); });
    cfg.initialValue = iv;
    judge(c, p, root, tol, "newton-affine-initial-value", [&] { return Solve(f); });
    cfg.nonlinearMethod = NonlinearMethod::LM;
    judge(c, p, root, tol, "lm-affine", [&] { return Solve(f, t); });
    judge(c, p, root, tol, "lm-affine-initial-value", [&] { return Solve(f); });
}
// several roots: the start decides which one
static void basins(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    std::string v = pickNames(r, 1)[0];
    int k = r.range(2, 5);
    std::vector<double> roots;
    double pos = r.uniform(-6, 0);
    for (int i = 0; i < k; ++i) { roots.push_back(pos); pos += r.uniform(0.8, 2.5); }
    Problem p;
    A e;
    for (double z : roots) { A t = aBin(SUB, aVar(v), aNum(z)); e = e ? aBin(MUL, e, t) : t; }
    p.eq = {e};
    p.names = {v};
    int w = r.range(0, k - 1);
    double h0 = 0.04, x0 = roots[w] + r.uniform(-h0, h0);
    p.start[v] = x0;
    V root, xs{x0};
    double beta;
    if (!kantorovich(p, xs, r, root, beta)) { c.event("no-suitable-start"); return; }
    c.describe(p.text());
    c.nontrivial(hashStr(c.caseText));
    SymVec f = libEqs(p, r);
    auto &cfg = Config::Get();
    for (auto m : {NonlinearMethod::NEWTON_RAPHSON, NonlinearMethod::LM}) {
        cfg.nonlinearMethod = m;
        cfg.initialValue = 1;
        VarsTable t = libTable(p, r);
        judge(c, p, {roots[w]}, 1e-7, m == NonlinearMethod::LM ? "lm-one-of-several" : "newton-one-of-several", [&] { return Solve(f, t); });
        cfg.initialValue = x0;
        judge(c, p, {roots[w]}, 1e-7, m == NonlinearMethod::LM ? "lm-one-of-several-initial" : "newton-one-of-several-initial", [&] { return Solve(f); });
    }
}
void runCase(Ctx &c) {
    local(c); local(c); affine(c); basins(c);
}
#include "common_impl.h"
