// C15: SolveLinear returns a true solution or the right classification (exact rational oracle).
#include "common.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C15";
uint64_t totalCases(bool th) { return th ? 150000 : 8000; }
void setupCheck(Ctx &) {}
typedef __int128 I;
static I gcd(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static int rankOfI(std::vector<std::vector<I>> a) {
    if (a.empty()) return 0;
    int m = (int)a.size(), n = (int)a[0].size(), rk = 0;
    for (int x = 0; x < n && rk < m; ++x) {
        int p = rk;
        while (p < m && a[p][x] == 0) ++p;
        if (p == m) continue;
        std::swap(a[p], a[rk]);
        for (int i = rk + 1; i < m; ++i) if (a[i][x] != 0) {
            I f = a[i][x], g = a[rk][x], t = 0;
            for (int j = 0; j < n; ++j) { a[i][j] = a[i][j] * g - a[rk][j] * f; t = gcd(t, a[i][j]); }
            if (t > 1) for (int j = 0; j < n; ++j) a[i][j] /= t;
        }
        ++rk;
    }
    return rk;
}
enum { SOL, OVER, SING, INF_, INDET, OTHER };
static const char *const NAME[] = {"solution", "over-determined", "singular (inconsistent)", "infinitely many solutions", "indeterminate", "another error"};
static int callSolve(const Mat &A, const Vec &b, Vec &x, std::string &msg) {
    try { x = SolveLinear(A, b); return SOL; }
    catch (const MathError &e) {
        msg = e.what();
        switch (e.GetErrorType()) {
        case ErrorType::ERROR_OVER_DETERMINED_EQUATIONS: return OVER;
        case ErrorType::ERROR_SINGULAR_MATRIX: return SING;
        case ErrorType::ERROR_INFINITY_SOLUTIONS: return INF_;
        case ErrorType::ERROR_INDETERMINATE_EQUATION: return INDET;
        default: return OTHER;
        }
    } catch (const std::runtime_error &e) { msg = e.what(); return OTHER; }
}
static void residual(Ctx &c, const Mat &A, const Vec &b, const Vec &x, double rel) {
    if (x.Rows() != A.Cols()) c.fail("shape", fmt("the solution has %d elements for %d unknowns", x.Rows(), A.Cols()));
    double mx = 0;
    for (int j = 0; j < x.Rows(); ++j) { if (!std::isfinite(x[j])) c.fail("residual", "the solution is not finite: " + x.ToString()); mx = std::max(mx, std::fabs(x[j])); }
    for (int i = 0; i < A.Rows(); ++i) {
        long double s = -(long double)b[i], t = std::fabs(b[i]);
        for (int j = 0; j < A.Cols(); ++j) { s += (long double)A.Value(i, j) * x[j]; t += std::fabs(A.Value(i, j)) * mx; }
        c.eval();
        if (!(fabsl(s) <= rel * (t + mx + 1))) c.fail("residual", fmt("equation %d is off by %.3Lg with x = ", i, s) + x.ToString());
    }
}
static void integers(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    bool allow = r.chance(1, 2);
    Config::Get().allowIndeterminateEquation = allow;
    if (r.chance(1, 4)) Config::Get().epsilon = std::pow(10.0, r.range(-11, -8));
    bool big = r.chance(1, 25);
    int m = big ? r.range(5, 9) : r.range(1, 5), n = r.chance(1, 2) ? m : big ? r.range(5, 11) : r.range(1, 6);
    std::vector<std::vector<I>> a(m, std::vector<I>(n)), ab;
    int style = r.range(0, 6), lim = big ? 1 : r.range(1, 4);
    int rk = r.range(0, std::min(m, n));
    if (style <= 2) { // product of given rank
        std::vector<std::vector<int>> L(m, std::vector<int>(rk)), R(rk, std::vector<int>(n));
        for (auto &v : L) for (auto &x : v) x = r.range(-2, 2);
        for (auto &v : R) for (auto &x : v) x = r.range(-2, 2);
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { a[i][j] = 0; for (int k = 0; k < rk; ++k) a[i][j] += L[i][k] * R[k][j]; }
    } else for (auto &v : a) for (auto &x : v) x = style == 3 && r.chance(1, 2) ? 0 : r.range(-lim, lim);
    if (style == 4) { int z = r.range(0, n - 1); for (auto &v : a) for (int j = 0; j <= z; ++j) v[j] = r.chance(1, 3) ? v[j] : 0; }
    if (style == 5) for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (j < i + (int)r.below(2)) a[i][j] = 0; // echelon with skipped columns
    if (style == 6 && m > 1) { int p = r.range(0, m - 1), q = r.range(0, m - 1); if (p != q) a[p] = a[q]; }
    std::vector<I> b(m);
    if (r.chance(2, 3)) { std::vector<int> x(n); for (auto &v : x) v = r.range(-4, 4); for (int i = 0; i < m; ++i) { b[i] = 0; for (int j = 0; j < n; ++j) b[i] += a[i][j] * x[j]; } if (r.chance(1, 5)) b[r.below(m)] += r.range(-1, 1); }
    else for (auto &v : b) v = r.range(-5, 5);
    ab = a;
    for (int i = 0; i < m; ++i) ab[i].push_back(b[i]);
    int ra = rankOfI(a), rab = rankOfI(ab);
    int want = m > n ? OVER : ra < rab ? SING : ra == n ? SOL : m == n ? INF_ : allow ? SOL : INDET;
    Mat A(m, n);
    Vec B(m);
    for (int i = 0; i < m; ++i) { B[i] = (double)b[i]; for (int j = 0; j < n; ++j) A.Value(i, j) = (double)a[i][j]; }
    Mat A0 = A;
    Vec B0 = B;
    std::string d = A.ToString() + "b=" + B.ToString() + (allow ? "allowed" : "");
    c.describe(d);
    c.sample(d);
    c.nontrivial(hashStr(d));
    Vec x(1);
    std::string msg;
    int got = callSolve(A, B, x, msg);
    c.eval();
    c.event(NAME[got]);
    if (got != want) c.fail("classification", std::string("got ") + NAME[got] + " (" + msg + (got == SOL ? x.ToString() : "") + "), expected " + NAME[want] + fmt(", ranks %d and %d", ra, rab));
    if (got == SOL) { residual(c, A, B, x, 1e-12); c.event(m == n ? "unique-solutions" : "particular-solutions"); }
    for (int i = 0; i < m; ++i) { if (B[i] != B0[i]) c.fail("input-changed", "b was changed"); for (int j = 0; j < n; ++j) if (A.Value(i, j) != A0.Value(i, j)) c.fail("input-changed", "A was changed"); }
    // the answer does not depend on the order of the equations
    if (m > 1 && m <= n) {
        int p = r.range(0, m - 1), q = r.range(0, m - 1);
        Mat A2 = A; Vec B2 = B;
        A2.SwapRow(p, q); std::swap(B2[p], B2[q]);
        Vec x2(1);
        int got2 = callSolve(A2, B2, x2, msg);
        c.eval();
        if (got2 != want) c.fail("classification", std::string("with two equations exchanged: got ") + NAME[got2] + ", expected " + NAME[want]);
        if (got2 == SOL) residual(c, A2, B2, x2, 1e-12);
    }
}
static void reals(Ctx &c) { // well-conditioned: diagonally dominant up to permutation and scaling, known solution
    Rng &r = c.rng;
    CfgGuard g;
    int n = r.chance(1, 120) ? r.range(41, 130) : r.chance(1, 20) ? r.range(15, 40) : r.range(1, 12);
    bool fine = r.chance(1, 2); // what lies below the configured threshold counts as 0: the smaller, the closer the solution
    if (fine) Config::Get().epsilon = 1e-15;
    Mat A(n, n);
    std::vector<int> p(n);
    for (int i = 0; i < n; ++i) p[i] = i;
    for (int i = n - 1; i > 0; --i) std::swap(p[i], p[r.below(i + 1)]);
    if (r.chance(1, 6)) for (int i = 0; i < n; ++i) p[i] = n - 1 - i; // every pivot as far below as it can be
    else if (r.chance(1, 6)) { int by = r.below(n); for (int i = 0; i < n; ++i) p[i] = (i + by) % n; }
    bool sparse = r.chance(1, 2);
    double keep = r.chance(1, 2) ? 0.25 : r.chance(1, 2) ? 0 : 1.0 / n; // of a sparse one: besides one element per row
    for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int j = 0; j < n; ++j) { double v = sparse && r.uniform(0, 1) >= keep ? 0 : r.uniform(-1, 1); A.Value(i, j) = v; s += std::fabs(v); }
        A.Value(i, p[i]) = (r.chance(1, 2) ? 1 : -1) * (s + r.uniform(0.5, 2));
        if (r.chance(1, 4)) { double f = std::pow(10.0, r.range(-3, 3)); for (int j = 0; j < n; ++j) A.Value(i, j) *= f; }
    }
    Vec xs(n), b(n);
    for (int i = 0; i < n; ++i) xs[i] = r.chance(1, 4) ? 0 : r.uniform(-10, 10);
    for (int i = 0; i < n; ++i) { long double s = 0; for (int j = 0; j < n; ++j) s += (long double)A.Value(i, j) * xs[j]; b[i] = (double)s; }
    c.describe(A.ToString() + "b=" + b.ToString());
    c.nontrivial(hashStr(c.caseText));
    Vec x(1);
    std::string msg;
    int got = callSolve(A, b, x, msg);
    c.eval();
    if (got != SOL) c.fail("classification", "a well-conditioned system was rejected: " + msg);
    residual(c, A, b, x, fine ? 1e-12 : 1e-8);
    for (int i = 0; i < n; ++i) if (!(std::fabs(x[i] - xs[i]) <= (fine ? 1e-10 : 1e-5))) c.fail("solution", fmt("element %d is %.17g instead of %.17g", i, x[i], xs[i]));
    c.event("well-conditioned-solutions");
}
// well-conditioned in every leading choice, but with pivots that must not be used; under-determined ones as well
static bool wellConditioned(std::vector<std::vector<double>> a) { // bounded inverse by complete pivoting
    int n = (int)a.size();
    std::vector<std::vector<double>> b(n, std::vector<double>(n));
    for (int i = 0; i < n; ++i) b[i][i] = 1;
    for (int k = 0; k < n; ++k) {
        int q = k;
        for (int i = k; i < n; ++i) if (std::fabs(a[i][k]) > std::fabs(a[q][k])) q = i;
        if (std::fabs(a[q][k]) < 0.1) return false;
        std::swap(a[q], a[k]); std::swap(b[q], b[k]);
        double w = a[k][k];
        for (int j = 0; j < n; ++j) { a[k][j] /= w; b[k][j] /= w; }
        for (int i = 0; i < n; ++i) if (i != k) { double t = a[i][k]; for (int j = 0; j < n; ++j) { a[i][j] -= t * a[k][j]; b[i][j] -= t * b[k][j]; } }
    }
    for (auto &v : b) for (double x : v) if (std::fabs(x) > 20) return false;
    return true;
}
static void smallPivots(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    Config::Get().allowIndeterminateEquation = true;
    // what lies below the configured threshold counts as 0: keep it out of the workload, or the threshold small
    bool fine = r.chance(1, 2);
    if (fine) Config::Get().epsilon = 1e-13;
    int m = r.chance(1, 10) ? r.range(7, 14) : r.range(2, 6), n = r.chance(2, 3) ? m : m + r.range(1, 4);
    std::vector<std::vector<double>> a(m, std::vector<double>(n));
    for (int t = 0;; ++t) {
        if (t > 40) { c.event("no-suitable-matrix"); return; }
        for (auto &v : a) for (double &x : v) x = r.chance(1, 4) ? 0 : r.chance(1, 2) ? r.range(-3, 3) : r.uniform(-2, 2);
        if (t > 20) for (int i = 0; i < m; ++i) a[i][(i + 1) % m] += 5;
        int k = r.range(1, m);
        for (int i = 0; i < k; ++i) a[r.below(m)][r.below(m)] = 0;
        a[0][0] = 0;
        if (!fine) for (int j = 1; j < n; ++j) a[0][j] = (r.chance(1, 2) ? 1 : -1) * r.uniform(0.3, 2);
        auto sq = a;
        for (auto &v : sq) v.resize(m); // the leading columns alone already determine the solution
        if (!wellConditioned(sq)) continue;
        if (fine) for (auto &v : a) for (double &x : v) if (x == 0 && r.chance(1, 3)) x = (r.chance(1, 2) ? 1 : -1) * std::pow(10.0, r.uniform(-11.5, -6));
        a[0][0] = std::pow(10.0, r.uniform(fine ? -11.5 : -8.7, -7));
        break;
    }
    Mat A(m, n);
    Vec b(m), xs(n);
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A.Value(i, j) = a[i][j];
    for (int j = 0; j < n; ++j) xs[j] = r.uniform(-10, 10);
    for (int i = 0; i < m; ++i) { long double s = 0; for (int j = 0; j < n; ++j) s += (long double)a[i][j] * xs[j]; b[i] = (double)s; }
    c.describe(A.ToString() + "b=" + b.ToString());
    c.nontrivial(hashStr(c.caseText));
    Vec x(1);
    std::string msg;
    int got = callSolve(A, b, x, msg);
    c.eval();
    if (got != SOL) c.fail("classification", "a well-conditioned system was rejected: " + msg);
    residual(c, A, b, x, 1e-12);
    c.event(m == n ? "small-pivot-solutions" : "small-pivot-under-determined-solutions");
}
void runCase(Ctx &c) {
    for (int q = 0; q < 8; ++q)
        if (c.rng.chance(3, 5)) integers(c);
        else if (c.rng.chance(1, 2)) reals(c);
        else smallPivots(c);
}
#include "common_impl.h"
