// C14: determinant, cofactor, adjoint, inverse, definiteness against exact integer arithmetic.
#include "common.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C14";
uint64_t totalCases(bool th) { return th ? 20000 : 1000; }
void setupCheck(Ctx &) {}
typedef __int128 I;
typedef std::vector<std::vector<long long>> IM;
static I det(const IM &m, int n) { // leading block, fraction-free elimination
    std::vector<std::vector<I>> a(n, std::vector<I>(n));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = m[i][j];
    I prev = 1;
    int sg = 1;
    for (int k = 0; k < n - 1; ++k) {
        if (a[k][k] == 0) {
            int p = k + 1;
            while (p < n && a[p][k] == 0) ++p;
            if (p == n) return 0;
            std::swap(a[p], a[k]);
            sg = -sg;
        }
        for (int i = k + 1; i < n; ++i) for (int j = k + 1; j < n; ++j) a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev;
        prev = a[k][k];
    }
    return sg * a[n - 1][n - 1];
}
template <class T> static std::vector<std::vector<T>> minorOf(const std::vector<std::vector<T>> &m, int n, int p, int q) {
    std::vector<std::vector<T>> r;
    for (int i = 0; i < n; ++i) if (i != p) { r.emplace_back(); for (int j = 0; j < n; ++j) if (j != q) r.back().push_back(m[i][j]); }
    return r;
}
// sum over permutations (sg: signed, absolute values otherwise); its rounding error is tiny relative to the unsigned sum
static long double leibniz(const std::vector<std::vector<double>> &m, bool sg) {
    int n = (int)m.size();
    std::vector<long double> f(size_t(1) << n, 0);
    f[0] = 1;
    for (size_t mask = 1; mask < f.size(); ++mask) {
        int row = __builtin_popcountll(mask) - 1;
        for (int j = 0; j < n; ++j) if (mask >> j & 1) {
            long double t = (long double)m[row][j] * f[mask ^ (size_t(1) << j)];
            if (!sg) t = fabsl(t);
            else if (__builtin_popcountll(mask >> (j + 1)) % 2) t = -t;
            f[mask] += t;
        }
    }
    return f.back();
}
static long double perm(const std::vector<std::vector<double>> &m) { return leibniz(m, false); }
static long double detL(const std::vector<std::vector<double>> &m) { return leibniz(m, true); }
static std::string sh(const Mat &m) { return m.ToString(); }
static IM genI(Rng &r, int n, int style, int lim) {
    IM m(n, std::vector<long long>(n));
    for (auto &row : m) for (auto &x : row) x = r.range(-lim, lim);
    auto zero = [&](bool up) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (up ? j < i : j > i) m[i][j] = 0; };
    switch (style) {
    case 0: break;
    case 1: zero(true); break;
    case 2: zero(false); break;
    case 3: for (auto &row : m) for (auto &x : row) if (r.chance(2, 3)) x = 0; break;
    case 4: if (n > 1) { int a = r.range(0, n - 1), b = r.range(0, n - 1); if (a != b) m[a] = m[b]; else for (auto &x : m[a]) x = 0; } break; // singular
    case 5: if (n > 2) for (int i = 0; i < n; ++i) m[i][n - 1] = m[i][0] + m[i][1]; break; // singular columns
    case 6: { // permutation with signs
        std::vector<int> p(n);
        for (int i = 0; i < n; ++i) p[i] = i;
        for (int i = n - 1; i > 0; --i) std::swap(p[i], p[r.below(i + 1)]);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m[i][j] = p[i] == j ? (r.chance(1, 2) ? 1 : -1) : 0;
        break;
    }
    case 7: { IM g = m; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { long long s = 0; for (int k = 0; k < n; ++k) s += g[i][k] * g[j][k]; m[i][j] = s; } break; } // Gram: semi-definite
    case 8: for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) m[i][j] = m[j][i]; break; // symmetric
    default: for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) m[i][j] = m[j][i]; m[i][i] = std::llabs(m[i][i]) + r.range(0, lim * n); } break; // often definite
    }
    return m;
}
static void integers(Ctx &c) {
    Rng &r = c.rng;
    int n = r.chance(1, 250) ? r.range(7, c.thorough ? 9 : 8) : r.chance(1, 12) ? 6 : r.range(1, 5);
    int style = r.range(0, 9);
    IM m = genI(r, n, style, n > 6 ? 3 : style == 7 ? 3 : r.range(1, 9));
    if (n > 6 && style == 7) return;
    int N = n + (r.chance(1, 3) ? r.range(1, 2) : 0); // the block may be a part of a larger matrix
    Mat A(N, N, 0);
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) A.Value(i, j) = i < n && j < n ? (double)m[i][j] : (double)r.range(-9, 9);
    Mat keep = A;
    c.describe(fmt("leading %d of ", n) + sh(A));
    c.sample(sh(A));
    c.nontrivial(hashStr(sh(A)) + n);
    auto unchanged = [&] { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (A.Value(i, j) != keep.Value(i, j)) c.fail("input-changed", "the matrix was changed"); };
    I d = det(m, n);
    c.eval();
    if (Det(A, n) != (double)d) c.fail("determinant", fmt("Det is %.17g, exactly %.17g", Det(A, n), (double)d));
    c.event(d == 0 ? "singular" : d > 0 ? "positive-determinants" : "negative-determinants");
    if (n > 1) for (int t = 0; t < 4; ++t) {
        int p = r.range(0, n - 1), q = r.range(0, n - 1);
        Mat C(n - 1, n - 1, 77);
        GetCofactor(A, C, p, q, n);
        auto w = minorOf(m, n, p, q);
        c.eval();
        for (int i = 0; i < n - 1; ++i) for (int j = 0; j < n - 1; ++j) if (C.Value(i, j) != (double)w[i][j]) c.fail("cofactor", fmt("the minor without row %d and column %d has %.17g at (%d,%d) instead of %lld", p, q, C.Value(i, j), i, j, w[i][j]));
    }
    unchanged();
    if (N == n && n <= 7) {
        Mat adj(n, n, 55);
        Adjoint(A, adj);
        c.eval();
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            I w = n == 1 ? (I)1 : det(minorOf(m, n, i, j), n - 1) * ((i + j) % 2 ? -1 : 1);
            if (adj.Value(j, i) != (double)w) c.fail("adjoint", fmt("the adjoint has %.17g at (%d,%d), exactly %.17g", adj.Value(j, i), j, i, (double)w));
        }
        bool pd = true;
        for (int k = 1; k <= n; ++k) if (det(m, k) <= 0) pd = false;
        c.eval();
        if (A.PositiveDetermine() != pd) c.fail("definiteness", std::string("PositiveDetermine is ") + (pd ? "false" : "true"));
        c.event(pd ? "definite" : "indefinite");
        { // the same matrix in another unit: a power of two scales everything exactly
            int e = r.range(-40, 12);
            Mat S = A;
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) S.Value(i, j) = std::ldexp(A.Value(i, j), e);
            c.eval();
            if (Det(S, n) != std::ldexp((double)d, e * n)) c.fail("determinant", fmt("Det of the matrix times 2^%d is %.17g, exactly %.17g", e, Det(S, n), std::ldexp((double)d, e * n)));
            if (S.PositiveDetermine() != pd) c.fail("definiteness", fmt("PositiveDetermine of the matrix times 2^%d is ", e) + (pd ? "false" : "true"));
            c.event("scaled-matrices");
        }
        bool threw = false;
        try {
            Mat inv = A.Inverse();
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
                I w = n == 1 ? (I)1 : det(minorOf(m, n, j, i), n - 1) * ((i + j) % 2 ? -1 : 1);
                double e = (double)w / (double)d;
                if (!(std::fabs(inv.Value(i, j) - e) <= 1e-13 * std::fabs(e))) c.fail("inverse", fmt("the inverse has %.17g at (%d,%d) instead of %.17g", inv.Value(i, j), i, j, e));
            }
            c.event("inverses");
        } catch (const MathError &e) {
            threw = true;
            if (e.GetErrorType() != ErrorType::ERROR_SINGULAR_MATRIX) c.fail("error-type", std::string("Inverse threw ") + e.what());
        }
        c.eval();
        if (threw != (d == 0)) c.fail("singular", threw ? "Inverse rejects a regular matrix" : "Inverse accepts a singular matrix");
        if (d != 0 && n <= 5) { // epsilon just at, below and above the determinant
            CfgGuard g;
            double D = std::fabs((double)d);
            for (double eps : {D, D - 0.25, D + 0.25, D / 2, D * 2}) {
                Config::Get().epsilon = eps;
                bool th = false;
                try { A.Inverse(); } catch (const MathError &) { th = true; }
                c.eval();
                c.event("epsilon-at-determinant");
                if (th != (D <= eps)) c.fail("singular", fmt("the determinant is %.17g, epsilon %.17g: ", (double)d, eps) + (th ? "rejected" : "accepted"));
            }
        }
        unchanged();
    }
}
static void reals(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    int n = r.chance(1, 12) ? 6 : r.range(1, 5);
    std::vector<std::vector<double>> m(n, std::vector<double>(n));
    double scale = r.chance(1, 3) ? std::pow(10.0, r.range(-3, 4)) : 1;
    for (auto &row : m) for (auto &x : row) x = scale * (r.chance(1, 4) ? 0 : r.uniform(-3, 3));
    if (r.chance(1, 4)) for (int j = 0; j < n; ++j) m[0][j] = m[n - 1][j] * (1 + r.uniform(-1e-5, 1e-5)); // nearly singular
    Mat A(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A.Value(i, j) = m[i][j];
    double eps = r.chance(2, 3) ? 1e-9 : std::pow(10.0, r.range(-12, -2));
    Config::Get().epsilon = eps;
    c.describe(sh(A) + " epsilon " + num17(eps));
    c.nontrivial(hashStr(sh(A)));
    long double d = detL(m), P = perm(m);
    double got = Det(A, n);
    c.eval();
    if (!(fabsl(got - d) <= 1e-12L * P + 1e-300L)) c.fail("determinant", fmt("Det is %.17g, about %.17Lg", got, d));
    c.event("real-determinants");
    bool must = fabsl(d) + 1e-12L * P < eps, mustNot = fabsl(d) - 1e-12L * P > eps;
    try {
        Mat inv = A.Inverse();
        if (must) c.fail("singular", fmt("Inverse accepts a matrix with determinant %.3Lg, epsilon %.3g", d, eps));
        Mat pr = A * inv, pl = inv * A;
        // rounding bound: entries of the adjoint are sums bounded by permanents of minors
        std::vector<std::vector<long double>> pm(n, std::vector<long double>(n));
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) pm[i][j] = n == 1 ? 1 : perm(minorOf(m, n, j, i));
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            long double tr = 0, tl = 0;
            for (int k = 0; k < n; ++k) { tr += std::fabs(m[i][k]) * pm[k][j]; tl += pm[i][k] * std::fabs(m[k][j]); }
            tr = 1e-12L * (tr + P) / fabsl(d) + 1e-12L * P / fabsl(d);
            tl = 1e-12L * (tl + P) / fabsl(d) + 1e-12L * P / fabsl(d);
            double w = i == j;
            c.eval();
            if (!(std::fabs(pr.Value(i, j) - w) <= tr) || !(std::fabs(pl.Value(i, j) - w) <= tl)) c.fail("inverse", fmt("matrix times inverse has %.17g / %.17g at (%d,%d), tolerance %.3Lg", pr.Value(i, j), pl.Value(i, j), i, j, tr));
        }
        c.event("real-inverses");
    } catch (const MathError &e) {
        if (e.GetErrorType() != ErrorType::ERROR_SINGULAR_MATRIX) c.fail("error-type", std::string("Inverse threw ") + e.what());
        if (mustNot) c.fail("singular", fmt("Inverse rejects a matrix with determinant %.3Lg, epsilon %.3g", d, eps));
        c.event("real-singular");
    }
    if (n > 1) {
        int p = r.range(0, n - 1), q = r.range(0, n - 1);
        Mat C(n - 1, n - 1);
        GetCofactor(A, C, p, q, n);
        auto w = minorOf(m, n, p, q);
        for (int i = 0; i < n - 1; ++i) for (int j = 0; j < n - 1; ++j) if (bitsOf(C.Value(i, j)) != bitsOf(w[i][j])) c.fail("cofactor", "a minor has a wrong element");
    }
}
void runCase(Ctx &c) {
    for (int q = 0; q < 6; ++q) if (c.rng.chance(2, 3)) integers(c); else reals(c);
}
#include "common_impl.h"
