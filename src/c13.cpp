// C13: matrix and vector arithmetic against a plain array model, over random operation histories.
#include "common.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C13";
uint64_t totalCases(bool th) { return th ? 150000 : 8000; }
void setupCheck(Ctx &) {}
struct M { int r = 0, c = 0; std::vector<double> d; double &at(int i, int j) { return d[(size_t)i * c + j]; } double at(int i, int j) const { return d[(size_t)i * c + j]; } };
static M mk0(int r, int c, double v = 0) { M m; m.r = r; m.c = c; m.d.assign((size_t)r * c, v); return m; }
static bool sameD(double a, double b) { return bitsOf(a) == bitsOf(b) || a == b || (std::isnan(a) && std::isnan(b)); }
static std::string sh(const M &m) { std::string s = fmt("%dx%d[", m.r, m.c); for (double v : m.d) s += num17(v) + " "; return s + "]"; }

struct Hist {
    Ctx &c;
    Rng &r;
    std::string log;
    int prof;
    explicit Hist(Ctx &c) : c(c), r(c.rng) { prof = r.pick(std::vector<int>{NP_SMALLINT, NP_MODERATE, NP_TEXT, NP_ZERO_ONE, NP_WILD}); }
    double num() { double v = genNumber(r, prof); return std::fabs(v) > 1e100 && prof != NP_WILD ? 1 : v; }
    M gen(int rr, int cc) { M m = mk0(rr, cc); for (auto &x : m.d) x = num(); return m; }
    void say(const std::string &s) { log += s + "; "; if (log.size() > 2500) log.erase(0, 1200); c.describe(log); }
    Mat lib(const M &m) {
        if (r.chance(1, 3)) { std::valarray<double> v(m.d.data(), m.d.size()); return Mat(m.r, m.c, v); }
        Mat x(m.r, m.c, r.chance(1, 2) ? 0 : 9);
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) x.Value(i, j) = m.at(i, j);
        return x;
    }
    Vec vec(const M &m) {
        std::valarray<double> v(m.d.data(), m.d.size());
        if (r.chance(1, 3)) return Vec(v);
        if (r.chance(1, 2)) return lib(m).ToVec();
        Vec x(m.r);
        for (int i = 0; i < m.r; ++i) x[i] = m.d[i];
        return x;
    }
    void same(const Mat &x, const M &m, const char *what, const std::vector<double> *tol = nullptr) {
        c.eval();
        if (x.Rows() != m.r || x.Cols() != m.c) c.fail("shape", std::string(what) + fmt(": shape %dx%d, expected ", x.Rows(), x.Cols()) + sh(m));
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) {
            double g = x.Value(i, j), w = m.at(i, j);
            bool ok = sameD(g, w);
            if (!ok && tol) { double t = (*tol)[(size_t)i * m.c + j]; ok = !std::isfinite(t) || std::fabs(g - w) <= 1e-12 * t; }
            if (!ok) c.fail("element", std::string(what) + fmt(": element (%d,%d) is %.17g, expected %.17g", i, j, g, w));
        }
    }
};
static void binary(Hist &H) {
    Ctx &c = H.c;
    Rng &r = H.r;
    bool big = r.chance(1, 40);
    int m = r.range(1, 6), n = r.range(1, 6), k = r.range(1, 6);
    if (big) { int *q[] = {&m, &n, &k}; for (int *x : q) if (r.chance(2, 3)) *x = r.range(7, r.chance(1, 6) ? 130 : 40); c.event("large-shapes"); }
    M a = H.gen(m, n), b = H.gen(m, n), p = H.gen(n, k);
    bool alias = r.chance(1, 4);
    if (alias) b = a;
    H.say("binary on " + sh(a) + sh(b));
    Mat A = H.lib(a), B0 = H.lib(b);
    Mat &B = alias ? A : B0;
    M s = a, d = a, q = a, sc = a, ng = a;
    double f = H.num();
    for (size_t i = 0; i < a.d.size(); ++i) { s.d[i] = a.d[i] + b.d[i]; d.d[i] = a.d[i] - b.d[i]; q.d[i] = a.d[i] / b.d[i]; sc.d[i] = a.d[i] * f; ng.d[i] = -a.d[i]; }
    H.same(A + B, s, "sum");
    H.same(A - B, d, "difference");
    H.same(EachDivide(A, B), q, "element-wise quotient");
    H.same(A * f, sc, "scalar product");
    H.same(f * A, sc, "scalar product from the left");
    H.same(-A, ng, "negation");
    H.same(A, a, "operand");
    H.same(B, b, "operand");
    // product
    Mat P = H.lib(p);
    M pr = mk0(m, k);
    std::vector<double> tol((size_t)m * k);
    for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) { double v = 0, t = 0; for (int l = 0; l < n; ++l) { v += a.at(i, l) * p.at(l, j); t += std::fabs(a.at(i, l) * p.at(l, j)); } pr.at(i, j) = v; tol[(size_t)i * k + j] = t; }
    H.same(A * P, pr, "product", &tol);
    H.same(P, p, "operand");
    if (m == n) {
        M sq = mk0(m, m);
        std::vector<double> t2((size_t)m * m);
        for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { double v = 0, t = 0; for (int l = 0; l < m; ++l) { v += a.at(i, l) * a.at(l, j); t += std::fabs(a.at(i, l) * a.at(l, j)); } sq.at(i, j) = v; t2[(size_t)i * m + j] = t; }
        H.same(A * A, sq, "square", &t2);
        Mat X = A;
        X = X * X;
        H.same(X, sq, "self-assigned square", &t2);
    }
    M tr = mk0(n, m);
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) tr.at(j, i) = a.at(i, j);
    H.same(A.Transpose(), tr, "transpose");
    { Mat X = A; X = X.Transpose(); H.same(X, tr, "self-assigned transpose"); }
    // compound and chained
    { Mat X = A; Mat &R = (X += B); if (&R != &X) c.fail("return", "+= returns another object"); H.same(X, s, "compound sum"); H.same(B, alias ? a : b, "operand"); }
    { Mat X = A; X += X; M dd = a; for (auto &v : dd.d) v += v; H.same(X, dd, "X += X"); }
    // reductions
    double n2 = 0, mx = 0, mn = HUGE_VAL, lo = HUGE_VAL;
    for (double v : a.d) { n2 += v * v; mx = std::max(mx, std::fabs(v)); mn = std::min(mn, std::fabs(v)); lo = std::min(lo, v); }
    auto near = [&](double g, double w, const char *what) { c.eval(); if (!(g == w || std::fabs(g - w) <= 1e-12 * std::fabs(w))) c.fail("reduction", std::string(what) + fmt(" is %.17g, expected %.17g of ", g, w) + sh(a)); };
    near(A.Norm2(), n2, "Norm2");
    near(A.NormInfinity(), mx, "NormInfinity");
    near(A.NormNegInfinity(), mn, "NormNegInfinity");
    near(A.Min(), lo, "Min");
    // rows and columns
    const Mat &CA = A;
    for (int i = 0; i < m; ++i) { int o = r.range(0, n); std::valarray<double> v = CA.Row(i, o); if ((int)v.size() != n - o) c.fail("row", "Row has the wrong length"); for (int j = o; j < n; ++j) if (!sameD(v[j - o], a.at(i, j))) c.fail("row", fmt("Row(%d,%d) is wrong in ", i, o) + sh(a)); }
    for (int j = 0; j < n; ++j) { int o = r.range(0, m); std::valarray<double> v = CA.Col(j, o); if ((int)v.size() != m - o) c.fail("col", "Col has the wrong length"); for (int i = o; i < m; ++i) if (!sameD(v[i - o], a.at(i, j))) c.fail("col", fmt("Col(%d,%d) is wrong in ", j, o) + sh(a)); }
    for (int t = 0; t < 3; ++t) {
        int j = r.range(0, n - 1), lo2 = r.range(0, m - 1), hi = r.range(lo2, m - 1), w = lo2;
        for (int i = lo2; i <= hi; ++i) if (std::fabs(a.at(i, j)) > std::fabs(a.at(w, j))) w = i;
        int g = GetMaxAbsRowIndex(A, lo2, hi, j);
        c.eval();
        if (g < lo2 || g > hi || std::fabs(a.at(g, j)) != std::fabs(a.at(w, j))) c.fail("max-row", fmt("GetMaxAbsRowIndex(%d,%d,%d) is %d, expected %d in ", lo2, hi, j, g, w) + sh(a));
    }
    if (n != 1) { bool t = false; try { A.ToVec(); } catch (const std::runtime_error &) { t = true; } if (!t) c.fail("to-vec", "ToVec of a matrix with several columns did not throw"); }
    else { M v = a; H.same(A.ToVec(), v, "ToVec"); }
    H.same(A, a, "operand after all");
    c.event("binary-operations");
}
static void comparisons(Hist &H) {
    Ctx &c = H.c;
    Rng &r = H.r;
    CfgGuard g;
    double eps = r.chance(1, 3) ? 1e-9 : r.chance(1, 2) ? std::ldexp(1.0, r.range(-30, 1)) : std::pow(10.0, r.range(-12, -1)); // powers of two make differences of exactly epsilon
    Config::Get().epsilon = eps;
    int m = r.range(1, 4), n = r.range(1, 4);
    if (r.chance(1, 40)) { int top = r.chance(1, 6) ? 90 : 20; m = r.range(5, top); n = r.range(5, top); }
    M a = H.gen(m, n);
    for (auto &v : a.d) if (std::fabs(v) > 1e6) v = 2;
    M b = a;
    bool eqv = true, zero = true, less = true;
    if (r.chance(1, 2)) { double base = r.range(-2, 2); for (auto &v : a.d) v = base; b = a; }
    for (auto &v : b.d) if (r.chance(1, 3)) v += r.pick(std::vector<double>{0, eps * 0.5, -eps * 0.5, eps * 2, -eps * 2, 1, -1, eps * 0.9, eps * 1.1, eps, -eps});
    if (r.chance(1, 12)) b.d[r.below(b.d.size())] = r.pick(std::vector<double>{NAN, INFINITY, -INFINITY, 1e300});
    if (r.chance(1, 12)) a.d[r.below(a.d.size())] = r.pick(std::vector<double>{NAN, INFINITY, -INFINITY, 1e300});
    double m0 = a.d[0];
    bool eqs = true;
    for (size_t i = 0; i < a.d.size(); ++i) { if (!(std::fabs(a.d[i] - b.d[i]) < eps)) eqv = false; if (!(a.d[i] < b.d[i])) less = false; if (!(std::fabs(b.d[i] - m0) < eps)) eqs = false; }
    H.say("compare " + sh(a) + sh(b) + num17(eps));
    Mat A = H.lib(a), B = H.lib(b);
    c.eval(5);
    if ((A == B) != eqv) c.fail("comparison", "A==B is wrong");
    if ((B == m0) != eqs) c.fail("comparison", "A==number is wrong for " + num17(m0));
    if (AllIsLessThan(A, B) != less) c.fail("comparison", "AllIsLessThan is wrong");
    M z = mk0(m, n);
    for (auto &v : z.d) if (r.chance(1, 3)) v = r.pick(std::vector<double>{0, eps * 0.5, -eps * 0.5, eps * 2, -eps * 2, 1, -1, -0.0, eps, -eps, NAN});
    for (double v : z.d) if (!(std::fabs(v) <= eps)) zero = false;
    if (IsZero(H.lib(z)) != zero) c.fail("comparison", "IsZero is wrong for " + sh(z));
    if (n == 1) { Vec va = H.vec(a); if ((va < H.vec(b)) != less) c.fail("comparison", "Vec < is wrong"); }
    c.event(eqv ? "equal" : "unequal");
    c.event(less ? "less" : "not-less");
}
static void vectors(Hist &H) {
    Ctx &c = H.c;
    Rng &r = H.r;
    int n = r.chance(1, 300) ? r.range(91, 3000) : r.chance(1, 20) ? r.range(10, 90) : r.range(1, 9);
    M a = H.gen(n, 1), b = H.gen(n, 1);
    bool alias = r.chance(1, 4);
    if (alias) b = a;
    H.say("vectors " + sh(a) + sh(b));
    Vec A = H.vec(a), B0 = H.vec(b);
    Vec &B = alias ? A : B0;
    M s = a, d = a, p = a, q = a, sc = a, ng = a;
    double f = H.num(), dot = 0, dm = 0;
    for (int i = 0; i < n; ++i) { s.d[i] = a.d[i] + b.d[i]; d.d[i] = a.d[i] - b.d[i]; p.d[i] = a.d[i] * b.d[i]; q.d[i] = a.d[i] / b.d[i]; sc.d[i] = a.d[i] * f; ng.d[i] = -a.d[i]; dot += p.d[i]; dm += std::fabs(p.d[i]); }
    H.same(A + B, s, "vector sum");
    H.same(A - B, d, "vector difference");
    H.same(A * B, p, "element-wise product");
    H.same(A / B, q, "element-wise quotient");
    H.same(A * f, sc, "vector scalar product");
    H.same(f * A, sc, "vector scalar product from the left");
    H.same(-A, ng, "vector negation");
    double g = Dot(A, B);
    c.eval();
    if (std::isfinite(dm) && !(std::fabs(g - dot) <= 1e-12 * dm)) c.fail("dot", fmt("Dot is %.17g, expected %.17g", g, dot));
    const Vec &CA = A;
    for (int i = 0; i < n; ++i) if (!sameD(CA[i], a.d[i]) || !sameD(A.Value(i, 0), a.d[i])) c.fail("index", "vector indexing is wrong");
    H.same(A, a, "vector operand");
    H.same(B, b, "vector operand");
    // through the matrix view
    Vec X = A;
    Mat &V = X.AsMat();
    V.Value(0, 0) = 5;
    M x = a;
    x.d[0] = 5;
    H.same(X, x, "vector changed through AsMat");
    H.same(A, a, "copy source");
    X.Resize(n + r.range(-(n - 1), 3));
    M y = mk0(X.Rows(), 1);
    for (int i = 0; i < std::min(n, y.r); ++i) y.d[i] = x.d[i];
    H.same(X, y, "resized vector");
    X = A;
    X[(size_t)(n - 1)] = 4;
    H.same(A, a, "copy source");
    Mat O = Mat(A.AsMat()) * H.lib(mk0(1, 2, 1)); // outer product through the matrix operators
    M o = mk0(n, 2);
    for (int i = 0; i < n; ++i) o.at(i, 0) = o.at(i, 1) = a.d[i];
    H.same(O, o, "column times row");
    c.event("vector-operations");
}
// in-place history on a few matrices
static void history(Hist &H) {
    Ctx &c = H.c;
    Rng &r = H.r;
    std::vector<M> m;
    std::vector<Mat> L;
    int n = r.range(2, 4);
    for (int i = 0; i < n; ++i) { { int top = r.chance(1, 60) ? 30 : 5; m.push_back(H.gen(r.range(1, top), r.range(1, top))); }; L.push_back(H.lib(m.back())); }
    int steps = r.range(5, 40);
    uint64_t sig = 7;
    for (int s = 0; s < steps; ++s) {
        size_t i = r.below(n), j = r.below(n);
        M &a = m[i];
        Mat &A = L[i];
        int k = (int)r.below(14);
        H.say(fmt("%d(%zu,%zu)%dx%d", k, i, j, a.r, a.c));
        sig = mix(sig, k * 64 + i * 8 + j);
        switch (k) {
        case 0: { int p = r.range(0, a.r - 1), q = r.range(0, a.r - 1); Mat &R = A.SwapRow(p, q); if (&R != &A) c.fail("return", "SwapRow returns another object"); for (int t = 0; t < a.c; ++t) std::swap(a.at(p, t), a.at(q, t)); break; }
        case 1: { int p = r.range(0, a.c - 1), q = r.range(0, a.c - 1); Mat &R = A.SwapCol(p, q); if (&R != &A) c.fail("return", "SwapCol returns another object"); for (int t = 0; t < a.r; ++t) std::swap(a.at(t, p), a.at(t, q)); break; }
        case 2: { int p = r.range(1, 6), q = r.range(1, 6); A.Resize(p, q); M b = mk0(p, q); for (int x = 0; x < std::min(p, a.r); ++x) for (int y = 0; y < std::min(q, a.c); ++y) b.at(x, y) = a.at(x, y); a = b; break; }
        case 3: A.Zero(); for (auto &v : a.d) v = 0; break;
        case 4: { double v = H.num(); A.SetValue(v); for (auto &x : a.d) x = v; break; }
        case 5: if (a.r == a.c) { A.Ones(); for (auto &x : a.d) x = 0; for (int t = 0; t < a.r; ++t) a.at(t, t) = 1; } break;
        case 6: L[j] = A; m[j] = M(a); break; // copy, possibly onto itself
        case 7: if (i != j) { L[j] = std::move(L[i]); m[j] = m[i]; m[i] = H.gen(r.range(1, 4), r.range(1, 4)); L[i] = H.lib(m[i]); } break;
        case 8: { int p = r.range(0, a.r - 1), q = r.range(0, a.c - 1); double v = H.num(); A.Value(p, q) = v; a.at(p, q) = v; break; }
        case 9: { int p = r.range(0, a.r - 1), o = r.range(0, a.c - 1); double v = H.num(); A.Row(p, o) = v; for (int t = o; t < a.c; ++t) a.at(p, t) = v; break; }
        case 10: { int p = r.range(0, a.c - 1), o = r.range(0, a.r - 1); double v = H.num(); A.Col(p, o) = v; for (int t = o; t < a.r; ++t) a.at(t, p) = v; break; }
        case 11: { int p = r.range(0, a.r - 1), q = r.range(0, a.r - 1); std::valarray<double> t = A.Row(p); A.Row(q) += t; for (int y = 0; y < a.c; ++y) a.at(q, y) += p == q ? a.at(q, y) : a.at(p, y); break; }
        case 12: if (m[j].r == a.r && m[j].c == a.c) { M b = m[j]; A += L[j]; for (size_t t = 0; t < a.d.size(); ++t) a.d[t] += b.d[t]; } break;
        default: { Mat T = A.Transpose(); A = T; M b = mk0(a.c, a.r); for (int x = 0; x < a.r; ++x) for (int y = 0; y < a.c; ++y) b.at(y, x) = a.at(x, y); a = b; break; }
        }
        H.same(L[i], m[i], "history");
        H.same(L[j], m[j], "history");
        c.event("history-steps");
    }
    for (int i = 0; i < n; ++i) H.same(L[i], m[i], "history end");
    c.nontrivial(sig);
}
static void fixed(Ctx &c, Hist &H) {
    auto mm = [](int r, int cc, std::vector<double> d) { M m; m.r = r; m.c = cc; m.d = d; return m; };
    H.same(Mat{{1, 2}, {3, 4}}, mm(2, 2, {1, 2, 3, 4}), "initializer");
    H.same(Mat{{1, 2, 3}}, mm(1, 3, {1, 2, 3}), "initializer");
    H.same(Mat{{1}, {2}, {3}}, mm(3, 1, {1, 2, 3}), "initializer");
    H.same(Mat{{1}, {2, 5}, {3}}, mm(3, 2, {1, 0, 2, 5, 3, 0}), "ragged initializer");
    H.same(Mat{{1, 2, 3}, {}, {4, 5}}, mm(3, 3, {1, 2, 3, 0, 0, 0, 4, 5, 0}), "ragged initializer");
    H.same(Vec{1, 2, 3}, mm(3, 1, {1, 2, 3}), "vector initializer");
    H.same(Vec(3, 2.5), mm(3, 1, {2.5, 2.5, 2.5}), "vector fill");
    H.same(Vec(2), mm(2, 1, {0, 0}), "vector default");
    H.same(Mat(2, 3, -1), mm(2, 3, {-1, -1, -1, -1, -1, -1}), "matrix fill");
    H.same(Mat(2, 1), mm(2, 1, {0, 0}), "matrix default");
    c.event("constructors", 10);
}
void runCase(Ctx &c) {
    Hist H(c);
    if (c.idx == 0) fixed(c, H);
    for (int q = 0; q < 6; ++q) {
        H.log.clear();
        switch (c.rng.below(5)) {
        case 0: case 1: binary(H); c.nontrivial(hashStr(H.log)); break;
        case 2: comparisons(H); c.nontrivial(hashStr(H.log)); break;
        case 3: vectors(H); c.nontrivial(hashStr(H.log)); break;
        default: history(H);
        }
        if (q == 0) c.sample(H.log);
    }
}
#include "common_impl.h"
