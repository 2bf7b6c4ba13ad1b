// C19: symbolic matrices and Jacobians commute with evaluation.
#include "common.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C19";
uint64_t totalCases(bool th) { return th ? 40000 : 1500; }
void setupCheck(Ctx &) {}
struct S { int r, c; std::vector<A> d; };
static const std::vector<std::string> VARS{"x", "y", "z", "x1", "k_2"};
struct H {
    Ctx &c;
    Rng &r;
    bool exact;
    GenOpt o;
    explicit H(Ctx &c) : c(c), r(c.rng) {
        exact = r.chance(1, 2);
        o.vars = VARS;
        o.ops = exact ? std::vector<int>{ADD, SUB, MUL, NEG, POS} : std::vector<int>{ADD, SUB, MUL, NEG, SIN, COS, ATAN, EXP, DIV, POW};
        o.numProfile = exact ? NP_SMALLINT : NP_POSITIVE;
    }
    Env point() { Env e; for (auto &v : VARS) e[v] = exact ? (double)r.range(-3, 3) : r.uniform(0.3, 2); return e; }
    A entry() { o.size = r.chance(1, 4) ? 1 : r.range(1, exact ? 6 : 8); o.varBias = r.range(0, 100); return genAst(r, o); }
    S gen(int rows, int cols) { S s{rows, cols, {}}; for (int i = 0; i < rows * cols; ++i) s.d.push_back(entry()); return s; }
    SymMat lib(const S &s) {
        SymMat m(s.r, s.c);
        for (int i = 0; i < s.r; ++i) for (int j = 0; j < s.c; ++j) m.Value(i, j) = toNodeR(s.d[i * s.c + j], r);
        return m;
    }
    void shape(const SymMat &m, int rows, int cols, const char *what) {
        c.eval();
        if (m.Rows() != rows || m.Cols() != cols || m.Empty()) c.fail("shape", fmt("%s: %dx%d instead of %dx%d", what, m.Rows(), m.Cols(), rows, cols));
        for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) {
            if (!m.Value(i, j)) c.fail("empty-element", fmt("%s: element (%d,%d) is empty", what, i, j));
            m.Value(i, j)->CheckParent();
        }
    }
    void sameStruct(const SymMat &m, const S &s, const char *what) {
        shape(m, s.r, s.c, what);
        for (int i = 0; i < s.r; ++i) for (int j = 0; j < s.c; ++j) if (!eq(m.Value(i, j), s.d[i * s.c + j])) c.fail("element", fmt("%s: element (%d,%d) is ", what, i, j) + m.Value(i, j)->ToString() + " instead of " + show(s.d[i * s.c + j]));
    }
    // element values at a point through the library against the reference value of s
    void sameValue(const SymMat &m, const S &s, const char *what) {
        shape(m, s.r, s.c, what);
        for (int t = 0; t < 2; ++t) {
            Env e = point();
            SymMat n = m.Clone();
            Mat num(s.r, s.c, 0);
            bool threw = false;
            try { num = n.Subs(e).Calc().ToMat(); } catch (const MathError &) { threw = true; }
            if (threw) { c.event("invalid-values"); continue; }
            if (num.Rows() != s.r || num.Cols() != s.c) c.fail("shape", std::string(what) + ": evaluated matrix has another shape");
            for (int i = 0; i < s.r; ++i) for (int j = 0; j < s.c; ++j) {
                bool ok = true;
                VM w = evalVM(s.d[i * s.c + j], e, ok);
                if (!ok) continue;
                c.eval();
                double tol = exact && w.m < 1e15 ? 0 : 1e-13 * w.m * (s.d[i * s.c + j]->size + 4);
                if (!(std::fabs(num.Value(i, j) - w.v) <= tol)) c.fail("value", fmt("%s: element (%d,%d) evaluates to %.17g instead of %.17g, tolerance %.3g", what, i, j, num.Value(i, j), w.v, tol));
            }
        }
        for (auto &n : m.GetAllVarNames()) { std::set<std::string> u; for (auto &a : s.d) varsOf(a, u); if (!u.count(n)) c.fail("names", std::string(what) + ": mentions " + n); }
    }
};
static S sProd(const S &a, const S &b) {
    S s{a.r, b.c, {}};
    for (int i = 0; i < a.r; ++i) for (int j = 0; j < b.c; ++j) {
        A e;
        for (int k = 0; k < a.c; ++k) { A t = aBin(MUL, a.d[i * a.c + k], b.d[k * b.c + j]); e = e ? aBin(ADD, e, t) : t; }
        s.d.push_back(e);
    }
    return s;
}
static S sSub(const S &a, const S &b) { S s{a.r, a.c, {}}; for (size_t i = 0; i < a.d.size(); ++i) s.d.push_back(aBin(SUB, a.d[i], b.d[i])); return s; }
static std::string txt(const S &s) { std::string t = fmt("%dx%d[", s.r, s.c); for (auto &a : s.d) t += show(a) + ", "; return t + "]"; }

static void algebra(Ctx &c) {
    H h(c);
    Rng &r = c.rng;
    CfgGuard g;
    bool large = r.chance(1, 200); // both dimensions
    auto dim = [&] { return large ? r.range(11, 24) : r.chance(1, 150) ? r.range(11, 40) : r.chance(1, 15) ? r.range(6, 10) : r.range(1, 4); };
    S a = h.gen(dim(), dim()), b = h.gen(a.c, dim()), a2 = h.gen(a.r, a.c);
    if (a.r * b.c * a.c > 200) { b = h.gen(a.c, 1); }
    c.describe(txt(a) + " " + txt(b) + " " + txt(a2));
    c.sample(c.caseText);
    c.nontrivial(hashStr(c.caseText));
    SymMat A = h.lib(a), B = h.lib(b), A2 = h.lib(a2);
    h.sameStruct(A, a, "built matrix");
    SymMat P = A * B;
    h.sameValue(P, sProd(a, b), "product");
    h.sameStruct(A, a, "left operand of a product");
    h.sameStruct(B, b, "right operand of a product");
    SymMat D = A - A2;
    h.sameValue(D, sSub(a, a2), "difference");
    h.sameStruct(A, a, "left operand of a difference");
    h.sameStruct(A2, a2, "right operand of a difference");
    h.sameValue(A - A, sSub(a, a), "difference with itself");
    h.sameStruct(A, a, "operand of a difference with itself");
    if (a.r == a.c && a.r <= 16) { h.sameValue(A * A, sProd(a, a), "square"); h.sameStruct(A, a, "operand of a square"); }
    // the numeric path: evaluate first, then ordinary matrix algebra
    {
        Env e = h.point();
        try {
            Mat nA = A.Clone().Subs(e).Calc().ToMat(), nB = B.Clone().Subs(e).Calc().ToMat(), nA2 = A2.Clone().Subs(VarsTable(e)).Calc().ToMat();
            Mat p1 = nA * nB, p2 = P.Clone().Subs(e).Calc().ToMat(), d1 = nA - nA2, d2 = D.Clone().Subs(VarsTable(e)).Calc().ToMat();
            if (p1.Rows() != p2.Rows() || p1.Cols() != p2.Cols() || d1.Rows() != d2.Rows() || d1.Cols() != d2.Cols()) c.fail("commute", "shapes differ");
            for (int i = 0; i < p1.Rows(); ++i) for (int j = 0; j < p1.Cols(); ++j) {
                double m = 0;
                for (int k = 0; k < a.c; ++k) m += std::fabs(nA.Value(i, k) * nB.Value(k, j));
                c.eval();
                if (!(std::fabs(p1.Value(i, j) - p2.Value(i, j)) <= 1e-14 * (a.c + 2) * m)) c.fail("commute", fmt("product element (%d,%d): %.17g evaluating first, %.17g evaluating last", i, j, p1.Value(i, j), p2.Value(i, j)));
            }
            for (int i = 0; i < d1.Rows(); ++i) for (int j = 0; j < d1.Cols(); ++j) if (d1.Value(i, j) != d2.Value(i, j)) c.fail("commute", fmt("difference element (%d,%d): %.17g evaluating first, %.17g evaluating last", i, j, d1.Value(i, j), d2.Value(i, j)));
            c.event("commutations");
        } catch (const MathError &) { c.event("invalid-values"); }
    }
    // shape violations
    if (b.r != a.r || true) {
        S w = h.gen(a.c + r.range(1, 2), r.range(1, 3));
        SymMat W = h.lib(w);
        bool threw = false;
        c.eval();
        try { SymMat X = A * W; } catch (const MathError &e) { threw = e.GetErrorType() == ErrorType::SIZE_NOT_MATCH; } catch (const std::exception &) {}
        if (!threw) c.fail("shape-error", "a product of mismatching matrices does not throw SIZE_NOT_MATCH");
        h.sameStruct(A, a, "operand of a refused product");
        h.sameStruct(W, w, "operand of a refused product");
        if (a.c > 1 && b.c > 1 && b.c != a.r) {
            threw = false;
            try { SymMat X = B * A; } catch (const MathError &e) { threw = e.GetErrorType() == ErrorType::SIZE_NOT_MATCH; }
            if (!threw) c.fail("shape-error", "a product of mismatching matrices does not throw SIZE_NOT_MATCH");
        }
        c.event("refused-products");
    }
}
static void conversions(Ctx &c) {
    H h(c);
    Rng &r = c.rng;
    CfgGuard g;
    bool large = r.chance(1, 100), column = r.chance(1, 3);
    int rows = large ? r.range(9, 30) : r.range(1, 5);
    S a = h.gen(rows, column ? 1 : large ? r.range(9, 30) : r.range(1, 5));
    c.describe("conversions of " + txt(a));
    c.nontrivial(hashStr(c.caseText));
    SymMat A = h.lib(a);
    // copies are deep
    SymMat C = A.Clone();
    h.sameStruct(C, a, "clone");
    if (!(C == A)) c.fail("equality", "a clone is not equal");
    int i = r.range(0, a.r - 1), j = r.range(0, a.c - 1);
    C.Value(i, j) = Var("other");
    h.sameStruct(A, a, "original after its clone changed");
    c.eval();
    if (C == A) c.fail("equality", "matrices differing in one element are equal");
    C = A.Clone();
    C.Subs(h.point());
    h.sameStruct(A, a, "original after substitution in its clone");
    // shapes differ: not equal
    if (a.r != a.c) {
        S t{a.c, a.r, a.d};
        SymMat T = h.lib(t);
        if (T == A) c.fail("equality", "matrices of different shape are equal");
    }
    { // a row or column more, all common elements equal
        S more{a.r + 1, a.c, a.d}, wide{a.r, a.c + 1, {}};
        for (int j = 0; j < a.c; ++j) more.d.push_back(aNum(j));
        for (int i = 0; i < a.r; ++i) { for (int j = 0; j < a.c; ++j) wide.d.push_back(a.d[i * a.c + j]); wide.d.push_back(aVar("x")); }
        SymMat M = h.lib(more), W = h.lib(wide);
        if (A == M || M == A || A == W || W == A) c.fail("equality", "a matrix is equal to one with a row or column more");
    }
    { // one element exchanged for another that prints the same or nearly the same
        S t = a;
        size_t k = r.below(a.d.size());
        auto x = aVar("x"), y = aVar("y"), z = a.d[k], w = r.chance(1, 2) ? aNum(r.range(1, 9)) : aNum(r.uniform(0.1, 0.9));
        double v = w->v, up = std::nextafter(v, 9e9);
        using E = decltype(x);
        std::vector<std::pair<E, E>> alike{{aBin(ADD, z, aBin(ADD, x, y)), aBin(ADD, aBin(ADD, z, x), y)}, {aBin(MUL, x, aBin(MUL, z, y)), aBin(MUL, aBin(MUL, x, z), y)}, {aNum(-v), aUn(NEG, aNum(v))}, {aBin(ADD, z, aNum(v)), aBin(ADD, z, aNum(up))}, {z, aUn(POS, z)}, {aBin(SUB, z, x), aBin(ADD, z, aUn(NEG, x))}, {z, aBin(MUL, z, aNum(1))}, {aNum(1e-17), aNum(2e-17)}, {aBin(ADD, x, y), aBin(ADD, y, x)}};
        auto pr = r.pick(alike);
        S u = a;
        t.d[k] = pr.first; u.d[k] = pr.second;
        SymMat T = h.lib(t), U = h.lib(u), T2 = h.lib(t);
        c.eval();
        if (T == U || U == T || !(T == T2)) c.fail("equality", "wrong verdict for " + show(pr.first) + " and " + show(pr.second) + " as one element");
        // their difference is the difference of their values, to the last digit and where there is no valid value
        Config::Get().throwOnInvalidValue = false;
        for (int round = 0; round < 2; ++round) {
            SymMat V = round ? h.lib(t) : T.Clone(), W = round ? h.lib(t) : U.Clone();
            if (round && r.chance(1, 2)) { E bad = r.pick(std::vector<E>{aUn(LOG, aVar("x")), aBin(DIV, aNum(r.range(-1, 1)), aNum(0)), aUn(EXP, aNum(1000)), aNum(INFINITY), aUn(SQRT, aVar("y"))}); V.Value(k / t.c, k % t.c) = toNode(bad); W.Value(k / t.c, k % t.c) = toNode(bad); }
            Env e = h.point();
            if (round) for (auto &v : e) v.second = -v.second;
            Mat d = (V - W).Subs(e).Calc().ToMat(), vv = V.Clone().Subs(e).Calc().ToMat(), ww = W.Clone().Subs(e).Calc().ToMat();
            for (int x = 0; x < t.r; ++x) for (int y = 0; y < t.c; ++y) {
                double w = vv.Value(x, y) - ww.Value(x, y), g = d.Value(x, y);
                c.eval();
                c.event(std::isfinite(w) ? "exact-differences" : "invalid-differences");
                if (!(g == w || (g != g && w != w))) c.fail("difference", fmt("(%d,%d): ", x, y) + V.Value(x, y)->ToString() + " minus " + W.Value(x, y)->ToString() + fmt(" evaluates to %.17g instead of %.17g", g, w));
            }
        }
        Config::Get().throwOnInvalidValue = true;
    }
    { S t = h.gen(a.r, a.c); SymMat T = h.lib(t); bool e = true; for (size_t k = 0; k < a.d.size(); ++k) if (!sameAst(a.d[k], t.d[k])) e = false; if ((T == A) != e || (A == T) != e) c.fail("equality", "wrong verdict for " + txt(t)); }
    // flattening
    S flat{a.r * a.c, 1, a.d};
    SymVec F = A.ToSymVecOneByOne();
    h.sameStruct(F, flat, "flattened");
    for (int k = 0; k < F.Rows(); ++k) if (!eq(F[k], a.d[k])) c.fail("element", fmt("flattened element %d", k));
    F[0] = Num(12345);
    h.sameStruct(A, a, "original after its flattening changed");
    bool threw = false;
    try { SymVec v = A.ToSymVec(); h.sameStruct(v, a, "column as vector"); v[a.r - 1] = Num(777); h.sameStruct(A, a, "original after its vector changed"); } catch (const std::runtime_error &) { threw = true; }
    c.eval();
    if (threw != (a.c != 1)) c.fail("shape-error", threw ? "ToSymVec refuses a column" : "ToSymVec accepts several columns");
    h.sameStruct(A, a, "original after ToSymVec");
    // vectors
    S p = h.gen(r.range(1, 6), 1), q = h.gen(p.r, 1);
    SymVec P(p.r), Q(q.r);
    for (int k = 0; k < p.r; ++k) { P[k] = toNode(p.d[k]); Q[k] = toNode(q.d[k]); }
    SymVec D = P - Q;
    h.sameValue(D, sSub(p, q), "vector difference");
    h.sameStruct(P, p, "vector operand");
    h.sameStruct(Q, q, "vector operand");
    // initializer lists take the nodes
    { Node n0 = toNode(a.d[0]), n1 = Num(3), n2 = Var("w"); SymVec I{Move(n0), Move(n1), Move(n2)}; S w{3, 1, {a.d[0], aNum(3), aVar("w")}}; h.sameStruct(I, w, "vector from list"); }
    { SymMat I{{toNode(a.d[0]), Num(3)}, {Var("w"), Num(-1)}, {Num(0), Var("x")}}; S w{3, 2, {a.d[0], aNum(3), aVar("w"), aNum(-1), aNum(0), aVar("x")}}; h.sameStruct(I, w, "matrix from list"); }
    // ToMat only for numbers
    bool nums = true;
    for (auto &x : a.d) nums = nums && x->k == NUM;
    threw = false;
    try { Mat m = A.ToMat(); } catch (const std::runtime_error &) { threw = true; }
    c.eval();
    if (threw == nums) c.fail("to-mat", threw ? "ToMat refuses numbers" : "ToMat accepts expressions");
    h.sameStruct(A, a, "original after ToMat");
    // names
    std::set<std::string> u;
    for (auto &x : a.d) varsOf(x, u);
    c.eval();
    if (A.GetAllVarNames() != u) c.fail("names", "GetAllVarNames of " + A.ToString());
    // Calc: every element a number, or an error because of a variable
    {
        SymMat K = A.Clone();
        threw = false;
        try { SymMat &ref = K.Calc(); if (&ref != &K) c.fail("return", "Calc returns another object"); } catch (const std::runtime_error &) { threw = true; }
        bool valid = true;
        Env none;
        for (auto &x : a.d) evalAst(x, none, valid);
        c.eval();
        if (threw == (valid && u.empty()) ) c.fail("calc", threw ? "Calc refuses a numeric matrix" : "Calc accepts variables or invalid values");
        if (!threw) { Mat m = K.ToMat(); for (int x = 0; x < a.r; ++x) for (int y = 0; y < a.c; ++y) { bool ok = true; if (m.Value(x, y) != evalAst(a.d[x * a.c + y], none, ok)) c.fail("calc", fmt("element (%d,%d)", x, y)); } }
        h.sameStruct(A, a, "original after Calc of its clone");
    }
    // numbers to symbols and back
    Mat m(r.range(1, 5), r.range(1, 5), 0);
    for (int x = 0; x < m.Rows(); ++x) for (int y = 0; y < m.Cols(); ++y) m.Value(x, y) = genNumber(r, NP_WILD);
    SymMat s(m);
    Mat back = s.ToMat();
    c.eval();
    h.shape(s, m.Rows(), m.Cols(), "matrix of numbers");
    if (back.Rows() != m.Rows() || back.Cols() != m.Cols()) c.fail("shape", "numeric round trip");
    for (int x = 0; x < m.Rows(); ++x) for (int y = 0; y < m.Cols(); ++y) if (bitsOf(back.Value(x, y)) != bitsOf(m.Value(x, y))) c.fail("round-trip", fmt("element (%d,%d) %.17g became %.17g", x, y, m.Value(x, y), back.Value(x, y)));
    c.event("conversions");
    // partial substitution, then the rest, equals all at once
    Env e = h.point(), e1, e2;
    for (auto &v : e) (r.chance(1, 2) ? e1 : e2).insert(v);
    SymMat X = A.Clone(), Y = A.Clone();
    X.Subs(e1).Subs(e2);
    Y.Subs(e);
    c.eval();
    if (!(X == Y)) c.fail("substitution", "substituting in two steps differs");
    S sub{a.r, a.c, {}};
    std::map<std::string, h::A> mp;
    for (auto &v : e) mp[v.first] = aNum(v.second);
    for (auto &x : a.d) sub.d.push_back(subsAst(x, mp));
    h.sameStruct(Y, sub, "substituted");
}
static void jacobian(Ctx &c) {
    H h(c);
    Rng &r = c.rng;
    CfgGuard g;
    bool big = r.chance(1, 40);
    S f = h.gen(big ? r.range(9, 40) : r.range(1, 5), 1);
    std::vector<std::string> vars;
    int n = big ? r.range(9, 25) : r.range(1, 6);
    for (int i = 0; i < n; ++i) vars.push_back(r.chance(1, 8) ? "absent" : r.pick(VARS));
    std::string d = "Jacobian of " + txt(f) + " by";
    for (auto &v : vars) d += " " + v;
    c.describe(d);
    c.nontrivial(hashStr(d));
    SymVec F(f.r);
    for (int i = 0; i < f.r; ++i) F[i] = toNodeR(f.d[i], r);
    SymMat J = Jacobian(F, vars);
    h.shape(J, f.r, n, "Jacobian");
    h.sameStruct(F, f, "equations after Jacobian");
    SymMat J2 = Jacobian(h.lib(f), vars);
    if (!(J == J2)) c.fail("jacobian", "the Jacobian of the same column differs");
    for (int t = 0; t < 2; ++t) {
        Env e = h.point();
        e["absent"] = 1;
        for (int i = 0; i < f.r; ++i) for (int j = 0; j < n; ++j) {
            bool ok = true;
            Jet w = jetAst(f.d[i], e, vars[j], 1, ok);
            if (!ok) { c.event("outside-domain"); continue; }
            double v = libEval(J.Value(i, j), e, ok);
            c.eval();
            c.event("jacobian-entries");
            double tol = (double)(1e-11L * (w.m[1] + w.m[0] * 1e-3L));
            if (!ok || !(std::fabs(v - (double)w.c[1]) <= tol)) c.fail("jacobian", fmt("entry (%d,%d), ", i, j) + J.Value(i, j)->ToString() + fmt(", is %.17g instead of %.17Lg", v, w.c[1]));
        }
    }
    // the whole matrix evaluated at once gives the same numbers
    Env e = h.point();
    e["absent"] = 1;
    try {
        Mat m = J.Clone().Subs(e).Calc().ToMat();
        for (int i = 0; i < f.r; ++i) for (int j = 0; j < n; ++j) { bool ok = true; double v = libEval(J.Value(i, j), e, ok); c.eval(); if (ok && m.Value(i, j) != v) c.fail("jacobian", fmt("entry (%d,%d) evaluates to %.17g in the matrix and to %.17g alone", i, j, m.Value(i, j), v)); }
    } catch (const MathError &) {}
}
void runCase(Ctx &c) {
    algebra(c);
    conversions(c);
    jacobian(c);
}
#include "common_impl.h"
