// A deterministic program over the whole public interface, observed as text; shared by the thread, history,
// distribution and memory monitors.  Every step yields one line.
#pragma once
#include "problems.h"
namespace h {
using namespace tomsolver;
struct Work {
    Rng r;
    std::vector<std::string> lines; // results
    std::function<void()> between;  // called between steps (delays)
    std::function<void(const char *)> onStep;
    explicit Work(uint64_t seed) : r(seed) {}
    static std::string num(double v) { return num17(v) + " "; }
    static std::string text(const Mat &m) { std::string s = fmt("%dx%d:", m.Rows(), m.Cols()); for (int i = 0; i < m.Rows(); ++i) for (int j = 0; j < m.Cols(); ++j) s += num(m.Value(i, j)) + " "; return s; }
    static std::string text(const VarsTable &t) { std::string s; for (auto &e : t) s += e.first + "=" + num(e.second) + " "; return s + "| " + t.ToString(); }
    // structure with exact constants: print, and evaluate at a point
    static std::string text(const Node &n) { return n->ToString(); }
    static std::string errorText(const std::exception &e) {
        if (auto m = dynamic_cast<const MathError *>(&e)) return fmt("MathError %d ", (int)m->GetErrorType()) + m->what();
        if (auto p = dynamic_cast<const SingleParseError *>(&e)) return fmt("SingleParseError %d %d ", p->GetLine(), p->GetPos()) + p->what();
        if (dynamic_cast<const MultiParseError *>(&e)) return "MultiParseError " + std::string(e.what());
        if (dynamic_cast<const ParseError *>(&e)) return "ParseError " + std::string(e.what());
        if (dynamic_cast<const std::runtime_error *>(&e)) return "runtime_error";
        if (dynamic_cast<const std::out_of_range *>(&e)) return "out_of_range";
        return std::string("exception ") + typeid(e).name();
    }
    void step(const char *what, const std::function<std::string()> &f) {
        if (between) between();
        if (onStep) onStep(what);
        std::string s;
        Rng before = r;
        try { s = f(); } catch (const std::exception &e) { s = errorText(e); }
        lines.push_back(std::string(what) + ": " + s);
        if (!judgeRounding) return;
        static const std::set<std::string> iterative{"solve", "solve-initial", "solve-lm", "large-system", "line-search", "line-search-without-end", "failing-solve", "failing-lm", "no-root", "half-solve", "missing-variable"}, direct{"linear", "degenerate-linear", "singular-linear", "large-linear"};
        auto &cfg = Config::Get();
        if (direct.count(what) && cfg.epsilon < 1e-11) lines.back() = "~" + lines.back();
        if (!iterative.count(what)) return;
        Rng after = r;
        double keep = cfg.initialValue;
        for (double n : {1e-12, -1e-12, 1e-15}) {
            std::string t;
            r = before;
            nudge() = n;
            cfg.initialValue = nudged(keep);
            try { t = f(); } catch (const std::exception &e) { t = errorText(e); }
            nudge() = 0;
            cfg.initialValue = keep;
            if (!nearlySame(s, t)) { lines.back() = "~" + lines.back(); break; }
        }
        r = after;
    }
    bool judgeRounding = false; // mark results ("~") that a rounding error in an earlier step may decide
    static bool nearlySame(const std::string &a, const std::string &b) {
        const char *p = a.c_str(), *q = b.c_str();
        auto starts = [](const char *s) { return isdigit((unsigned char)*s) || ((*s == '-' || *s == '+') && isdigit((unsigned char)s[1])); };
        while (*p && *q) {
            if (starts(p) && starts(q)) {
                char *pe, *qe;
                double u = strtod(p, &pe), v = strtod(q, &qe);
                if (!(std::abs(u - v) <= 1e-10 * std::max(std::abs(u), std::abs(v)) + 1e-11)) return false;
                p = pe; q = qe;
            } else if (*p++ != *q++) return false;
        }
        return *p == *q;
    }
    A expr(int maxsize, bool smooth, bool vars = true, int prof = NP_MODERATE) {
        GenOpt o;
        o.size = r.range(1, maxsize);
        o.ops = smooth ? smoothOps() : allOps();
        if (vars) o.vars = {"x", "y", "z", "x1", "long_variable_name_that_needs_the_heap"};
        o.numProfile = prof;
        return genAst(r, o);
    }
    Env point() { Env e; for (auto v : {"x", "y", "z", "x1", "long_variable_name_that_needs_the_heap"}) e[v] = r.uniform(0.2, 3); return e; }
    static std::string damaged(Rng &r, std::string s) {
        static const std::string al = "()+-*/^%&|.,xsinlog10e 29_#$\x80";
        for (int k = r.range(1, 2); k > 0; --k) {
            size_t p = r.below(s.size() + 1);
            switch (r.below(3)) {
            case 0: if (p < s.size()) s.erase(p, 1); break;
            case 1: s.insert(p, 1, r.pick(al)); break;
            default: if (p < s.size()) s[p] = r.pick(al);
            }
        }
        return s;
    }
    // the same expression with one operand exchanged
    A altered(const A &a) {
        if (a->k == NUM) return r.chance(1, 2) ? aNum(a->v + 1) : aVar("x");
        if (a->k == VAR) return r.chance(1, 2) ? aVar(a->name + "_") : aNum(2);
        if (r.chance(1, 6)) { std::vector<int> same; for (int k = isBin(a->k) ? ADD : POS; k <= (isBin(a->k) ? MOD : EXP); ++k) if (k != a->k) same.push_back(k); return mk(r.pick(same), a->l, a->r); }
        if (!a->r || r.chance(1, 2)) return mk(a->k, altered(a->l), a->r);
        return mk(a->k, a->l, altered(a->r));
    }
    // something undefined put at a random place
    A spoiled(const A &a, const A &bad) {
        if (a->k <= VAR) return r.chance(1, 2) ? bad : aBin(ADD, bad, a);
        if (!a->r || r.chance(1, 2)) return mk(a->k, spoiled(a->l, bad), a->r);
        return mk(a->k, a->l, spoiled(a->r, bad));
    }
    // operations that stop half-way
    void failing() {
        switch (r.below(8)) {
        case 0: { A a = expr(30, false), b = altered(a); step("unequal", [&] { Node n = toNode(a), m = toNode(b); return fmt("%d%d", n->Equal(m), m->Equal(n)); }); step("equal-again", [&] { Node n = toNode(a), k = Clone(n); return fmt("%d%d", n->Equal(k), k->Equal(n)); }); break; }
        case 1: { A a = spoiled(expr(20, true), aBin(r.range(AND, MOD), aVar("x"), aNum(2))); step("undefined-derivative", [&] { return text(Diff(toNode(a), r.chance(1, 2) ? "x" : "y")); }); break; }
        case 2: { A a = spoiled(expr(20, true, false), aVar("x")); step("half-bound", [&] { Node n = toNode(a); return num(n->Vpa()); }); step("half-bound-calc", [&] { Node n = toNode(a); n->Calc(); return text(n); }); break; }
        case 3: { A a = spoiled(expr(20, true, false), r.chance(1, 2) ? aBin(DIV, aNum(1), aNum(0)) : aUn(LOG, aNum(-1))); step("invalid-inside", [&] { return num(toNode(a)->Vpa()); }); step("invalid-inside-calc", [&] { Node n = toNode(a); n->Calc(); return text(n); }); step("invalid-simplify", [&] { Node n = toNode(a); Simplify(n); return text(n); }); break; }
        case 4: { A a = expr(9, true), b = spoiled(expr(9, true), aBin(MOD, aVar("y"), aNum(2))); step("half-jacobian", [&] { return Jacobian(SymVec{toNode(a), toNode(b), toNode(a)}, {"x", "y"}).ToString(); }); step("half-solve", [&] { return text(Solve(SymVec{toNode(a), toNode(b)}, VarsTable(nudged(point())))); }); break; }
        case 5: {
            int n = r.range(2, 5), m = r.range(1, 6);
            Mat a(n, m), q(n, n);
            Vec b(n);
            for (int i = 0; i < n; ++i) { b[i] = r.range(-2, 2); for (int j = 0; j < m; ++j) a.Value(i, j) = r.range(0, 1); for (int j = 0; j < n; ++j) q.Value(i, j) = i == n - 1 ? q.Value(0, j) * 2 : r.range(-3, 3); }
            step("degenerate-linear", [&] { return text(SolveLinear(a, b)); });
            step("singular-linear", [&] { return text(SolveLinear(q, b)); });
            step("singular-inverse", [&] { return text(q.Inverse()); });
            step("not-a-vector", [&] { return text(a.ToVec()); });
            break;
        }
        case 6: {
            A a = expr(6, true), b = altered(a);
            step("matrix-comparison", [&] { SymMat x{{toNode(a), Num(1)}, {toNode(a), toNode(b)}}, y{{toNode(a), Num(1)}, {toNode(b), toNode(b)}}; SymMat z = x.Clone(); return fmt("%d%d%d", x == y, y == x, x == z); });
            step("matrix-shapes", [&] { SymMat x(1, 2), y(1, 2); for (int j = 0; j < 2; ++j) { x.Value(0, j) = toNode(a); y.Value(0, j) = toNode(b); } return (x * y).ToString(); });
            step("matrix-calc", [&] { SymMat x{{Num(1) + Num(2), toNode(a)}, {Num(2) / Num(0), toNode(b)}}; x.Calc(); return x.ToString(); });
            break;
        }
        default: {
            A a = spoiled(expr(5, true), aUn(LOG, aNum(-1)));
            step("failing-solve", [&] { return text(Solve(SymVec{toNode(a), toNode(expr(4, true))}, VarsTable(nudged(point())))); });
            step("failing-lm", [&] { return text(SolveByLM(SymVec{toNode(a)}, VarsTable(nudged(point())))); });
            step("no-root", [&] { return text(Solve(SymVec{(Var("x") ^ Num(2)) + Num(1)}, VarsTable{{"x", nudged(0.5)}})); });
            step("missing-variable", [&] { return text(Solve(SymVec{Var("x") - Num(2), Var("y") * Var("q")}, VarsTable{{"x", 1}, {"y", 2}})); });
        }
        }
    }
    static std::string fmtDiv(const Vec &u, const Vec &v) { return text(EachDivide(u, v)); }
    void one() {
        int op = (int)r.below(29);
        RenderOpt ro;
        ro.paren = r.range(0, 2); ro.space = r.range(0, 1); ro.altNames = r.chance(1, 2); ro.numAlt = r.chance(1, 2);
        switch (op) {
        case 0: { std::string s = render(expr(25, false), r, ro); step("parse", [&] { return text(Parse(s)); }); break; }
        case 1: { std::string s = damaged(r, render(expr(12, false), r, ro)); step("parse-damaged", [&] { return text(Parse(s)); }); break; }
        case 2: { A a = expr(25, false, true, NP_TEXT); step("build-print", [&] { Node n = toNodeR(a, r); std::ostringstream os; os << n; return text(n) + (os.str() == text(n) ? "" : " STREAM DIFFERS"); }); break; }
        case 3: { A a = expr(20, false, false, r.chance(1, 2) ? NP_WILD : NP_MODERATE); step("evaluate", [&] { return num(toNode(a)->Vpa()); }); step("calc", [&] { Node n = toNode(a); n->Calc(); return text(n); }); break; }
        case 4: { A a = expr(14, r.chance(9, 10)); std::string v = r.chance(1, 2) ? "x" : "y"; int k = r.chance(1, 6) ? 2 : 1; Env e = point(); step("diff", [&] { Node d = Diff(toNode(a), v, k); return text(d); }); step("diff-value", [&] { return num(Subs(Diff(toNode(a), v, 1), e)->Vpa()); }); break; }
        case 5: { A a = expr(25, false, true, NP_ZERO_ONE); step("simplify", [&] { Node n = toNode(a); Simplify(n); return text(n); }); break; }
        case 6: { A a = expr(20, false), b = expr(6, false); Env e = point(); step("subs", [&] { Node n = toNode(a); Node m = Subs(n, "x", toNode(b)); m = Subs(std::move(m), std::vector<std::string>{"y", "z"}, SymVec{Num(2), Var("x")}); return text(m) + " " + num(Subs(m, VarsTable(e))->Vpa()); }); break; }
        case 7: { A a = expr(20, false); step("names", [&] { std::string s; for (auto &v : toNode(a)->GetAllVarNames()) s += v + " "; return s; }); break; }
        case 8: { A a = expr(12, false), b = r.chance(1, 2) ? a : expr(12, false); step("equal", [&] { Node n = toNode(a), m = toNodeR(b, r); Node k = Clone(n); bool e1 = n->Equal(m), e2 = k->Equal(n); n += m; k = Move(n); return fmt("%d %d ", e1, e2) + text(k); }); break; }
        case 9: case 10: { Problem p = genProblem(r, -1, 3); step("solve", [&] { SymVec f = libEqs(p, r); return text(Solve(f, libTable(p, r))); }); break; }
        case 11: { Problem p = genProblem(r, (int)r.below(4), 3); std::set<std::string> used; for (auto &e : p.eq) varsOf(e, used); if (!used.empty()) step("solve-initial", [&] { return text(Solve(libEqs(p, r))); }); step("solve-lm", [&] { return text(SolveByLM(libEqs(p, r), VarsTable(nudged(p.start)))); }); break; }
        case 12: case 13: {
            int n = r.range(1, 5), m = r.chance(2, 3) ? n : r.range(1, 5);
            Mat a(m, n);
            Vec b(m);
            for (int i = 0; i < m; ++i) { b[i] = r.range(-9, 9); for (int j = 0; j < n; ++j) a.Value(i, j) = r.chance(1, 4) ? 0 : r.range(-4, 4); }
            step("linear", [&] { return text(SolveLinear(a, b)); });
            if (m == n) {
                step("det", [&] { return num(Det(a, n)); });
                step("inverse", [&] { return text(a.Inverse()); });
                step("definite", [&] { return fmt("%d", a.PositiveDetermine()); });
                step("algebra", [&] { Mat t = a.Transpose(); Mat q = t * a + a * 2.0 - t; q.SwapRow(0, n - 1); return text(q) + num(q.Norm2()) + " " + num(q.Min()) + q.ToString(); });
            }
            break;
        }
        case 14: { int n = r.range(1, 4); Vec u(n), v(n); for (int i = 0; i < n; ++i) { u[i] = genNumber(r, NP_TEXT); v[i] = r.range(1, 9); } step("vectors", [&] { return fmtDiv(u, v) + num(Dot(u, v)) + u.ToString(); }); break; }
        case 15: { // symbolic matrices
            int a = r.range(1, 3), b = r.range(1, 3), d = r.range(1, 3);
            std::vector<A> e;
            for (int i = 0; i < a * b + b * d; ++i) e.push_back(expr(5, true, r.chance(2, 3)));
            Env pt = point();
            step("symbolic-matrix", [&] {
                SymMat X(a, b), Y(b, d);
                for (int i = 0; i < a * b; ++i) X.Value(i / b, i % b) = toNode(e[i]);
                for (int i = 0; i < b * d; ++i) Y.Value(i / d, i % d) = toNode(e[a * b + i]);
                SymMat P = X * Y;
                std::string s = P.ToString() + (X - X).ToString() + X.ToSymVecOneByOne().ToString();
                return s + text(P.Clone().Subs(pt).Calc().ToMat());
            });
            break;
        }
        case 16: { std::vector<A> e; int n = r.range(1, 3); for (int i = 0; i < n; ++i) e.push_back(expr(9, r.chance(9, 10))); step("jacobian", [&] { SymVec f(n); for (int i = 0; i < n; ++i) f[i] = toNode(e[i]); return Jacobian(f, {"x", "y", "x1"}).ToString(); }); break; }
        case 17: { Env e = point(); double v = r.uniform(-9, 9); step("table", [&] { VarsTable t(e), u(std::vector<std::string>{"q", "b"}, v); std::string s = text(t) + text(u) + fmt("%d%d", t.Has("x"), t == u); Vec w(2); w[0] = v; w[1] = 2; u.SetValues(w); s += text(u); return s + num(t["absent"]); }); break; }
        case 18: { double v = genNumber(r, NP_TEXT); step("number", [&] { return tomsolver::ToString(v); }); std::string nm = r.chance(1, 2) ? genName(r) : damaged(r, genName(r)); step("name", [&] { return text(Var(nm)); }); break; }
        case 19: { // every matrix operation
            int n = r.range(1, 4), m = r.range(1, 4);
            Mat a(n, m, 0), b(n, m, 0), q(m, n, 0);
            bool wild = r.chance(1, 4), tiny = r.chance(1, 5);
            for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { a.Value(i, j) = wild ? genNumber(r, NP_WILD) : r.range(-5, 5); b.Value(i, j) = r.chance(1, 3) ? a.Value(i, j) : r.range(-5, 5); if (tiny) { a.Value(i, j) = r.chance(1, 3) ? 0 : std::pow(10.0, -r.uniform(1, 12)); b.Value(i, j) = a.Value(i, j) + (r.chance(1, 2) ? 0 : std::pow(10.0, -r.uniform(1, 12))); } q.Value(j, i) = r.uniform(-3, 3); }
            double k = r.uniform(-3, 3);
            int i1 = r.range(0, n - 1), i2 = r.range(0, n - 1), j1 = r.range(0, m - 1), j2 = r.range(0, m - 1), rn = r.range(1, 6), rm = r.range(1, 6), st = r.range(0, n - 1);
            step("matrix-1", [&] { return text(a + b) + text(a - b) + text(-a) + text(a * k) + text(k * a) + text(a * q) + text(a.Transpose()) + text(EachDivide(a, b)); });
            step("matrix-2", [&] { Mat c = a; c += b; c.SwapRow(i1, i2); std::string s = text(c); c.SwapCol(j1, j2); s += text(c); c.Resize(rn, rm); s += text(c); c.SetValue(k); s += text(c); c.Zero(); s += text(c); Mat o(n, n); o.Ones(); return s + text(o); });
            step("matrix-3", [&] { return num(a.Norm2()) + num(a.NormInfinity()) + num(a.NormNegInfinity()) + num(a.Min()) + fmt(" %d%d%d%d%d ", a == b, a == 0, IsZero(a - b) + 2 * IsZero(a), AllIsLessThan(a, b), GetMaxAbsRowIndex(a, st, n - 1, j1)) + a.ToString(); });
            step("matrix-4", [&] { std::valarray<double> x = a.Row(i1), y = a.Col(j1); Mat c = a; c.Row(i2) = x; c.Col(j2) = y; std::string s = text(c); std::ostringstream os; os << c; return s + os.str() + text(Mat(n, m, std::valarray<double>(k, n * m))); });
            step("matrix-5", [&] { return text(a.ToVec()); });
            if (n > 1 && n <= m) step("matrix-6", [&] { Mat t(n - 1, n - 1); GetCofactor(a, t, i1, i2, n); Mat sq(n, n, 0), adj(n, n, 0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sq.Value(i, j) = a.Value(i, j); Adjoint(sq, adj); return text(t) + text(adj); });
            step("vector-2", [&] { Vec u(n), v(n); for (int i = 0; i < n; ++i) { u[i] = a.Value(i, 0); v[i] = b.Value(i, 0); } std::string s = text(u + v) + text(u - v) + text(-u) + text(u * k) + text(k * u) + text(u * v) + text(u / v) + num(Dot(u, v)) + fmt("%d%d", u < v, u == v); u.Resize(rn); return s + text(u) + text(u.AsMat()); });
            break;
        }
        case 20: { // token soup
            static const char *const tk[] = {"x", "1", ".5", "2e3", "1e-5", "(", ")", "+", "-", "*", "/", "^", "%", "&", "|", "sin", "log2", "arctan", " ", "sqrt(", "y_1", ",", "1.2.3", "7a", "exp", "\t", "\n"};
            std::string s;
            for (int k = r.range(0, 9); k > 0; --k) s += tk[r.below(sizeof tk / sizeof *tk)];
            step("soup", [&] { return text(Parse(s)); });
            step("soup-c-string", [&] { return text(Parse(s.c_str())); });
            break;
        }
        case 21: { // evaluation of the integer operators and special functions
            A a = aBin(r.range(AND, MOD), expr(6, false, false, NP_WILD), expr(4, false, false, NP_WILD));
            step("integer-operators", [&] { Node n = toNode(a); std::string s = text(n); return s + num(n->Vpa()); });
            break;
        }
        case 22: { // errors of the constructors and evaluators
            A a = expr(8, true);
            step("unbound", [&] { return num(toNode(a)->Vpa()); });
            step("unbound-calc", [&] { Node n = toNode(a); n->Calc(); return text(n); });
            step("unbound-matrix", [&] { SymMat m(1, 2); m.Value(0, 0) = toNode(a); m.Value(0, 1) = Num(2); std::string s = fmt("%d", m.Empty()); return s + text(m.ToMat()); });
            step("not-a-column", [&] { SymMat m(1, 2); m.Value(0, 0) = toNode(a); m.Value(0, 1) = Num(2); return m.ToSymVec().ToString(); });
            step("operator-node", [&] { Node n = internal::Operator(MathOperator::MATH_ADD, toNode(a), Num(1)); return text(n); });
            break;
        }
        case 23: { // literals, initialiser lists, small helpers
            double a = genNumber(r, NP_MODERATE), b = genNumber(r, NP_TEXT), k = r.range(-3, 9);
            A e1 = expr(5, true), e2 = expr(4, true);
            step("initialiser-lists", [&] {
                Mat m{{a, b, k}, {1, a}, {k}};
                Vec v{a, k, b, 2};
                SymMat s{{toNode(e1), Num(a)}, {Var("x"), toNode(e2)}};
                SymVec q{toNode(e1), toNode(e2), Num(k)};
                VarsTable t{{"x", a}, {"y", k}};
                std::ostringstream os;
                os << m << v << s << q << t;
                SymMat w(m);
                std::string names;
                for (auto &n : s.GetAllVarNames()) names += n + " ";
                return text(m) + text(v) + text(t) + names + s.ToString() + w.ToString() + (q - q).ToString() + os.str();
            });
            step("literal", [&] { std::string s = toNode(e1)->ToString(); return text(operator""_f(s.c_str(), s.size())) + num(radians(a + 0)) + num(degrees(b + 0)); });
            step("errors", [&] { std::string s; for (int i = 0; i <= (int)ErrorType::SIZE_NOT_MATCH; ++i) s += GetErrorInfo((ErrorType)i) + ";"; MathError e(ErrorType::ERROR_SINGULAR_MATRIX, num(b)); return s + e.what(); });
            step("objects", [&] {
                Node n = toNode(e1), m = toNode(e2);
                internal::NodeImpl x(*n), y(std::move(*m));
                std::string s = x.ToString() + y.ToString();
                y = x;
                x = std::move(y);
                return s + x.ToString() + fmt("%d", x.Equal(n));
            });
            step("line-search", [&] {
                Vec x{nudged(a), nudged(k)}, d{0.5, b};
                auto F = [k](Vec v) { Vec y(2); y[0] = std::cos(v[0] * 9) + k; y[1] = v[1] - std::sin(30 * v[0]); return y; };
                return num(FindAlpha(x, d, F));
            });
            int halvings = r.range(0, 9) * r.range(1, 9);
            double at = r.range(-9, 9), gap = r.range(1, 9);
            step("line-search-by-gradient", [&] { // the step must become 2^-halvings times as long; powers of two, so nothing is rounded
                double slope = std::ldexp(1.0, -halvings);
                auto F = [=](Vec v) { return Vec{std::abs(v[0] - at - gap)}; };
                auto dF = [=](Vec) -> Mat { return Vec{-slope}; };
                Vec x{at}, d{gap / slope};
                double al = Armijo(x, d, F, dF);
                return fmt("%.17g %.17g", al, std::log2(al));
            });
            double pick = r.range(1, 5);
            step("line-search-without-end", [&] { // no step decreases both components; counts the calls
                int calls = 0;
                auto F = [&calls, k](Vec v) { ++calls; double q = v[0] * v[0] + 1; return Vec{q, k - q}; };
                Vec x{0.25 * pick}, d{1};
                double al = FindAlpha(x, d, F, 1e-13);
                return num(calls > 90 ? 0 : al) + fmt("%d", calls > 90 ? calls : 0);
            });
            break;
        }
        case 24: { // larger objects
            switch (r.below(6)) {
            case 3: { // long vectors, wide and tall matrices
                int n = r.range(9, 70), m = r.range(1, 40), at = r.range(0, n - 1), to = r.range(0, n - 1);
                std::vector<double> x(n), y(n), z(m);
                for (double &v : x) v = r.range(-9, 9) / 4.0;
                for (double &v : y) v = r.range(1, 30) / 2.0;
                for (double &v : z) v = r.range(-5, 5);
                double k = r.uniform(-2, 2);
                step("long-vectors", [&] {
                    Vec u(n), v(n);
                    for (int i = 0; i < n; ++i) { u[i] = x[i]; v[i] = y[i]; }
                    Vec w = (u + v * k) - u * u / v;
                    std::string s = text(w) + num(Dot(u, v)) + num(u.Norm2()) + num(v.NormNegInfinity()) + num((-u).NormInfinity()) + num(w.Min()) + text(EachDivide(u, v)) + text(u.AsMat().ToVec()) + u.ToString();
                    s += text(u.AsMat().Transpose()) + text((u.AsMat() * Mat(1, m, 1.5)).Transpose() * v.AsMat()) + fmt("%d%d%d", u == v, IsZero(u - u), AllIsLessThan(u, v + u));
                    return s;
                });
                step("long-matrix", [&] {
                    Mat a(n, m, 0);
                    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a.Value(i, j) = x[i] + y[(i + j) % n] * z[j];
                    Mat b = a * 2.0 - a;
                    b.SwapRow(at, to);
                    b.SwapCol(0, m - 1);
                    std::valarray<double> row = b.Row(at), col = b.Col(m / 2);
                    a.Row(to) = row;
                    a.Col(0) = col;
                    b += a;
                    bool same = b == a;
                    a.Resize(n + 3, std::max(1, m - 2));
                    std::ostringstream os;
                    os << b;
                    return text(a) + os.str() + num(b.Norm2()) + num(b.NormInfinity()) + num(b.Min()) + fmt("%d%d", same, GetMaxAbsRowIndex(b, 0, n - 1, m - 1));
                });
                step("long-symbolic-vector", [&] {
                    SymVec f(n);
                    for (int i = 0; i < n; ++i) f[i] = Var(fmt("v%d", (i * 7) % n)) * Num(x[i]) + Num(y[i]);
                    std::vector<std::string> some{fmt("v%d", at), fmt("v%d", to), "w"};
                    std::string s = Jacobian(f, some).ToString();
                    auto all = f.GetAllVarNames();
                    VarsTable t(std::vector<std::string>(all.begin(), all.end()), k);
                    s += text(t) + fmt("%d", t.Has(some[0]));
                    for (auto &v : all) s += v + " ";
                    SymMat q = (f - f).Clone();
                    return s + q.ToString() + text(f.Clone().Subs(t).Calc().ToMat());
                });
                break;
            }
            case 4: { // tables with many names: copies, exchange, refreshed values
                int n = r.range(2, 30);
                std::map<std::string, double> p, q;
                for (int i = 0; i < n; ++i) { p[fmt("t%d", r.range(0, 40))] = r.uniform(-4, 4); q[fmt("t%d", r.range(0, 40))] = r.uniform(-4, 4); }
                step("many-names", [&] {
                    VarsTable a(p), b(q);
                    std::string s, nm = p.begin()->first;
                    s += num(a[nm]);
                    std::swap(a, b);
                    s += num(b[nm]) + fmt("%d", a.Has(nm));
                    a = b;
                    s += num(a[nm]) + text(a) + text(b) + fmt("%d", a == b);
                    a.SetValues(a.Values() * 2.0);
                    for (auto &v : a) s += v.first + num(v.second);
                    return s + num(a[nm]) + fmt("%d", a == b) + num(b["absent"]);
                });
                break;
            }
            case 0: { A a = expr(120, false); Env e = point(); step("large-expression", [&] { Node n = toNode(a); Node m = Clone(n); bool same = m->Equal(n); Simplify(m); return fmt("%d ", same) + text(n) + text(m) + num(Subs(m, e)->Vpa()); }); break; }
            case 1: { Problem p = genProblem(r, r.chance(1, 2) ? 2 : 0, 8); step("large-system", [&] { return text(Solve(libEqs(p, r), libTable(p, r))); }); break; }
            case 2: {
                int n = r.range(6, 14), m = n + (r.chance(1, 4) ? r.range(0, 2) : 0);
                Mat a(n, m);
                Vec b(n);
                for (int i = 0; i < n; ++i) { b[i] = r.uniform(-9, 9); for (int j = 0; j < m; ++j) a.Value(i, j) = r.uniform(-4, 4) + (i == j ? 30 : 0); }
                step("large-linear", [&] { return text(SolveLinear(a, b)); });
                step("large-product", [&] { Mat t = a.Transpose(); return text(a * t) + num((a * t).Norm2()); });
                break;
            }
            default: { A a = expr(60, false); std::string s = render(a, r, ro); step("large-text", [&] { return text(Parse(s)); }); std::string d = damaged(r, s); step("large-text-damaged", [&] { return text(Parse(d)); }); break; }
            }
            break;
        }
        case 25: case 26: case 27: failing(); break;
        default: { // a chain of everything on one expression
            A a = expr(10, true);
            Env e = point();
            step("chain", [&] {
                Node n = Parse(toNode(a)->ToString());
                Node d = Diff(n, "x") + Diff(n, "y", 1) * n;
                Simplify(d);
                Node c = Clone(d);
                c = Subs(std::move(c), std::map<std::string, Node>());
                c *= Num(2);
                std::string s = text(c);
                return s + " " + num(Subs(c, e)->Vpa());
            });
        }
        }
    }
    void run(int n) { for (int i = 0; i < n; ++i) one(); }
    // decisions taken exactly at, just below and just above the tolerance
    void atTolerance() {
        double eps = Config::Get().epsilon, sgn = r.chance(1, 2) ? -1 : 1;
        std::vector<double> at{eps * sgn, std::nextafter(eps, 0) * sgn, std::nextafter(eps, 1) * sgn, 0.0};
        int n = r.range(1, 3);
        step("tolerance-tables", [&] { std::string s; for (double v : at) { VarsTable t(std::vector<std::string>{"x", "y"}, 0), u(std::map<std::string, double>{{"x", 0}, {"y", v}}); s += fmt("%d%d%d ", t == u, u == t, u == u); } return s; });
        step("tolerance-matrices", [&] { std::string s; for (double v : at) { Mat a(n, n, 0), b(n, n, 0); b.Value(n - 1, 0) = v; s += fmt("%d%d%d%d%d ", a == b, b == a, b == 0, IsZero(b), IsZero(a - b)); } return s; });
        step("tolerance-vectors", [&] { std::string s; for (double v : at) { Vec a(n), b(n); for (int i = 0; i < n; ++i) a[i] = b[i] = 0; b[n - 1] = v; s += fmt("%d%d%d%d ", a == b, b < a, a < b, IsZero(b.AsMat())); } return s; });
        step("tolerance-inverse", [&] { std::string s; for (double v : at) { Mat a(n, n, 0); for (int i = 0; i < n; ++i) a.Value(i, i) = 1; a.Value(n - 1, n - 1) = v; try { s += text(a.Inverse()); } catch (const std::exception &e) { s += errorText(e); } s += num(Det(a, n)); } return s; });
        step("tolerance-linear", [&] { std::string s; for (double v : at) { Mat a(2, 2, 0); a.Value(0, 0) = 1; a.Value(1, 1) = v; Vec b(2); b[0] = 1; b[1] = v; try { s += text(SolveLinear(a, b)); } catch (const std::exception &e) { s += errorText(e); } b[1] = 1; try { s += text(SolveLinear(a, b)); } catch (const std::exception &e) { s += errorText(e); } } return s; });
        step("tolerance-numbers", [&] { std::string s; for (double v : at) { Node x = Num(v) + Var("x"), y = Num(0) + Var("x"); s += fmt("%d%d ", x->Equal(y), Num(v)->Equal(Num(0))); Simplify(x); s += text(x) + " " + text(Num(1 + v)) + " "; Node z = Num(v) * Var("x") + Var("x") * Num(1 + v) + (Var("x") ^ Num(1 + v)) + (Var("x") ^ Num(v)); Simplify(z); s += text(z) + " "; } return s; });
        step("tolerance-start", [&] { std::string s; for (double v : at) { SymVec f{Var("x") - Num(2)}; try { s += text(Solve(f, VarsTable{{"x", 2 + v}})); } catch (const std::exception &e) { s += errorText(e); } } return s; });
    }
};
} // namespace h
