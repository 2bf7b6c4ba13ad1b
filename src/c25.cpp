// C25: the work of every operation is proportional to the size of its operands (a logical clock, see c25/clock.cpp).
#include "common.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C25";
extern uint64_t workBlocks, workBytes;
static uint64_t now() { return workBlocks + workBytes / 8 + 20 * allocCount.load(); }

struct Probe { // what is measured for one size; returns the work of each named operation
    std::vector<std::pair<std::string, uint64_t>> w;
    uint64_t t;
    bool skipped = false;
    template <class F> auto operator()(const char *name, F f) -> decltype(f()) {
        struct Stop { Probe *p; const char *n; uint64_t t; ~Stop() { p->w.emplace_back(n, now() - t); } } s{this, name, now()};
        return f();
    }
};
struct Family {
    std::string name;
    int n;       // smallest size; 2n, 4n, 8n follow
    double p;    // the work may grow with this power of the size
    std::function<void(Probe &, int, Rng &)> run;
};
static void expressionOps(Probe &P, Node n, bool diff, bool parse = true) {
    std::set<std::string> names = P("names", [&] { return n->GetAllVarNames(); });
    Node k = P("copy", [&] { return Clone(n); });
    P("equal", [&] { return k->Equal(n); });
    std::string t = P("print", [&] { return n->ToString(); });
    P("stream", [&] { std::ostringstream os; os << n; return os.str().size(); });
    if (parse) { Node q = P("parse", [&] { return Parse(t); }); P("destroy parsed", [&] { q.reset(); }); }
    std::map<std::string, double> at;
    for (auto &v : names) at[v] = 0.75;
    if (!names.empty()) {
        Node s = P("substitute numbers", [&] { return Subs(n, at); });
        P("evaluate", [&] { try { s->Vpa(); } catch (const MathError &) {} });
        P("calculate", [&] { try { s->Calc(); } catch (const MathError &) {} });
        P("substitute expression", [&] { return Subs(n, *names.begin(), Var("w") + Num(1)); });
        P("substitute consuming", [&] { return Subs(Clone(n), *names.rbegin(), Num(2)); });
        P("evaluate unbound", [&] { try { n->Vpa(); } catch (const std::runtime_error &) {} });
        std::vector<std::string> old(names.begin(), names.end());
        SymVec nw((int)old.size());
        for (int i = 0; i < nw.Rows(); ++i) nw[i] = Num(i);
        P("substitute lists", [&] { return Subs(n, old, nw); });
        VarsTable vt(at);
        P("substitute table", [&] { return Subs(n, vt); });
        Node d = Subs(Clone(n), *names.begin(), Num(0));
        P("unequal", [&] { return d->Equal(n); });
    }
    P("simplify", [&] { Node z = Clone(n); Simplify(z); return z; });
    if (diff) {
        P("differentiate", [&] { return Diff(n, names.empty() ? "x" : *names.begin()); });
        P("differentiate by another", [&] { return Diff(n, "absent"); });
        P("differentiate twice", [&] { return Diff(n, names.empty() ? "x" : *names.begin(), 2); });
    }
    P("combine", [&] { Node a = std::move(n) + std::move(k); a *= Num(2); Node b = -std::move(a); b.reset(); });
}
static Node wrap(int k, int side, Node deep, Node leaf) {
    switch (k) {
    case POS: return +std::move(deep);
    case NEG: return -std::move(deep);
    case SIN: return tomsolver::sin(std::move(deep));
    case ATAN: return tomsolver::atan(std::move(deep));
    case SQRT: return tomsolver::sqrt(std::move(deep));
    case EXP: return tomsolver::exp(std::move(deep));
    }
    Node a = side ? std::move(leaf) : std::move(deep), b = side ? std::move(deep) : std::move(leaf);
    switch (k) {
    case ADD: return std::move(a) + std::move(b);
    case SUB: return std::move(a) - std::move(b);
    case MUL: return std::move(a) * std::move(b);
    case DIV: return std::move(a) / std::move(b);
    case POW: return std::move(a) ^ std::move(b);
    }
    return internal::Operator(libOp(k), std::move(a), std::move(b));
}
static Node balanced(const std::vector<int> &ks, int lo, int hi, const std::function<Node(int)> &leaf) {
    if (hi - lo == 1) return leaf(lo);
    int mid = (lo + hi) / 2;
    return wrap(ks[mid % ks.size()], 0, balanced(ks, lo, mid, leaf), balanced(ks, mid, hi, leaf));
}
static std::vector<Family> families(bool th) {
    std::vector<Family> F;
    int N = th ? 4000 : 1000;
    auto x = [](int) { return Var("x"); };
    auto some = [](int i) { return i % 3 == 0 ? Var("x") : i % 3 == 1 ? Var(fmt("y%d", i % 7)) : Num(i % 5 + 0.5); };
    auto distinct = [](int i) { return Var(fmt("name_%d", i)); };
    auto constant = [](int i) { return Num(1 + i % 3 * 0.25); };
    auto bits = [](int i) { return Num(i % 2); };
    using L = std::function<Node(int)>;
    std::vector<std::pair<std::string, L>> leaves{{"x", x}, {"mixed", some}, {"distinct", distinct}, {"constant", constant}, {"0/1", bits}};
    struct Chain { const char *name; std::vector<std::pair<int, int>> ks; bool diff; };
    std::vector<Chain> chains{
        {"left +", {{ADD, 0}}, true}, {"right +", {{ADD, 1}}, true}, {"left -", {{SUB, 0}}, true}, {"right -", {{SUB, 1}}, true}, {"left *", {{MUL, 0}}, false}, {"right *", {{MUL, 1}}, false},
        {"left /", {{DIV, 0}}, false}, {"right /", {{DIV, 1}}, false}, {"left ^", {{POW, 0}}, false}, {"right ^", {{POW, 1}}, false}, {"left &", {{AND, 0}}, false}, {"right |", {{OR, 1}}, false}, {"left %", {{MOD, 0}}, false}, {"right %", {{MOD, 1}}, false},
        {"negations", {{NEG, 0}}, true}, {"plus signs", {{POS, 0}}, true}, {"sines", {{SIN, 0}}, false}, {"alternating + *", {{ADD, 0}, {MUL, 1}}, false}, {"zigzag", {{ADD, 0}, {SUB, 1}}, true}, {"signs and sums", {{NEG, 0}, {ADD, 1}, {POS, 0}, {SUB, 0}}, true}, {"functions and products", {{ATAN, 0}, {MUL, 0}, {EXP, 0}, {DIV, 1}}, false}, {"powers of sums", {{POW, 0}, {ADD, 0}}, false}, {"powers of negations", {{NEG, 0}, {POW, 0}}, false}};
    for (auto &ch : chains) for (auto &lf : leaves) {
        Chain c = ch;
        L leaf = lf.second;
        F.push_back({"chain of " + std::string(c.name) + ", leaves " + lf.first, N, 1, [=](Probe &P, int n, Rng &) {
            Node e = P("build", [&] { Node e = leaf(0); for (int i = 1; i <= n; ++i) { auto k = c.ks[i % c.ks.size()]; e = wrap(k.first, k.second, std::move(e), isBin(k.first) ? leaf(i) : nullptr); } return e; });
            expressionOps(P, std::move(e), c.diff);
        }});
    }
    for (auto &lf : leaves) {
        L leaf = lf.second;
        for (auto &ks : std::vector<std::vector<int>>{{ADD}, {SUB}, {MUL}, {DIV}, {POW}, {AND}, {MOD}, {ADD, MUL}, {ADD, SUB, MUL, DIV, POW}, {SUB, DIV}})
            F.push_back({std::string("balanced tree of ") + opText(ks[0]) + fmt(" (%d kinds), leaves ", (int)ks.size()) + lf.first, N, 1, [=](Probe &P, int n, Rng &) {
                Node e = P("build", [&] { return balanced(ks, 0, n, leaf); });
                expressionOps(P, std::move(e), ks == std::vector<int>{ADD} || ks == std::vector<int>{SUB});
            }});
        // sums of terms of bounded size: differentiating is linear, too
        F.push_back({"sum of terms, leaves " + lf.first, N / 4, 1, [=](Probe &P, int n, Rng &) {
            Node e = P("build", [&] { Node e = Num(0.5); for (int i = 0; i < n; ++i) e += tomsolver::sin(leaf(i) * Num(3)) * (leaf(i + 1) ^ Num(2)) / (tomsolver::exp(leaf(i)) + Num(1)) - (leaf(i) ^ leaf(i + 2)); return e; });
            expressionOps(P, std::move(e), true);
        }});
    }
    for (auto &lf : leaves) { // random shapes, the same in every size up to its length
        L leaf = lf.second;
        for (int s = 0; s < 4; ++s)
            F.push_back({fmt("random tree %d, leaves ", s) + lf.first, N, 1, [=](Probe &P, int n, Rng &r) {
                Rng q = r;
                std::vector<Node> pool;
                for (int i = 0; i < n; ++i) {
                    Node e = leaf((int)q.below(50));
                    for (int d = q.range(0, 12); d > 0; --d) { int k = s == 0 ? q.range(ADD, DIV) : s == 1 ? q.pick(std::vector<int>{ADD, SUB, NEG, SIN, MUL}) : s == 2 ? q.range(ADD, MOD) : q.range(POS, MOD); if (isUn(k) && k != POS && k != NEG && k != SIN && k != ATAN && k != SQRT && k != EXP) k = SIN; e = wrap(k, (int)q.below(2), std::move(e), isBin(k) ? leaf((int)q.below(50)) : nullptr); }
                    pool.push_back(std::move(e));
                }
                while (pool.size() > 1) { size_t i = q.below(pool.size() - 1); int k = s == 3 ? q.range(ADD, POW) : q.range(ADD, MUL); Node a = std::move(pool[i]), b = std::move(pool.back()); pool.pop_back(); pool[i] = wrap(k, (int)q.below(2), std::move(a), std::move(b)); }
                expressionOps(P, std::move(pool[0]), false);
            }});
    }
    // texts
    struct Text { const char *name, *open, *unit, *close, *end; };
    for (auto &t : std::vector<Text>{{"sum", "", "x+", "", "1"}, {"leading zeros", "", "0", "", "1"}, {"fraction digits", "0.", "", "", ""}, {"long name", "", "n", "", "q"}, {"blanks", "", " ", "", "x"}, {"lines", "", "x+\n", "", "y"}, {"parentheses", "", "(", ")", "x"}, {"functions", "", "sin(", ")", "x"}, {"prefix", "", "sin ", "", "x"}, {"signs", "", "-", "", "x"}, {"minus", "", "x-", "", "(-1)"}, {"powers", "", "2^", "", "x"}, {"nested sums", "", "(x+", ")", "y"}, {"products of sums", "", "(x+1)*", "", "y"}, {"literals", "", "0.25*1e-3+", "", ".5"}, {"names", "", "long_name_1-Q*", "", "z"}, {"mixed", "", "-sin(2*x)^2/(y%3|1)+", "", "8"}})
        F.push_back({std::string("text: ") + t.name, N, 1, [=](Probe &P, int n, Rng &) {
            std::string s = t.open, c;
            for (int i = 0; i < n; ++i) { s += *t.unit ? t.unit : "3"; c += t.close; }
            s += t.end + c;
            Node e = P("parse", [&] { return Parse(s); });
            Node f = P("parse C string", [&] { return Parse(s.c_str()); });
            P("print", [&] { return e->ToString(); });
            P("destroy", [&] { e.reset(); f.reset(); });
            std::string bad = s + " ) ";
            P("parse rejected text", [&] { try { Parse(bad); } catch (const std::runtime_error &) {} });
            bad = "* " + s;
            P("parse rejected at the start", [&] { try { Parse(bad); } catch (const std::runtime_error &) {} });
            bad = s + "+$";
            P("parse with a wrong character", [&] { try { Parse(bad); } catch (const std::runtime_error &) {} });
        }});
    F.push_back({"long names and many of them", N / 8, 1, [](Probe &P, int n, Rng &) {
        std::map<std::string, double> m;
        std::vector<std::string> names;
        for (int i = 0; i < n; ++i) { names.push_back(fmt("quite_a_long_variable_name_%d", i * 7919 % n)); m[names.back()] = i; }
        VarsTable t = P("table of a map", [&] { return VarsTable(m); });
        VarsTable u = P("table of names", [&] { return VarsTable(names, 2.0); });
        P("lookups (names times table)", [&] { double s = 0; for (auto &v : names) s += t[v] + u.Has(v) + !t.Has(v + "x"); return s; });
        Vec v(n);
        P("set values", [&] { t.SetValues(v); });
        P("print table", [&] { return t.ToString(); });
        P("compare tables", [&] { return t == u; });
        P("copy table", [&] { return VarsTable(t); });
        P("iterate", [&] { double s = 0; for (auto &q : u) s += q.second; return s; });
    }});
    F.push_back({"vectors", N, 1, [](Probe &P, int n, Rng &) {
        Vec u(n), v(n);
        for (int i = 0; i < n; ++i) { u[i] = i % 7 - 2; v[i] = i % 5 + 1; }
        P("arithmetic", [&] { return EachDivide((u + v) * 2.0 - u * v / v, -v); });
        P("dot, norms, comparisons", [&] { return Dot(u, v) + u.Norm2() + v.NormInfinity() + u.NormNegInfinity() + u.Min() + (u == v) + (u < v) + (u == u) + IsZero(u - u) + AllIsLessThan(u, v); });
        P("print", [&] { return u.ToString(); });
        P("convert", [&] { return u.AsMat().ToVec(); });
        P("transpose, resize", [&] { Mat m = u.AsMat().Transpose(); m.Resize(2, n); m.Resize(1, n + 1); u.Resize(n * 2); m.SwapCol(0, n - 1); m.SwapRow(0, 0); m.SetValue(2); m.Zero(); return m; });
    }});
    F.push_back({"square matrices", 24, 2, [](Probe &P, int n, Rng &) {
        Mat a(n, n), b(n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { a.Value(i, j) = (i * 31 + j * 17) % 11 - 4; b.Value(i, j) = (i + j) % 3; }
        P("sums", [&] { Mat c = a + b - a * 2.0; c += b; return -c; });
        P("transpose", [&] { return a.Transpose(); });
        P("print", [&] { return a.ToString(); });
        P("norms", [&] { return a.Norm2() + a.NormInfinity() + a.NormNegInfinity() + a.Min() + (a == b) + (a == a) + (a == 0) + IsZero(a); });
        P("rows and columns", [&] { double s = 0; for (int i = 0; i < n; ++i) { std::valarray<double> r = a.Row(i), c = b.Col(i); s += r.sum() + c.sum(); a.SwapRow(i, 0); a.SwapCol(0, i); s += GetMaxAbsRowIndex(a, 0, n - 1, i); } return s; });
        P("cofactor minor", [&] { Mat t(n - 1, n - 1); GetCofactor(a, t, n / 2, n / 3, n); return t; });
        Vec v(n);
        P("matrix by vector", [&] { return (a * v.AsMat()).ToVec(); });
        SymMat s(n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s.Value(i, j) = (i + j) % 4 ? Var("x") * Num(j) : Num(i);
        P("symbolic copy", [&] { return s.Clone(); });
        P("symbolic difference", [&] { return s - s; });
        P("symbolic comparison", [&] { return s == s; });
        P("symbolic print", [&] { return s.ToString(); });
        P("symbolic names", [&] { return s.GetAllVarNames(); });
        P("symbolic flattening", [&] { return s.ToSymVecOneByOne(); });
        P("symbolic substitution and value", [&] { return s.Clone().Subs(VarsTable{{"x", 2}}).Calc().ToMat(); });
    }});
    F.push_back({"products and linear systems", th ? 24 : 16, 3, [](Probe &P, int n, Rng &) {
        Mat a(n, n), b(n, n);
        Vec v(n);
        for (int i = 0; i < n; ++i) { v[i] = i; for (int j = 0; j < n; ++j) { a.Value(i, j) = (i * 31 + j * 17) % 11 - 4 + (i == j) * 20; b.Value(i, j) = (i + j) % 3; } }
        P("matrix product", [&] { return a * b; });
        SymMat s(n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s.Value(i, j) = (i + j) % 4 ? Var("x") * Num(j) : Num(i);
        P("symbolic product", [&] { return s * s; });
        SymMat p = s * s;
        P("symbolic product, print", [&] { return p.ToString(); });
        P("linear solution", [&] { try { return SolveLinear(a, v); } catch (const MathError &) { return Vec(n); } });
    }});
    for (int kind = 0; kind < 3; ++kind) // many equations of bounded size: with a variable each, with neighbours' variables, with one variable
        F.push_back({fmt("long systems, kind %d", kind), N / 4, 1, [=](Probe &P, int n, Rng &) {
            auto name = [&](int i) { return kind == 2 ? std::string("x") : fmt("v%d", i * 7919 % n); };
            SymVec f = P("build", [&] { SymVec f(n); for (int i = 0; i < n; ++i) f[i] = kind == 0 ? tomsolver::sin(Var(name(i))) - Num(i) : Var(name(i)) * Var(name((i + 1) % n)) + Var(name(i)) / Num(i + 1); return f; });
            std::set<std::string> names = P("names", [&] { return f.GetAllVarNames(); });
            P("copy", [&] { return f.Clone(); });
            SymVec g = P("copy", [&] { return f.ToSymVecOneByOne(); });
            P("equal", [&] { return f == g; });
            P("print", [&] { return f.ToString(); });
            P("stream", [&] { std::ostringstream os; os << f; return os.str().size(); });
            P("difference", [&] { return f - g; });
            VarsTable at(std::vector<std::string>(names.begin(), names.end()), 0.5);
            P("evaluate (entries times table)", [&] { return f.Clone().Subs(at).Calc().ToMat().ToVec(); });
            P("transpose-like copy", [&] { SymMat m(1, n); for (int i = 0; i < n; ++i) m.Value(0, i) = Clone(f[i]); return m.GetAllVarNames().size(); });
            P("Jacobian, one variable", [&] { return Jacobian(f, {*names.begin()}).Rows(); });
            g[n - 1] = Num(0);
            P("unequal", [&] { return f == g; });
        }});
    for (auto method : {NonlinearMethod::NEWTON_RAPHSON, NonlinearMethod::LM})
        F.push_back({fmt("solving systems, method %d", (int)method), 4, 3, [=](Probe &P, int n, Rng &) { // a fixed number of iterations
            CfgGuard keep;
            Config::Get().nonlinearMethod = method;
            SymVec f(n);
            std::map<std::string, double> at;
            for (int i = 0; i < n; ++i) { auto v = [&](int j) { return Var(fmt("v%02d", j % n)); }; f[i] = v(i) * Num(4) + v(i + 1) + v(i + n - 1) * Num(0.5) - Num(i); at[fmt("v%02d", i)] = 1; }
            VarsTable start(at);
            P("solve", [&] { return Solve(f, start); });
        }});
    F.push_back({"Jacobians", 8, 2, [](Probe &P, int n, Rng &) { // n equations of bounded size, n variables
        SymVec f(n);
        std::vector<std::string> vars;
        for (int i = 0; i < n; ++i) { f[i] = tomsolver::sin(Var(fmt("v%d", i))) * Var(fmt("v%d", (i + 1) % n)) - Num(i); vars.push_back(fmt("v%d", i)); }
        P("Jacobian", [&] { return Jacobian(f, vars); });
        P("names", [&] { return f.GetAllVarNames(); });
    }});
    return F;
}
static const std::vector<Family> &all(bool th) { static const std::vector<Family> f = families(th); return f; }
uint64_t totalCases(bool th) { return all(th).size(); }
void setupCheck(Ctx &) {}
void runCase(Ctx &c) {
    const Family &f = all(c.thorough)[c.idx];
    std::map<std::string, std::vector<uint64_t>> w;
    std::vector<std::string> order;
    for (int k = 1; k <= 8; k *= 2) {
        int n = f.n * k;
        c.describe(f.name + fmt(", size %d", n));
        Probe P;
        f.run(P, n, c.rng);
        for (auto &q : P.w) { if (!w.count(q.first)) order.push_back(q.first); w[q.first].push_back(q.second); }
    }
    std::string line;
    for (auto &name : order) {
        auto &v = w[name];
        if (v.size() != 4) continue;
        c.eval();
        c.event("operations-measured", 4);
        double ratio = (double)v[3] / std::max<uint64_t>(v[0], 1);
        line += name + fmt(" %llu:%llu=%.1f ", (unsigned long long)v[0], (unsigned long long)v[3], ratio);
        double bound = 2.0 * std::pow(8.0, f.p + (name.find(" times ") != std::string::npos)) * v[0] + 20000;
        if ((double)v[3] > bound) {
            c.describe(f.name + ": " + name);
            c.fail("work", name + fmt(": the work grows from %llu over %llu and %llu to %llu when the size grows from %d to %d (8 times); bound %.0f", (unsigned long long)v[0], (unsigned long long)v[1], (unsigned long long)v[2], (unsigned long long)v[3], f.n, f.n * 8, bound));
        }
    }
    if (getenv("C25_SHOW")) printf("%s: %s\n", f.name.c_str(), line.c_str());
    c.nontrivial(mix(c.idx, 5));
    c.sample(f.name + ": " + line);
}
#include "common_impl.h"
