// C27: errors name their kind and cause, outlive everything that caused them, and leave the arguments alone.
#include "common.h"
#include <exception>
#include <thread>
using namespace h;
using namespace tomsolver;
const char *PROP = "C27";
uint64_t totalCases(bool th) { return th ? 30000 : 1500; }
void setupCheck(Ctx &) {}
enum Kind { PARSE_SINGLE, PARSE_MULTI, MATH, RANGE, RUNTIME };
static const char *const kindName[] = {"SingleParseError", "MultiParseError", "MathError", "out_of_range", "runtime_error"};
struct Facts { Kind kind; std::string what; int type = -1, line = 0, pos = 0; };
static bool operator==(const Facts &a, const Facts &b) { return a.kind == b.kind && a.what == b.what && a.type == b.type && a.line == b.line && a.pos == b.pos; }
static std::string show(const Facts &f) { return std::string(kindName[f.kind]) + (f.kind == MATH ? fmt(" %d", f.type) : f.kind == PARSE_SINGLE ? fmt(" %d %d", f.line, f.pos) : "") + " [" + f.what.substr(0, 300) + "]"; }
static Facts facts(const std::exception &e) {
    Facts f;
    f.what = e.what();
    if (auto p = dynamic_cast<const SingleParseError *>(&e)) { f.kind = PARSE_SINGLE; f.line = p->GetLine(); f.pos = p->GetPos(); }
    else if (dynamic_cast<const MultiParseError *>(&e)) f.kind = PARSE_MULTI;
    else if (auto m = dynamic_cast<const MathError *>(&e)) { f.kind = MATH; f.type = (int)m->GetErrorType(); }
    else if (dynamic_cast<const std::out_of_range *>(&e)) f.kind = RANGE;
    else if (dynamic_cast<const std::runtime_error *>(&e)) f.kind = RUNTIME;
    else throw;
    return f;
}
static Facts factsOf(std::exception_ptr p) {
    try { std::rethrow_exception(p); } catch (const std::exception &e) { return facts(e); }
    abort();
}
struct Kept { // an error that was stored in several ways
    Facts f;
    std::exception_ptr ptr;
    std::vector<SingleParseError> single;
    std::vector<MultiParseError> multi;
    std::vector<MathError> math;
    std::vector<std::runtime_error> sliced;
    std::string slicedWhat;
};
static bool bothKinds(int k, std::initializer_list<int> s) { for (int x : s) if (x == k) return true; return false; }

struct Cause { // something that must fail; returns the reason why the error is not the right one, or ""
    std::string text;
    std::function<void()> run;
    std::function<std::string(const Facts &)> judge;
    std::function<std::string()> after; // the arguments after the failure
};
static std::function<std::string(const Facts &)> isMath(ErrorType t) {
    return [t](const Facts &f) -> std::string {
        if (f.kind != MATH || f.type != (int)t) return fmt("not a MathError %d", (int)t);
        std::string info = GetErrorInfo(t);
        if (f.what.compare(0, info.size(), info)) return "the message does not start with the description of its kind";
        return "";
    };
}
static std::function<std::string(const Facts &)> isPlain(const std::string &mention = "") {
    return [mention](const Facts &f) -> std::string {
        if (f.kind != RUNTIME) return "not a plain runtime_error";
        if (f.what.find(mention) == std::string::npos) return "the message does not mention [" + mention.substr(0, 100) + "]";
        return "";
    };
}
// all operations of the tree that fail although their operands are valid
struct Failing { int op; std::string l, r; };
static void failing(const A &a, std::vector<Failing> &out) {
    if (a->k <= VAR) return;
    failing(a->l, out);
    if (a->r) failing(a->r, out);
    bool ok = true;
    double l = evalAst(a->l, {}, ok), r = a->r ? evalAst(a->r, {}, ok) : 0;
    if (ok && !std::isfinite(applyOp(a->k, l, r))) out.push_back({a->k, tomsolver::ToString(l), a->r ? tomsolver::ToString(r) : ""});
}
static bool wordIn(const std::string &s, const std::string &w) {
    auto letter = [](char ch) { return isalnum((unsigned char)ch) || ch == '_'; };
    for (size_t p = s.find(w); p != std::string::npos; p = s.find(w, p + 1)) if ((!p || !letter(s[p - 1])) && (p + w.size() >= s.size() || !letter(s[p + w.size()]))) return true;
    return false;
}
// the message names the operation and its operands
static bool quotes(const std::string &what, const Failing &f) {
    if (!f.r.empty()) return what.find(f.l + " " + opText(f.op) + " " + f.r) != std::string::npos;
    if (what.find(f.l) == std::string::npos) return false;
    switch (f.op) {
    case ASIN: return wordIn(what, "asin") || wordIn(what, "arcsin");
    case ACOS: return wordIn(what, "acos") || wordIn(what, "arccos");
    case ATAN: return wordIn(what, "atan") || wordIn(what, "arctan");
    case NEG: case POS: return true;
    case LOG: return wordIn(what, "log") || wordIn(what, "ln");
    }
    return wordIn(what, opText(f.op));
}
static A spoil(const A &a, const A &bad, Rng &r) {
    if (a->k <= VAR) return bad;
    if (!a->r || r.chance(1, 2)) return mk(a->k, spoil(a->l, bad, r), a->r);
    return mk(a->k, a->l, spoil(a->r, bad, r));
}
static Cause cause(Rng &r) {
    auto expr = [&](int size, bool vars, bool smooth) {
        GenOpt o;
        o.size = r.range(1, size);
        o.ops = smooth ? smoothOps() : allOps();
        if (vars) o.vars = {"x", "y", "a_long_variable_name_for_errors"};
        o.numProfile = r.chance(1, 3) ? NP_WILD : NP_MODERATE;
        return genAst(r, o);
    };
    auto unchanged = [](const std::shared_ptr<Node> &n, const A &a) { return [n, a]() -> std::string { return (*n)->Equal(toNode(a)) ? "" : "the expression was changed to " + (*n)->ToString().substr(0, 300); }; };
    Cause c;
    int which = (int)r.below(22);
    switch (which) {
    case 0: case 1: case 2: { // parse
        RenderOpt ro;
        ro.paren = r.range(0, 2); ro.space = r.range(0, 2);
        std::string s = render(expr(15, true, false), r, ro);
        static const std::string al = "()+*/^%&|.,$#@ x9_\n";
        for (int k = r.range(1, 4); k > 0; --k) { size_t p = r.below(s.size() + 1); if (r.chance(1, 2)) s.insert(p, 1, r.pick(al)); else if (p < s.size()) s[p] = r.pick(al); }
        if (r.chance(1, 5)) s += std::string(" x") + std::string(r.range(1, 300), ' ') + "y 7";
        else if (r.chance(1, 5)) s += "+" + std::string(r.range(1, 3000), 'q') + "!";
        auto buf = std::make_shared<std::unique_ptr<std::string>>();
        c.text = "Parse " + s;
        c.run = [s, buf] { buf->reset(new std::string(s)); try { Parse(**buf); } catch (...) { (*buf)->assign(s.size(), '#'); buf->reset(); throw; } };
        c.judge = [s](const Facts &f) -> std::string {
            if (f.kind == PARSE_SINGLE) {
                if (s.find('\0') != std::string::npos) return "";
                std::string tail = "\n" + s + "\n" + std::string(std::max(0, f.pos), ' ') + "^";
                return f.what.find(tail) == std::string::npos ? "the message does not show the input" : "";
            }
            return f.kind == PARSE_MULTI ? (f.what.find(s) == std::string::npos ? "the message does not show the input" : "") : "not a parse error";
        };
        return c;
    }
    case 3: case 4: { // an operation without a valid result
        auto huge = [&] { return aNum(r.uniform(1e300, 1.7e308)); };
        std::vector<A> bads{aBin(DIV, aNum(r.range(-5, 5)), aNum(0)), aBin(DIV, huge(), aNum(r.uniform(1e-300, 1e-9))), aUn(LOG, aNum(-r.uniform(0, 9))), aUn(LOG2, aNum(-r.range(0, 9))), aUn(LOG10, aNum(-r.uniform(0, 9))), aUn(LOG2, aNum(0)), aUn(LOG10, aNum(0)), aUn(SQRT, aNum(-r.range(1, 9))), aUn(ASIN, aNum(r.uniform(1.5, 9))), aUn(ACOS, aNum(-r.uniform(1.5, 9))), aBin(MOD, aNum(r.range(0, 9)), aNum(0)), aBin(POW, aNum(-2), aNum(0.5)), aBin(POW, aNum(r.range(2, 99)), huge()), aBin(AND, aNum(1e300), aNum(1)), aBin(OR, aNum(1), aNum(-1e300)), aUn(EXP, aNum(r.range(720, 9000))), aBin(MUL, aNum(1e200), aNum(-1e200)), aBin(ADD, aNum(1.7e308), aNum(1.6e308)), aBin(SUB, aNum(-1.7e308), aNum(1.6e308)), aUn(LOG, aNum(0))};
        A a = spoil(expr(20, false, false), r.pick(bads), r);
        std::vector<Failing> ops;
        failing(a, ops);
        auto n = std::make_shared<Node>(toNode(a));
        bool calc = r.chance(1, 2);
        c.text = std::string(calc ? "Calc " : "Vpa ") + h::show(a);
        c.run = [n, calc] { Config::Get().throwOnInvalidValue = true; if (calc) (*n)->Calc(); else (*n)->Vpa(); };
        c.judge = [ops](const Facts &f) {
            std::string e = isMath(ErrorType::ERROR_INVALID_NUMBER)(f);
            if (!e.empty()) return e;
            for (auto &o : ops) if (quotes(f.what, o)) return std::string();
            return "the message quotes no failing operation, expected " + (ops.empty() ? std::string("none") : std::string(opText(ops[0].op)) + " of " + ops[0].l + " " + ops[0].r);
        };
        c.after = unchanged(n, a);
        return c;
    }
    case 5: { // a variable without value
        A a = spoil(expr(15, false, true), aVar("x"), r);
        auto n = std::make_shared<Node>(toNode(a));
        bool calc = r.chance(1, 2);
        c.text = std::string(calc ? "Calc " : "Vpa ") + h::show(a);
        c.run = [n, calc] { if (calc) (*n)->Calc(); else (*n)->Vpa(); };
        c.judge = [](const Facts &f) -> std::string { return f.kind == RUNTIME || (f.kind == MATH && f.type == (int)ErrorType::ERROR_INVALID_NUMBER) ? "" : "neither a missing value nor an invalid one"; };
        c.after = unchanged(n, a);
        return c;
    }
    case 6: case 7: { // no derivative
        int k = r.range(AND, MOD);
        A a = spoil(expr(12, true, true), aBin(k, aVar("x"), aNum(2)), r);
        auto n = std::make_shared<Node>(toNode(a));
        int how = (int)r.below(4);
        c.text = fmt("derivative %d of ", how) + h::show(a);
        c.run = [n, how] {
            if (how == 0) Diff(*n, "x");
            else if (how == 1) Diff(*n, "y", 2);
            else if (how == 2) Diff(Clone(*n), "zz");
            else { SymVec f(3); f[0] = Num(1); f[1] = Clone(*n); f[2] = Var("x"); Jacobian(f, {"x", "y"}); }
        };
        c.judge = isPlain(opText(k));
        c.after = unchanged(n, a);
        return c;
    }
    case 8: { // names
        static const std::string al = "#@! .+-*é$\t";
        std::string s = genName(r);
        if (r.chance(1, 3)) s = fmt("%d", r.range(0, 99)) + s; else s.insert(r.below(s.size() + 1), 1, r.pick(al));
        c.text = "Var " + s;
        c.run = [s] { Var(s); };
        c.judge = isPlain(s);
        return c;
    }
    case 9: { // table lookup
        std::map<std::string, double> m;
        for (int k = r.range(1, 5); k > 0; --k) m[genName(r)] = r.range(0, 9);
        std::string s = r.chance(1, 2) ? genName(r) + "_absent" : std::string(r.range(20, 400), 'n');
        auto t = std::make_shared<VarsTable>(m);
        c.text = "lookup of " + s;
        c.run = [t, s] { (void)(*t)[s]; };
        c.judge = [s](const Facts &f) -> std::string { return f.kind != RANGE ? "not out_of_range" : f.what.find(s) == std::string::npos ? "the message does not name the variable" : ""; };
        c.after = [t, m]() -> std::string { return *t == VarsTable(m) ? "" : "the table was changed"; };
        return c;
    }
    case 10: { // shapes of symbolic matrices
        int n = r.range(1, 3), m = r.range(1, 3), q = r.range(1, 3);
        if (q == m) ++q;
        A a = expr(6, true, true);
        auto x = std::make_shared<SymMat>(n, m), y = std::make_shared<SymMat>(q, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) x->Value(i, j) = toNode(a);
        for (int i = 0; i < q; ++i) for (int j = 0; j < n; ++j) y->Value(i, j) = toNode(a);
        c.text = fmt("%dx%d times %dx%d symbolic", n, m, q, n);
        c.run = [x, y] { *x * *y; };
        c.judge = isMath(ErrorType::SIZE_NOT_MATCH);
        c.after = [x, y, a]() -> std::string { for (int i = 0; i < x->Rows(); ++i) for (int j = 0; j < x->Cols(); ++j) if (!x->Value(i, j)->Equal(toNode(a))) return "the left operand was changed"; return y->Value(0, 0)->Equal(toNode(a)) ? "" : "the right operand was changed"; };
        return c;
    }
    case 11: { // conversions
        int how = (int)r.below(4);
        auto s = std::make_shared<SymMat>(2, 2);
        for (int i = 0; i < 4; ++i) s->Value(i / 2, i % 2) = i == 2 ? Var("x") * Num(2) : Num(i);
        auto m = std::make_shared<Mat>(r.range(1, 4), r.range(2, 4), 2.0);
        c.text = fmt("conversion %d", how);
        c.run = [=] { if (how == 0) s->ToMat(); else if (how == 1) s->ToSymVec(); else if (how == 2) m->ToVec(); else s->Calc(); };
        c.judge = [how](const Facts &f) -> std::string { return f.kind == RUNTIME || (how == 3 && f.kind == RUNTIME) ? "" : "not a plain runtime_error"; };
        c.after = [s]() -> std::string { return s->Value(1, 0)->Equal(Var("x") * Num(2)) && s->Value(1, 1)->Equal(Num(3)) && s->Rows() == 2 && s->Cols() == 2 ? "" : "the matrix was changed"; };
        return c;
    }
    case 12: case 13: { // linear systems
        int how = (int)r.below(4), n = r.range(2, 5);
        auto a = std::make_shared<Mat>(how == 0 ? n + 1 : how == 3 ? n - 1 : n, n, 0.0);
        auto b = std::make_shared<Vec>(a->Rows());
        for (int i = 0; i < a->Rows(); ++i) { (*b)[i] = r.range(-5, 5); for (int j = 0; j < n; ++j) a->Value(i, j) = i == j ? r.range(1, 4) : i < j ? r.range(-2, 2) : 0; }
        ErrorType t = ErrorType::ERROR_OVER_DETERMINED_EQUATIONS;
        if (how == 0) { for (int j = 0; j < n; ++j) a->Value(n, j) = a->Value(0, j); (*b)[n] = (*b)[0] + 1; }
        if (how == 1 || how == 2) { for (int j = 0; j < n; ++j) a->Value(n - 1, j) = 2 * a->Value(0, j); (*b)[n - 1] = 2 * (*b)[0] + (how == 1 ? 1 : 0); t = how == 1 ? ErrorType::ERROR_SINGULAR_MATRIX : ErrorType::ERROR_INFINITY_SOLUTIONS; }
        if (how == 3) t = ErrorType::ERROR_INDETERMINATE_EQUATION;
        Mat a0 = *a;
        Vec b0 = *b;
        c.text = fmt("SolveLinear, defect %d, %d unknowns", how, n);
        c.run = [=] { Config::Get().allowIndeterminateEquation = false; SolveLinear(*a, *b); };
        c.judge = isMath(t);
        c.after = [=]() -> std::string { return std::equal(&(*a).Value(0, 0), &(*a).Value(0, 0) + a->Rows() * n, &const_cast<Mat &>(a0).Value(0, 0)) && *b == b0 ? "" : "the system was changed"; };
        return c;
    }
    case 14: { // inverse
        int n = r.range(1, 5);
        auto a = std::make_shared<Mat>(n, n, 0.0);
        for (int i = 0; i + 1 < n; ++i) for (int j = 0; j < n; ++j) a->Value(i, j) = r.range(-3, 3);
        for (int j = 0; n > 1 && j < n; ++j) a->Value(n - 1, j) = a->Value(0, j) * 2;
        c.text = fmt("inverse of a singular %dx%d matrix", n, n);
        c.run = [a] { a->Inverse(); };
        c.judge = isMath(ErrorType::ERROR_SINGULAR_MATRIX);
        return c;
    }
    case 15: case 16: case 17: { // nonlinear systems
        int how = (int)r.below(11);
        int extra = how >= 7 ? r.range(0, 4) : 0; // further independent equations with unknowns of their own
        bool lm = r.chance(1, 3) && how != 1 && how < 8;
        auto f = std::make_shared<SymVec>((how == 3 || how >= 7 ? 2 : 1) + extra);
        std::map<std::string, double> at{{"x", 0.7}};
        Node x = Var("x"), y = Var("y");
        c.judge = isPlain();
        switch (how) {
        case 0: (*f)[0] = (x ^ Num(2)) + Num(r.range(1, 5)); if (lm) c.judge = [](const Facts &f) -> std::string { return f.kind == RUNTIME || f.kind == MATH ? "" : "wrong kind"; }; break;                           // no root: the limit
        case 1: (*f)[0] = (x ^ Num(2)) + Num(1); at["x"] = 0; c.judge = isMath(ErrorType::ERROR_SINGULAR_MATRIX); break; // zero derivative
        case 2: (*f)[0] = tomsolver::log(x) - Num(1); at["x"] = -r.range(1, 9); c.judge = isMath(ErrorType::ERROR_INVALID_NUMBER); break;
        case 3: (*f)[0] = x - Num(1); (*f)[1] = x - Num(2); c.judge = isMath(ErrorType::ERROR_OVER_DETERMINED_EQUATIONS); break;
        case 4: (*f)[0] = Num(r.range(1, 5)) * x + Num(r.range(1, 5)) * y - Num(4); at["y"] = 0.5; c.judge = isMath(ErrorType::ERROR_INDETERMINATE_EQUATION); break;
        case 5: (*f)[0] = x * y - Num(4); break;                                                                        // y has no value
        case 6: (*f)[0] = internal::Operator(MathOperator::MATH_MOD, Clone(x), Num(2)) + x; c.judge = isPlain("%"); break;
        case 8: case 9: // one equation twice: a rank defect that is consistent, or is not
            (*f)[0] = (x ^ Num(2)) + y - Num(2);
            (*f)[1] = Num(2) * (x ^ Num(2)) + Num(2) * y - Num(how == 8 ? 4 : 9);
            at["x"] = r.range(1, 4); at["y"] = r.range(-3, 3);
            if (at["x"] * at["x"] + at["y"] == 2) at["y"] += 1;
            c.judge = isMath(how == 8 ? ErrorType::ERROR_INFINITY_SOLUTIONS : ErrorType::ERROR_SINGULAR_MATRIX);
            break;
        case 10: (*f)[0] = x - Num(1); (*f)[1] = tomsolver::log(x); at["x"] = -2; at["y"] = 1; c.judge = isMath(ErrorType::ERROR_INVALID_NUMBER); break;
        default: (*f)[0] = x - Num(1); (*f)[1] = tomsolver::sqrt(y); at["y"] = -2; c.judge = isMath(ErrorType::ERROR_INVALID_NUMBER); break;
        }
        for (int k = 0; k < extra; ++k) { std::string z = fmt("w%d", k); (*f)[2 + k] = Num(r.range(1, 4)) * Var(z) - Num(r.range(-5, 5)); at[z] = r.range(-3, 3); }
        if (extra && r.chance(1, 2)) { int k = r.range(2, 1 + extra); std::swap((*f)[(int)r.below(2)], (*f)[k]); }
        auto keep = std::make_shared<SymMat>(f->Clone());
        auto t = std::make_shared<VarsTable>(at);
        c.text = fmt("%s, defect %d", lm ? "SolveByLM" : "SolveByNewtonRaphson", how);
        c.run = [=] {
            Config::Get().throwOnInvalidValue = true; Config::Get().allowIndeterminateEquation = false;
            Config::Get().maxIterations = 7;
            if (lm) SolveByLM(*f, *t); else SolveByNewtonRaphson(*f, *t);
        };
        c.after = [=]() -> std::string { for (auto &v : at) if ((*t)[v.first] != v.second) return "the table was changed"; return static_cast<SymMat &>(*f) == *keep ? "" : "the equations were changed"; };
        return c;
    }
    default: { // an error made by the user of the class
        int k = r.range(0, (int)ErrorType::SIZE_NOT_MATCH);
        std::string ext = r.chance(1, 3) ? "" : std::string(r.range(1, 200), (char)('a' + r.below(26)));
        c.text = fmt("MathError %d ", k) + ext.substr(0, 30);
        c.run = [=] { throw MathError((ErrorType)k, ext); };
        c.judge = [=](const Facts &f) -> std::string { return f.kind != MATH || f.type != k ? "the kind is lost" : f.what != GetErrorInfo((ErrorType)k) + (ext.empty() ? "" : ": \"" + ext + "\"") ? "the message is not the description and the details" : ""; };
        return c;
    }
    }
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    if (c.idx < 4) {
        std::set<std::string> seen;
        for (int k = 0; k <= (int)ErrorType::SIZE_NOT_MATCH; ++k) { std::string s = GetErrorInfo((ErrorType)k); if (s.empty() || s.find("bug") != std::string::npos || !seen.insert(s).second) c.fail("description", fmt("kind %d is described as [", k) + s + "]"); }
    }
    std::vector<std::unique_ptr<Kept>> kept;
    auto recheck = [&](const char *when) {
        for (auto &k : kept) {
            c.eval();
            Facts f = factsOf(k->ptr);
            if (!(f == k->f)) c.fail("lifetime", std::string(when) + " the stored error " + h::fmt("%s", ::show(k->f).c_str()) + " has become " + ::show(f));
            for (auto &e : k->single) if (!(facts(e) == k->f)) c.fail("copy", std::string(when) + " a copy of " + ::show(k->f) + " is " + ::show(facts(e)));
            for (auto &e : k->multi) if (!(facts(e) == k->f)) c.fail("copy", std::string(when) + " a copy of " + ::show(k->f) + " is " + ::show(facts(e)));
            for (auto &e : k->math) if (!(facts(e) == k->f)) c.fail("copy", std::string(when) + " a copy of " + ::show(k->f) + " is " + ::show(facts(e)));
            for (auto &e : k->sliced) if (k->slicedWhat != e.what()) c.fail("copy", std::string(when) + " the base part of " + ::show(k->f) + " changed its message");
        }
    };
    std::string hist;
    for (int step = r.range(3, 12); step > 0; --step) {
        Cause q = cause(r);
        hist += q.text.substr(0, 60) + "; ";
        c.describe(q.text);
        std::unique_ptr<Kept> k(new Kept);
        int where = (int)r.below(4);
        auto body = [&] {
            try {
                try { q.run(); } catch (...) { if (where == 1) throw; k->ptr = std::current_exception(); if (where == 2) { auto p = k->ptr; k->ptr = nullptr; std::rethrow_exception(p); } }
            } catch (...) { k->ptr = std::current_exception(); }
        };
        if (where == 3) { std::thread t(body); t.join(); } else body();
        if (!k->ptr) { c.event("not-rejected"); continue; }
        try { k->f = factsOf(k->ptr); } catch (...) { c.fail("kind", "the error is of no documented kind: " + q.text); }
        c.eval();
        c.event(kindName[k->f.kind]);
        std::string bad = q.judge(k->f);
        if (!bad.empty()) c.fail("cause", q.text + ": " + bad + ": " + ::show(k->f));
        if (q.after) { bad = q.after(); c.eval(); if (!bad.empty()) c.fail("argument", q.text + ": " + bad); }
        try { std::rethrow_exception(k->ptr); }
        catch (const SingleParseError &e) { k->single = {e, e}; SingleParseError o(0, 3, "abcdef", "other"); o = e; k->single.push_back(o); k->sliced.push_back(e); SingleParseError v = std::move(o); k->single.push_back(std::move(v)); }
        catch (const MultiParseError &e) { k->multi = {e, e}; MultiParseError v = k->multi[0]; k->multi.push_back(std::move(v)); k->multi[0] = k->multi[1]; k->sliced.push_back(e); }
        catch (const MathError &e) { k->math = {e, e}; MathError o(ErrorType::ERROR_EMPTY_INPUT, "other"); o = e; k->math.push_back(o); MathError v(std::move(o)); k->math.push_back(v); k->sliced.push_back(e); }
        catch (const std::runtime_error &e) { k->sliced = {e, e}; }
        catch (const std::exception &) {}
        if (!k->sliced.empty()) k->slicedWhat = k->sliced[0].what();
        k->sliced.reserve(9);
        c.nontrivial(hashStr(q.text));
        q = Cause();
        kept.push_back(std::move(k));
        if (kept.size() > 1 && r.chance(1, 3)) { // assignment over another error
            auto &a = kept[r.below(kept.size())], &b = kept.back();
            if (!a->single.empty() && !b->single.empty() && a != b) { SingleParseError t = a->single[0]; a->single[0] = b->single[0]; b->single[1] = t; a->single[0] = t; b->single[1] = b->single[0]; }
            if (!a->math.empty() && !b->math.empty() && a != b) std::swap(a->math[0], b->math[0]), std::swap(a->math[0], b->math[0]);
        }
        if (r.chance(1, 5) && kept.size() > 3) kept.erase(kept.begin() + (long)r.below(kept.size()));
        recheck("after more errors");
    }
    c.describe(hist);
    c.sample(hist);
    recheck("at the end");
}
#include "common_impl.h"
