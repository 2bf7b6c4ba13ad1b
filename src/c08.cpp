// C08: arbitrarily deep expressions work without exhausting the native stack.
// Every operation runs in a thread with a small fixed stack; a recursion as deep as the expression overflows it.
#include "common.h"
#include <pthread.h>
using namespace h;
using namespace tomsolver;
const char *PROP = "C08";
static const int NSHAPE = 38;
uint64_t totalCases(bool th) { return (uint64_t)NSHAPE * (th ? 10 : 1); }
void setupCheck(Ctx &) {}
static const size_t STACK = 256 * 1024;

struct Step { // side 0: deep operand left, 1: right; the other operand is the variable, or a constant
    int k, side;
    double con;
    Step(int k, int side, double con = NAN) : k(k), side(side), con(con) {}
    bool isCon() const { return con == con; }
};
static Step stepOf(int shape, int i, Rng &r) {
    switch (shape) {
    case 0: return {NEG, 0};
    case 1: return {SIN, 0};
    case 2: return {ADD, 0};
    case 3: return {ADD, 1};
    case 4: return {SUB, 0};
    case 5: return {SUB, 1};
    case 6: return {MUL, 0};
    case 7: return {MUL, 1};
    case 8: return {DIV, 0};
    case 9: return {DIV, 1};
    case 10: return {POW, 0};
    case 11: return {POW, 1};
    case 12: return {AND, 0};
    case 13: return {OR, 1};
    case 14: return {MOD, 0};
    case 15: return {POS, 0};
    case 16: return {ATAN, 0};
    case 17: return i % 2 ? Step{ADD, 0} : Step{MUL, 1};
    case 18: return i % 2 ? Step{SUB, 1} : Step{NEG, 0};
    case 19: return i % 3 == 0 ? Step{SUB, 0} : i % 3 == 1 ? Step{SUB, 1} : Step{POS, 0};
    case 20: return {COS, 0};
    case 21: return i % 2 ? Step{POW, 0} : Step{MUL, 1};
    case 22: return i % 2 ? Step{TAN, 0} : Step{SIN, 0};
    case 23: return {r.chance(1, 2) ? ADD : SUB, (int)r.below(2)};
    case 24: return r.chance(1, 3) ? Step{NEG, 0} : Step{r.chance(1, 2) ? ADD : SUB, (int)r.below(2)};
    // operands that simplification removes
    case 26: return {MUL, 0, 1};
    case 27: return {MUL, 1, 1};
    case 28: return {ADD, i % 2, 0};
    case 29: return {POW, 0, 1};
    case 30: return {SUB, 1, 0};
    case 31: return {DIV, 0, 1};
    case 32: return {SUB, 0, 0};
    case 33: return {POW, 0, i % 2 ? 2 : 0.5};
    case 34: return i % 2 ? Step{NEG, 0} : Step{POS, 0};
    case 35: return {r.chance(1, 2) ? ADD : SUB, (int)r.below(2), (double)r.range(0, 1)};
    case 36: switch (i % 4) { case 0: return {MUL, 1, 1}; case 1: return {ADD, 1, 0}; case 2: return {NEG, 0}; default: return {POW, 0, 1}; }
    case 37: return r.chance(1, 3) ? Step{MUL, (int)r.below(2), r.chance(1, 2) ? -1.0 : 1.0} : Step{ADD, (int)r.below(2), 0};
    default: return {r.pick(std::vector<int>{NEG, SIN, ATAN, ADD, SUB, MUL, COS}), (int)r.below(2)};
    }
}
static bool linearDiff(int s) { return s == 0 || (s >= 2 && s <= 5) || s == 15 || s == 18 || s == 19 || s == 23 || s == 24 || s == 28 || s == 30 || s == 32 || s == 34 || s == 35; }
struct Job {
    Ctx *c;
    int shape, n;
    uint64_t seed;
    std::string fail, key;
    size_t maxStack = 0;
    uint64_t ops = 0;
};
static Node apply(Step s, Node deep, Node leaf) {
    switch (s.k) {
    case POS: return +std::move(deep);
    case NEG: return -std::move(deep);
    case SIN: return tomsolver::sin(std::move(deep));
    case COS: return tomsolver::cos(std::move(deep));
    case TAN: return tomsolver::tan(std::move(deep));
    case ATAN: return tomsolver::atan(std::move(deep));
    }
    Node a = s.side ? std::move(leaf) : std::move(deep), b = s.side ? std::move(deep) : std::move(leaf);
    switch (s.k) {
    case ADD: return std::move(a) + std::move(b);
    case SUB: return std::move(a) - std::move(b);
    case MUL: return std::move(a) * std::move(b);
    case DIV: return std::move(a) / std::move(b);
    case POW: return std::move(a) ^ std::move(b);
    }
    return internal::Operator(libOp(s.k), std::move(a), std::move(b));
}
// deepest leaf, other leaves
static Node build(const Job &j, const std::function<Node(int)> &leaf) {
    Rng r(j.seed);
    Node n = leaf(0);
    for (int i = 1; i <= j.n; ++i) { Step s = stepOf(j.shape, i, r); n = apply(s, std::move(n), !isBin(s.k) ? nullptr : s.isCon() ? Num(s.con) : leaf(i)); }
    return n;
}
struct Ref { double v, d, m; };
static Ref ref(const Job &j, double x) { // value, derivative (linear shapes), majorant
    Rng r(j.seed);
    double v = x, d = 1, m = std::fabs(x);
    for (int i = 1; i <= j.n; ++i) {
        Step s = stepOf(j.shape, i, r);
        double y = s.isCon() ? s.con : x, dy = s.isCon() ? 0 : 1;
        double a = s.side ? y : v, b = s.side ? v : y, da = s.side ? dy : d, db = s.side ? d : dy;
        if (s.k == ADD) d = da + db;
        if (s.k == SUB) d = da - db;
        if (s.k == NEG) d = -d;
        if (isUn(s.k)) { a = v; b = 0; }
        v = applyOp(s.k, a, b);
        m = std::max(m, std::fabs(v));
    }
    return {v, d, m};
}
static void *body(void *p) {
    Job &j = *(Job *)p;
    auto bad = [&](const char *key, const std::string &m) { if (j.key.empty()) { j.key = key; j.fail = m; } };
    auto x = [](int) { return Var("x"); };
    double at = (j.shape >= 8 && j.shape <= 11) || j.shape == 33 ? 1.0 : j.shape >= 12 && j.shape <= 14 ? 7.0 : 0.75;
    Ref want = ref(j, at);
    j.c->describe(fmt("shape %d depth %d: build", j.shape, j.n));
    Node n = build(j, x);
    auto step = [&](const char *w) { j.c->describe(fmt("shape %d depth %d: %s", j.shape, j.n, w)); ++j.ops; };
    step("check links");
    n->CheckParent();
    step("copy");
    Node k = Clone(n);
    step("equal");
    if (!k->Equal(n)) bad("clone", "the copy of a deep expression is not equal to it");
    step("unequal");
    { Node o = build(j, [](int i) { return i ? Var("x") : Var("y"); }); if (o->Equal(n) || n->Equal(o)) bad("equal", "deep expressions with different innermost leaves are called equal");
      step("names");
      bool anyBin = false;
      { Rng g(j.seed); for (int i = 1; i <= j.n; ++i) { Step s = stepOf(j.shape, i, g); anyBin |= isBin(s.k) && !s.isCon(); } }
      std::set<std::string> e{"y"};
      if (anyBin) e.insert("x");
      if (o->GetAllVarNames() != e) bad("names", "wrong names in a deep expression");
      step("destroy"); }
    step("print");
    std::string t = n->ToString();
    step("parse");
    try {
        Node q = Parse(t);
        if (q->ToString() != t) bad("print-parse", "printing the parsed text of a deep expression gives another text");
        step("evaluate parsed");
        if (t.find('&') == std::string::npos && t.find('|') == std::string::npos && t.find('%') == std::string::npos) {
            double v = Subs(q, std::map<std::string, double>{{"x", at}})->Vpa();
            if (!(std::fabs(v - want.v) <= 1e-9 * j.n * (1 + want.m))) bad("parse-value", fmt("the parsed text has value %.17g instead of %.17g", v, want.v));
        }
    } catch (const std::runtime_error &e) { bad("parse", std::string("the printed text was rejected: ") + e.what()); }
    step("substitute");
    Node s = Subs(n, "x", Num(at));
    { Node e = build(j, [&](int) { return Num(at); }); if (!s->Equal(e)) bad("subs", "substituting into a deep expression gives a wrong result"); }
    step("substitute deep");
    { Node w = Subs(Var("q") + Var("q"), "q", n); if (!w->Equal(n + n)) bad("subs", "substituting a deep expression gives a wrong result"); }
    step("evaluate");
    try {
        double v = s->Vpa();
        if (bitsOf(v) != bitsOf(want.v)) bad("value", fmt("the value is %.17g instead of %.17g", v, want.v));
        step("simplify constant");
        Node z = Clone(s);
        Simplify(z);
        if (!z->GetAllVarNames().empty() || !(std::fabs(z->Vpa() - want.v) <= 1e-9 * j.n * (1 + want.m))) bad("simplify", "simplifying a deep constant changes its value");
        if (z->ToString() != ToString(z->Vpa())) bad("simplify", "simplifying a deep constant does not fold it");
        step("calculate");
        s->Calc();
        if (!s->Equal(Num(want.v))) bad("calc", "calculating a deep expression gives a wrong result");
    } catch (const std::runtime_error &e) { bad("value", std::string("evaluating failed: ") + e.what()); }
    step("simplify");
    { Node z = Clone(n);
      Simplify(z);
      z->CheckParent();
      try {
          double v = Subs(z, std::map<std::string, double>{{"x", at}})->Vpa();
          if (!(std::fabs(v - want.v) <= 1e-9 * j.n * (1 + want.m))) bad("simplify", fmt("simplifying changed the value to %.17g instead of %.17g", v, want.v));
      } catch (const std::runtime_error &e) { bad("simplify", std::string("evaluating after Simplify failed: ") + e.what()); } }
    if (linearDiff(j.shape)) {
        step("differentiate");
        Node d = Diff(n, "x");
        double v = 0;
        try { v = Subs(d, "x", Num(at))->Vpa(); } catch (const std::runtime_error &e) { bad("diff", e.what()); }
        if (!(std::fabs(v - want.d) <= 1e-9 * j.n)) bad("diff", fmt("the derivative is %.17g instead of %.17g", v, want.d));
        step("differentiate by another variable");
        Node d2 = Diff(n, "zz");
        try { if (d2->Vpa() != 0) bad("diff", "the derivative by an absent variable is not 0"); } catch (const std::runtime_error &e) { bad("diff", e.what()); }
    }
    step("operators");
    { Node a = n + k, b = Clone(n);
      b *= Clone(k);
      Node m = Move(b);
      std::swap(a, m);
      std::ostringstream os;
      os << a;
      a->CheckParent();
      if (os.str().size() <= 2 * t.size()) bad("operators", "the text of a product of two deep expressions is too short"); }
    step("substitute, other forms");
    { VarsTable vt(std::map<std::string, double>{{"x", at}});
      std::map<std::string, Node> dict;
      dict["x"] = Num(at);
      if (!Subs(n, vt)->Equal(s) && !s->Equal(Num(want.v))) bad("subs", "substituting a table into a deep expression gives a wrong result");
      Node a = Subs(n, vt), b = Subs(Clone(n), dict), d = Subs(n, std::vector<std::string>{"x"}, SymVec{Num(at)});
      if (!a->Equal(b) || !a->Equal(d)) bad("subs", "the forms of substitution differ on a deep expression"); }
    step("symbolic vector");
    try {
        SymVec sv(2);
        sv[0] = Clone(n);
        sv[1] = Var("x");
        const SymMat &sm = sv;
        SymMat q = sm.Clone();
        if (!(static_cast<const SymMat &>(sv) == q)) bad("matrix", "the copy of a symbolic vector with a deep element differs");
        Mat v = q.Clone().Subs(std::map<std::string, double>{{"x", at}}).Calc().ToMat();
        if (bitsOf(v.Value(0, 0)) != bitsOf(want.v)) bad("matrix", fmt("a deep element evaluates to %.17g instead of %.17g", v.Value(0, 0), want.v));
        if (sm.ToString().size() < t.size()) bad("matrix", "the text of a symbolic vector with a deep element is too short");
        SymMat z = sm - q;
    } catch (const std::runtime_error &e) { bad("matrix", e.what()); }
    // operations that fail deep inside
    step("evaluate unbound");
    try { n->Vpa(); bad("unbound", "an expression with a variable has a value"); } catch (const std::runtime_error &) {}
    step("calculate unbound");
    try { Clone(n)->Calc(); bad("unbound", "an expression with a variable was calculated"); } catch (const std::runtime_error &) {}
    step("evaluate invalid");
    { Node o = build(j, [&](int i) { return i ? Num(at) : Num(0) / Num(0); });
      try { o->Vpa(); bad("invalid", "0/0 deep inside has a value"); } catch (const MathError &) {}
      try { o->Calc(); bad("invalid", "0/0 deep inside was calculated"); } catch (const MathError &) {} }
    step("differentiate undefined");
    if (j.shape != 12 && j.shape != 13 && j.shape != 14) {
        Node o = build(j, [&](int i) { return i ? Var("x") : internal::Operator(MathOperator::MATH_MOD, Var("x"), Num(2)); });
        if (linearDiff(j.shape)) try { Diff(o, "x"); bad("undefined", "% deep inside was differentiated"); } catch (const std::runtime_error &) {}
    }
    if (t.size() < 400000) {
        step("parse damaged");
        for (auto &q : {t + "+", t + ")", "(" + t, t + "*" + t + "(", t + " $"}) try { Parse(q); bad("damaged", "a damaged deep text is accepted"); } catch (const std::runtime_error &) {}
    }
    if (linearDiff(j.shape)) {
        step("jacobian and solve");
        try {
            SymVec f(1);
            f[0] = Clone(n);
            SymMat J = Jacobian(f, {"x"});
            double v = J.Subs(std::map<std::string, double>{{"x", at}}).Calc().ToMat().Value(0, 0);
            if (!(std::fabs(v - want.d) <= 1e-9 * j.n)) bad("jacobian", fmt("the Jacobian is %.17g instead of %.17g", v, want.d));
            try {
                VarsTable r = Solve(f, VarsTable(std::map<std::string, double>{{"x", at}}));
                Ref y = ref(j, r["x"]);
                if (!(std::fabs(y.v) < 1e-8)) bad("solve", "the solution of a deep equation does not solve it");
            } catch (const std::runtime_error &) {} // no root, or a zero derivative
        } catch (const std::runtime_error &e) { bad("jacobian", e.what()); }
    }
    step("assign");
    *k = *n;
    if (!k->Equal(n)) bad("assign", "assigning a deep expression gives a wrong result");
    return nullptr;
}
static void *parens(void *p) {
    Job &j = *(Job *)p;
    auto bad = [&](const std::string &m) { j.key = "deep-text"; j.fail = m; };
    std::string open, close;
    for (int i = 0; i < j.n; ++i) { open += '('; close += ')'; }
    j.c->describe(fmt("depth %d: parentheses", j.n));
    try { if (!Parse(open + "x" + close)->Equal(Var("x"))) bad("deep parentheses are misparsed"); } catch (const std::runtime_error &) { bad("deep parentheses are rejected"); }
    j.c->describe(fmt("depth %d: functions without parentheses", j.n));
    std::string f;
    for (int i = 0; i < j.n; ++i) f += i % 2 ? "sin " : "-";
    try { Node n = Parse(f + "x"); n->CheckParent(); } catch (const std::runtime_error &) { bad("a long chain of prefix operators is rejected"); }
    j.c->describe(fmt("depth %d: damaged parentheses", j.n));
    for (auto &t : {open + "x", "x" + close, open, open + "x" + close + ")", open + close, f, open + "x*" + close})
        try { Parse(t); bad("a damaged deep text is accepted"); } catch (const std::runtime_error &) {}
    j.ops += 9;
    return nullptr;
}
void runCase(Ctx &c) {
    Job j;
    j.c = &c;
    j.shape = (int)(c.idx % NSHAPE);
#ifdef HAVE_ASAN
    int base = c.thorough ? 60000 : 10000;
#else
    int base = c.thorough ? 400000 : 50000;
#endif
    j.n = base + (int)c.rng.below(base / 2);
    j.seed = c.rng.next();
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, STACK);
    for (int k = 0; k < 2; ++k) {
        pthread_t t;
        if (k == 1 && j.shape % 5) break;
        if (pthread_create(&t, &at, k ? parens : body, &j)) { fprintf(stderr, "no thread\n"); exit(2); }
        pthread_join(t, nullptr);
        if (!j.key.empty()) { c.describe(fmt("shape %d depth %d", j.shape, j.n)); c.fail(j.key, j.fail); }
    }
    c.eval(j.ops);
    c.event("deep-operations", j.ops);
    c.event("total-depth", (uint64_t)j.n);
    c.nontrivial(mix(j.shape, j.n));
    c.sample(fmt("shape %d, depth %d, stack 256 KB", j.shape, j.n));
}
#include "common_impl.h"
