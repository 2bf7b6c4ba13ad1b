// C04: printing an expression and parsing the text back preserves the expression.
#include "common.h"
using namespace h;
const char *PROP = "C04";
uint64_t totalCases(bool th) { return th ? 120000 : 3600; }
void setupCheck(Ctx &) {}

// canonical form: sums and products as flat lists of signed terms, signs of constants absorbed
struct C;
using CP = std::shared_ptr<C>;
struct C { int k; double v = 0; std::string name; std::vector<std::pair<CP, bool>> t; }; // bool: subtracted / divided
static CP canon(const A &a);
static void flat(const A &a, bool inv, int add, int sub, std::vector<std::pair<CP, bool>> &t) {
    if (a->k == add || a->k == sub) {
        flat(a->l, inv, add, sub, t);
        flat(a->r, a->k == sub ? !inv : inv, add, sub, t);
    } else t.push_back({canon(a), inv});
}
static CP canon(const A &a) {
    auto r = std::make_shared<C>();
    r->k = a->k;
    if (a->k == NUM) { r->v = a->v; return r; }
    if (a->k == VAR) { r->name = a->name; return r; }
    if (a->k == NEG) {
        CP x = canon(a->l);
        if (x->k == NUM) { r->k = NUM; r->v = -x->v; return r; }
        r->t.push_back({x, false});
        return r;
    }
    if (a->k == ADD || a->k == SUB) { r->k = ADD; flat(a, false, ADD, SUB, r->t); return r; }
    if (a->k == MUL || a->k == DIV) { r->k = MUL; flat(a, false, MUL, DIV, r->t); return r; }
    r->t.push_back({canon(a->l), false});
    if (a->r) r->t.push_back({canon(a->r), false});
    return r;
}
static bool closeNum(double want, double got) {
    if (want == got) return true;
    double m = std::fabs(want);
    if (m >= 1 || m <= 1e-16) return false;
    return std::fabs(want - got) <= 1e-16;
}
static bool same(const CP &a, const CP &b) { // a: original, b: read back
    if (a->k != b->k || a->name != b->name || a->t.size() != b->t.size()) return false;
    if (a->k == NUM) return closeNum(a->v, b->v);
    for (size_t i = 0; i < a->t.size(); ++i)
        if (a->t[i].second != b->t[i].second || !same(a->t[i].first, b->t[i].first)) return false;
    return true;
}
static void check(Ctx &c, const A &a) {
    Rng &r = c.rng;
    c.describe(show(a));
    c.eval();
    c.nontrivial(hashAst(a));
    Node n = toNode(a);
    std::string t = n->ToString();
    RefParse R = refParse(t);
    if (!R.ok) c.fail("unreadable", "the text is not an expression (" + R.why + "): [" + t + "]");
    if (!same(canon(a), canon(R.tree))) c.fail("wrong-text", "the text denotes another expression: [" + t + "] reads as " + show(R.tree));
    Node p;
    try {
        p = tomsolver::Parse(t);
    } catch (const std::runtime_error &e) {
        c.fail("not-parsed", "Parse rejects the printed text [" + t + "]: " + e.what());
    }
    if (!p->Equal(toNode(R.tree))) c.fail("parsed-differently", "Parse builds another expression from [" + t + "]: " + p->ToString());
    // however it was built
    Node m = toNodeR(a, r);
    if (m->ToString() != t) c.fail("build-dependent", "built differently, it prints as [" + m->ToString() + "] instead of [" + t + "]");
    Node cl = tomsolver::Clone(m);
    m.reset();
    if (cl->ToString() != t) c.fail("build-dependent", "its copy prints as [" + cl->ToString() + "]");
    std::stringstream ss;
    ss << n;
    if (ss.str() != t) c.fail("stream", "the stream operator prints [" + ss.str() + "] instead of [" + t + "]");
    if (n->ToString() != t) c.fail("stream", "printing twice gives different texts");
    if (r.chance(1, 2)) { // parsed from a spelling of its own
        bool neg = hasKind(a, [](const Ast &x) { return x.k == NUM && std::signbit(x.v); });
        if (!neg) {
            RenderOpt ro;
            ro.paren = r.below(3); ro.space = r.below(3); ro.altNames = ro.numAlt = r.chance(1, 2);
            std::string s = render(a, r, ro);
            Node q = tomsolver::Parse(s);
            if (q->ToString() != t) c.fail("build-dependent", "parsed from [" + s + "] it prints as [" + q->ToString() + "] instead of [" + t + "]");
            c.event("built-by-parsing");
        }
    }
    c.event("round-trips");
}
static A tower(Rng &r, int n) { // deep one-sided shapes
    A a = aVar("x");
    int mode = (int)r.below(6);
    for (int i = 0; i < n; ++i) switch (mode) {
        case 0: a = aUn(NEG, a); break;
        case 1: a = aUn(r.range(POS, EXP), a); break;
        case 2: a = aBin(r.range(ADD, MOD), a, aVar("y")); break;
        case 3: a = aBin(r.range(ADD, MOD), aVar("y"), a); break;
        case 4: a = aBin(POW, aNum(r.range(-2, 3)), a); break;
        default: a = r.chance(1, 2) ? aBin(r.range(ADD, DIV), a, aNum(2)) : aBin(r.range(ADD, DIV), aNum(3), a);
        }
    return a;
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    // all shapes of two nested operators, systematically
    if (c.idx < (uint64_t)(NK - POS)) {
        int outer = POS + (int)c.idx;
        std::vector<A> leaf{aVar("x"), aNum(2), aNum(-3), aNum(0.5), aNum(-1e-17), aNum(1e20)};
        for (int inner = POS; inner < NK; ++inner)
            for (int side = 0; side < 2; ++side) {
                A in = mk(inner, r.pick(leaf), isBin(inner) ? r.pick(leaf) : nullptr);
                if (!isBin(outer)) { check(c, aUn(outer, in)); continue; }
                for (auto &lf : leaf) check(c, side ? aBin(outer, lf, in) : aBin(outer, in, lf));
                for (int third = POS; third < NK; ++third) {
                    A in2 = mk(third, r.pick(leaf), isBin(third) ? r.pick(leaf) : nullptr);
                    check(c, side ? aBin(outer, in2, in) : aBin(outer, in, in2));
                    if (isUn(third)) { A w = aUn(third, in); check(c, side ? aBin(outer, w, in2) : aBin(outer, in2, w)); }
                }
            }
        c.event("operator-pairs", 1);
        return;
    }
    for (int q = 0; q < 6; ++q) {
        GenOpt o;
        o.size = r.chance(1, 400) ? r.range(901, 3500) : r.chance(1, 30) ? r.range(150, 900) : r.range(1, 30);
        switch (r.below(4)) {
        case 0: o.ops = allOps(); break;
        case 1: o.ops = {NEG, ADD, SUB, MUL, DIV, POW}; break;
        case 2: o.ops = {NEG, POW, AND, OR, MOD, MUL, SUB}; break;
        default: o.ops = {SUB, DIV, ADD, MUL}; break;
        }
        o.vars = {"x", genName(r), genName(r)};
        o.varBias = r.pick(std::vector<int>{0, 30, 60});
        o.unaryBias = r.range(5, 70);
        o.numProfile = r.pick(std::vector<int>{NP_TEXT, NP_TEXT, NP_MODERATE, NP_WILD, NP_ZERO_ONE});
        o.share = r.chance(1, 4) ? 30 : 0;
        A a = genAst(r, o);
        if (q == 0) c.sample(show(a));
        check(c, a);
    }
    if (r.chance(1, 20)) check(c, tower(r, r.range(10, 400)));
}
#include "common_impl.h"
