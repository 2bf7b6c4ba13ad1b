// C07: expressions behave as independent values under any construction history.
// Model-based histories over a pool of handles; the model is a plain persistent tree per handle.
#include "common.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C07";
uint64_t totalCases(bool th) { return th ? 40000 : 1500; }
void setupCheck(Ctx &) {}

static bool zeroConstant(const Ast &x) { return x.k == NUM && x.v == 0; }
struct Slot { Node n; A m; }; // m null: the handle is empty
struct Hist {
    Ctx &c;
    Rng &r;
    std::vector<Slot> p;
    std::string log;
    uint64_t sig = 1;
    explicit Hist(Ctx &c) : c(c), r(c.rng) { p.resize((size_t)r.range(3, 6)); }
    void say(const std::string &s) { log += s + "; "; if (log.size() > 3000) log.erase(0, 1500); c.describe(log); sig = mix(sig, hashStr(s)); }
    std::string sl(size_t i) { return fmt("n%zu", i); }
    void checkSlot(size_t i, const char *when) {
        Slot &s = p[i];
        if (!s.m) { if (s.n) c.fail("not-empty", std::string(when) + ": moved-from " + sl(i) + " still holds " + s.n->ToString()); return; }
        if (!s.n) c.fail("lost", std::string(when) + ": " + sl(i) + " is empty, expected " + show(s.m));
        s.n->CheckParent();
        Node ref = toNode(s.m);
        c.eval();
        if (!s.n->Equal(ref) || !ref->Equal(s.n)) c.fail("wrong-value", std::string(when) + ": " + sl(i) + " is " + s.n->ToString() + ", the model says " + show(s.m));
        if (s.n->ToString() != ref->ToString()) c.fail("wrong-text", std::string(when) + ": " + sl(i) + " prints " + s.n->ToString() + ", the model says " + ref->ToString());
        std::set<std::string> vs;
        varsOf(s.m, vs);
        if (hasKind(s.m, zeroConstant) && r.chance(1, 2)) { // equality does not see the sign of a zero constant, the value does
            Env env;
            for (auto &v : vs) env[v] = r.range(-3, 3);
            bool ok = true, ok2 = true;
            double want = evalAst(s.m, env, ok), got = ok ? libEval(s.n, env, ok2) : 0;
            if (ok && (!ok2 || bitsOf(got) != bitsOf(want))) c.fail("wrong-value", std::string(when) + ": " + sl(i) + fmt(" has the value %.17g, the model says %.17g: ", got, want) + show(s.m));
            if (ok) c.event("values-with-zero-constants");
        }
        if (s.n->GetAllVarNames() != vs) c.fail("names", std::string(when) + ": wrong set of variable names of " + s.n->ToString());
    }
    void checkAll(const char *when) { for (size_t i = 0; i < p.size(); ++i) checkSlot(i, when); c.nontrivial(sig); }
    size_t full() { // index of a non-empty slot, filling one if needed
        for (int t = 0; t < 8; ++t) { size_t i = r.below(p.size()); if (p[i].m) return i; }
        size_t i = r.below(p.size());
        GenOpt o;
        o.size = r.range(1, 8); o.ops = r.chance(1, 5) ? allOps() : smoothOps(); o.vars = {"x", "y", "z", "long_variable_name_that_needs_the_heap"};
        o.numProfile = r.chance(1, 2) ? NP_SMALLINT : NP_ZERO_ONE;
        A a = genAst(r, o);
        p[i].m = a;
        if (r.chance(1, 3)) { RenderOpt ro; ro.paren = r.below(3); ro.space = 1; Rng q(r.next()); bool neg = hasKind(a, [](const Ast &x) { return x.k == NUM && std::signbit(x.v); }); if (!neg) { p[i].n = Parse(render(a, q, ro)); say(sl(i) + "=Parse " + show(a)); return i; } }
        p[i].n = toNodeR(a, r);
        say(sl(i) + "=" + show(a));
        return i;
    }
    void set(size_t d, Node n, A m) { p[d].n = std::move(n); p[d].m = std::move(m); }
    bool small(const A &a) { return a->size < 400; }
    // adopt a result whose shape the property does not prescribe: read it back through its text
    void adopt(size_t d, Node n) {
        n->CheckParent();
        RefParse R = refParse(n->ToString());
        if (R.ok && R.tree->size < 300 && !hasKind(R.tree, zeroConstant) && n->Equal(toNode(R.tree))) { c.event("adopted-results"); set(d, std::move(n), R.tree); }
        else { c.event("dropped-results"); set(d, Num(1), aNum(1)); }
    }
    void step();
    void equalities();
};
// consumes or copies operand i
template <class F> static Node un(bool mv, Slot &s, F f) {
    if (!mv) return f((const Node &)s.n);
    Node x = f(std::move(s.n));
    s.m = nullptr;
    return x;
}
void Hist::step() {
    size_t i = full(), d = r.below(p.size());
    switch (r.below(21)) {
    case 0: { // unary
        int k = r.range(POS, EXP);
        A m = aUn(k, p[i].m);
        if (!small(m)) break;
        bool mv = r.chance(1, 2);
        say(sl(d) + "=" + opName(k) + (mv ? "(move " : "(") + sl(i) + ")");
        auto op = [&](auto &&x) -> Node {
            switch (k) {
            case POS: return +std::forward<decltype(x)>(x);
            case NEG: return -std::forward<decltype(x)>(x);
            case SIN: return tomsolver::sin(std::forward<decltype(x)>(x));
            case COS: return tomsolver::cos(std::forward<decltype(x)>(x));
            case TAN: return tomsolver::tan(std::forward<decltype(x)>(x));
            case ASIN: return tomsolver::asin(std::forward<decltype(x)>(x));
            case ACOS: return tomsolver::acos(std::forward<decltype(x)>(x));
            case ATAN: return tomsolver::atan(std::forward<decltype(x)>(x));
            case SQRT: return tomsolver::sqrt(std::forward<decltype(x)>(x));
            case LOG: return tomsolver::log(std::forward<decltype(x)>(x));
            case LOG2: return tomsolver::log2(std::forward<decltype(x)>(x));
            case LOG10: return tomsolver::log10(std::forward<decltype(x)>(x));
            default: return tomsolver::exp(std::forward<decltype(x)>(x));
            }
        };
        Node x = un(mv, p[i], op);
        checkSlot(i, "after unary");
        set(d, std::move(x), m);
        break;
    }
    case 1: case 2: case 3: { // binary
        size_t j = full();
        i = full();
        int k = r.range(ADD, POW);
        A m = aBin(k, p[i].m, p[j].m);
        if (!small(m)) break;
        bool mi = r.chance(1, 2), mj = r.chance(1, 2);
        if (i == j) mi = mj = false;
        say(sl(d) + "=" + (mi ? "move " : "") + sl(i) + opText(k) + (mj ? "move " : "") + sl(j));
        auto go = [&](auto &&a, auto &&b) -> Node {
            switch (k) {
            case ADD: return std::forward<decltype(a)>(a) + std::forward<decltype(b)>(b);
            case SUB: return std::forward<decltype(a)>(a) - std::forward<decltype(b)>(b);
            case MUL: return std::forward<decltype(a)>(a) * std::forward<decltype(b)>(b);
            case DIV: return std::forward<decltype(a)>(a) / std::forward<decltype(b)>(b);
            default: return std::forward<decltype(a)>(a) ^ std::forward<decltype(b)>(b);
            }
        };
        Node &a = p[i].n, &b = p[j].n;
        Node x = mi ? (mj ? go(std::move(a), std::move(b)) : go(std::move(a), b)) : (mj ? go(a, std::move(b)) : go(a, b));
        if (mi) p[i].m = nullptr;
        if (mj) p[j].m = nullptr;
        checkSlot(i, "after binary");
        checkSlot(j, "after binary");
        set(d, std::move(x), m);
        break;
    }
    case 4: case 5: { // compound assignment, possibly with itself
        size_t j = r.chance(1, 3) ? i : full();
        i = full();
        int k = r.range(ADD, POW);
        A m = aBin(k, p[i].m, p[j].m);
        if (!small(m)) break;
        bool mv = i != j && r.chance(1, 2);
        say(sl(i) + opText(k) + "=" + (mv ? "move " : "") + sl(j));
        Node &a = p[i].n, &b = p[j].n;
        Node *res = nullptr;
        switch (k) {
        case ADD: res = mv ? &(a += std::move(b)) : &(a += b); break;
        case SUB: res = mv ? &(a -= std::move(b)) : &(a -= b); break;
        case MUL: res = mv ? &(a *= std::move(b)) : &(a *= b); break;
        case DIV: res = mv ? &(a /= std::move(b)) : &(a /= b); break;
        case POW: res = mv ? &(a ^= std::move(b)) : &(a ^= b); break;
        }
        if (res != &a) c.fail("compound-return", "a compound assignment does not return its left operand");
        p[i].m = m;
        if (mv) p[j].m = nullptr;
        checkSlot(j, "after compound assignment");
        break;
    }
    case 6: say(sl(d) + "=Clone " + sl(i)); set(d, Clone(p[i].n), p[i].m); break;
    case 7: // handle moves
        if (i == d) break;
        say(sl(d) + "=move " + sl(i));
        if (r.chance(1, 2)) p[d].n = Move(p[i].n); else p[d].n = std::move(p[i].n);
        p[d].m = p[i].m;
        p[i].m = nullptr;
        break;
    case 8: { // object copies and moves
        if (!p[d].m) { 
            if (i != d && r.chance(1, 2)) { say(sl(d) + "=new moved from *" + sl(i)); A m = p[i].m; set(d, std::make_unique<internal::NodeImpl>(std::move(*p[i].n)), m); p[i].n.reset(); p[i].m = nullptr; }
            else { set(d, std::make_unique<internal::NodeImpl>(*p[i].n), p[i].m); say(sl(d) + "=new copy of *" + sl(i)); }
            break;
        }
        if (i != d && r.chance(1, 2)) {
            say("*" + sl(d) + "=move *" + sl(i));
            *p[d].n = std::move(*p[i].n);
            p[d].m = p[i].m;
            p[i].n.reset();
            p[i].m = nullptr;
        } else {
            say("*" + sl(d) + "=*" + sl(i));
            *p[d].n = *p[i].n;
            p[d].m = p[i].m;
        }
        break;
    }
    case 9: case 10: { // substitution
        size_t j = full();
        i = full();
        std::map<std::string, A> dict;
        std::vector<std::string> names{"x", "y", "z"};
        int nv = r.range(1, 3);
        bool mv = r.chance(1, 2) && i != j;
        Node x;
        if (r.chance(1, 3)) {
            std::map<std::string, double> vals;
            for (int q = 0; q < nv; ++q) { vals[names[q]] = r.range(-3, 5); dict[names[q]] = aNum(vals[names[q]]); }
            A m = subsAst(p[i].m, dict);
            if (!small(m)) break;
            say(sl(d) + "=Subs numbers " + (mv ? "move " : "") + sl(i));
            x = un(mv, p[i], [&](auto &&n) { return Subs(std::forward<decltype(n)>(n), vals); });
            set(d, std::move(x), m);
            break;
        }
        std::string v = r.pick(names);
        dict[v] = p[j].m;
        A m = subsAst(p[i].m, dict);
        if (!small(m)) break;
        say(sl(d) + "=Subs " + (mv ? "move " : "") + sl(i) + " " + v + "->" + sl(j));
        x = un(mv, p[i], [&](auto &&n) { return Subs(std::forward<decltype(n)>(n), v, p[j].n); });
        checkSlot(i, "after Subs");
        checkSlot(j, "after Subs");
        set(d, std::move(x), m);
        break;
    }
    case 11: case 12: { // differentiation: operands kept, result adopted
        if (p[i].m->size > 40) break;
        std::string v = r.pick(std::vector<std::string>{"x", "y", "q"});
        int ord = r.chance(1, 4) ? 2 : 1;
        bool mv = r.chance(1, 3);
        say(sl(d) + "=Diff " + (mv ? "move " : "") + sl(i) + " by " + v);
        Node x;
        try {
            x = un(mv, p[i], [&](auto &&n) { return Diff(std::forward<decltype(n)>(n), v, ord); });
        } catch (const Violation &) { throw;
        } catch (const std::runtime_error &) {
            if (mv) { p[i].n.reset(); p[i].m = nullptr; }
            checkSlot(i, "after a failed Diff");
            c.event("failed-diff");
            break;
        }
        checkSlot(i, "after Diff");
        adopt(d, std::move(x));
        break;
    }
    case 13: case 14: { // simplify in place
        if (p[i].m->size > 60) break;
        say("Simplify " + sl(i));
        Simplify(p[i].n);
        adopt(i, std::move(p[i].n));
        break;
    }
    case 15: { // calculate in place
        bool ok = true;
        double v = evalAst(p[i].m, {}, ok);
        std::set<std::string> vs;
        varsOf(p[i].m, vs);
        say("Calc " + sl(i));
        try {
            p[i].n->Calc();
            if (!vs.empty() || !ok) c.fail("calc", "Calc succeeded on " + show(p[i].m));
            p[i].m = aNum(v);
            c.event("calculated");
        } catch (const Violation &) { throw;
        } catch (const std::runtime_error &) {
            if (vs.empty() && ok) c.fail("calc", "Calc failed on " + show(p[i].m));
        }
        break;
    }
    case 16: { // observers
        say("observe " + sl(i));
        (void)p[i].n->ToString();
        (void)p[i].n->GetAllVarNames();
        try { (void)p[i].n->Vpa(); } catch (const std::runtime_error &) {}
        break;
    }
    case 17: say("reset " + sl(d)); set(d, nullptr, nullptr); break;
    case 18: { // through a symbolic vector
        size_t j = full();
        i = full();
        if (i == j || !small(p[i].m)) break;
        say("vector of " + sl(i) + "," + sl(j));
        SymVec v{Clone(p[i].n), Clone(p[j].n)};
        SymMat w = v.Clone();
        v[0] = Num(7);
        A mi = p[i].m, mj = p[j].m;
        set(d, std::move(w.Value(0, 0)), mi);
        if (!w.Value(1, 0)->Equal(toNode(mj))) c.fail("vector", "an element of a copied symbolic vector changed");
        break;
    }
    case 19: { // parse back
        Node x = Parse(p[i].n->ToString());
        say(sl(d) + "=Parse text of " + sl(i));
        adopt(d, std::move(x));
        break;
    }
    default: { // swap handles
        say("swap " + sl(i) + "," + sl(d));
        std::swap(p[i].n, p[d].n);
        std::swap(p[i].m, p[d].m);
    }
    }
    checkSlot(d, "after the step");
    checkSlot(i, "after the step");
    c.event("steps");
}
static A mutated(Rng &r, const A &a) { // one local change
    if (a->k == NUM) return r.chance(1, 3) ? aVar("x") : aNum(r.chance(1, 2) ? std::nextafter(a->v, 1e9) : a->v + 1);
    if (a->k == VAR) return r.chance(1, 3) ? aNum(0) : aVar(a->name + "_");
    if (r.chance(1, 4)) {
        int k;
        do k = isBin(a->k) ? r.range(ADD, MOD) : r.range(POS, EXP); while (k == a->k);
        return mk(k, a->l, a->r);
    }
    if (a->r && r.chance(1, 5) && !sameAst(a->l, a->r)) return mk(a->k, a->r, a->l);
    if (a->r && r.chance(1, 2)) return mk(a->k, a->l, mutated(r, a->r));
    if (r.chance(1, 6)) return a->l;
    return mk(a->k, mutated(r, a->l), a->r);
}
void Hist::equalities() {
    std::vector<std::pair<Node, A>> v;
    for (auto &s : p) if (s.m) {
        v.push_back({Clone(s.n), s.m});
        A q = mutated(r, s.m);
        v.push_back({toNode(q), q});
        v.push_back({toNode(s.m), s.m});
    }
    for (auto &a : v) for (auto &b : v) {
        bool want = sameAst(a.second, b.second), got = a.first->Equal(b.first);
        c.eval();
        c.event(want ? "equal-pairs" : "unequal-pairs");
        if (want != got) c.fail("equality", std::string("Equal says ") + (got ? "equal: " : "different: ") + show(a.second) + " and " + show(b.second));
    }
}
void runCase(Ctx &c) {
    Hist h(c);
    int n = c.rng.chance(1, 10) ? c.rng.range(60, 200) : c.rng.range(5, 40);
    for (int i = 0; i < n; ++i) {
        h.step();
        if (i % 8 == 7) h.checkAll("full check");
    }
    h.checkAll("at the end");
    h.equalities();
    // destroy in random order; the others must survive
    for (size_t i = 0; i < h.p.size(); ++i) {
        size_t k = c.rng.below(h.p.size());
        h.set(k, nullptr, nullptr);
        h.checkAll("after a destruction");
    }
    c.sample(h.log);
}
#include "common_impl.h"
