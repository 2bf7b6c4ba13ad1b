// C02: Parse accepts exactly the documented grammar and builds the tree it denotes.
#include "common.h"
using namespace h;
const char *PROP = "C02";
// two alphabets: structure and spelling
static const std::vector<std::string> S1{"(", ")", "+", "-", "*", "^", "x", "2", "cos "};
static const std::vector<std::string> S2{"1", "e", ".", "-", "x", "(", " ", "5"};
static const std::vector<std::string> SFUN{"sin", "cos", "tan", "asin", "acos", "atan", "arcsin", "arccos", "arctan", "sqrt", "log", "log2", "log10", "exp"};
static std::string near(Rng &r, std::string f) { // a name one step away from a function name
    switch (r.below(6)) {
    case 0: f[r.below(f.size())] ^= 32; break;
    case 1: for (char &ch : f) ch = (char)toupper(ch); break;
    case 2: f.erase(r.below(f.size()), 1); break;
    case 3: f.insert(r.below(f.size() + 1), 1, "abcsinlogexp_012"[r.below(16)]); break;
    case 4: std::swap(f[0], f[r.below(f.size())]); break;
    default: f[0] = (char)toupper(f[0]);
    }
    return f;
}
static const std::vector<std::string> S3{"x", "y", "%", "&", "|", "^", "*", "-"};
static int L1(bool th) { return th ? 7 : 5; }
static int L2(bool th) { return th ? 7 : 5; }
static int L3(bool th) { return th ? 7 : 5; }
static uint64_t cnt(size_t a, int l) { uint64_t n = 0, p = 1; for (int i = 0; i <= l; ++i) { n += p; p *= a; } return n; }
static const int BATCH = 400;
static uint64_t nb(uint64_t n) { return (n + BATCH - 1) / BATCH; }
struct Plan { uint64_t n1, n2, n3, rnd; };
static Plan plan(bool th) { return {cnt(S1.size(), L1(th)), cnt(S2.size(), L2(th)), cnt(S3.size(), L3(th)), (uint64_t)(th ? 60000 : 2500)}; }
uint64_t totalCases(bool th) { Plan p = plan(th); return nb(p.n1) + nb(p.n2) + nb(p.n3) + p.rnd; }
void setupCheck(Ctx &) {}

static void one(Ctx &c, const std::string &s, const A &want = nullptr) {
    RefParse R = refParse(s);
    if (R.why == "unspec") { c.event("outside-the-specification"); return; }
    if (want && !(R.ok && sameAst(R.tree, want))) c.fail("self-check", "the reference parser disagrees with the reference printer: " + s);
    c.eval();
    c.nontrivial(hashStr(s));
    Node n;
    std::string err;
    try {
        if (c.rng.chance(1, 5) && s.find('\0') == std::string::npos) { n = c.rng.chance(1, 2) ? tomsolver::Parse(s.c_str()) : tomsolver::operator""_f(s.c_str(), s.size()); c.event("c-strings-and-literals"); }
        else n = tomsolver::Parse(s);
    } catch (const std::runtime_error &e) {
        err = e.what();
    }
    if (R.ok && !n) c.fail("rejected-valid", "a string of the grammar was rejected: [" + s + "]: " + err);
    if (!R.ok && n) c.fail("accepted-invalid", "a string outside the grammar (" + R.why + ") was accepted: [" + s + "] as " + n->ToString());
    if (!n) { c.event("rejected"); return; }
    c.event("accepted");
    n->CheckParent();
    Node ref = toNode(R.tree);
    if (!n->Equal(ref)) c.fail("wrong-tree", "[" + s + "] should be " + show(R.tree) + " but parsed as " + n->ToString());
    // a second opinion independent of the library's Equal: the value at a point
    std::set<std::string> vs;
    varsOf(R.tree, vs);
    if (n->GetAllVarNames() != vs) c.fail("wrong-names", "[" + s + "] has other variable names than it should");
    if (R.tree->size <= 60 && c.rng.chance(1, 4)) {
        Env env;
        for (auto &v : vs) env[v] = c.rng.uniform(0.3, 3);
        bool ok = true, ok2 = true;
        double want = evalAst(R.tree, env, ok);
        if (ok) {
            double got = libEval(n, env, ok2);
            if (!ok2 || bitsOf(got) != bitsOf(want)) c.fail("wrong-value", fmt("value %.17g instead of %.17g for ", got, want) + s);
            c.event("value-comparisons");
        }
    }
}
// very long runs, compared with the tree built by hand (the reference parser is not used: it may recurse)
static void veryLong(Ctx &c) {
    using namespace tomsolver;
    Rng &r = c.rng;
    static const int lens[] = {126, 127, 128, 129, 255, 256, 257, 1000, 4097, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 70000, 131073};
    int n = lens[r.below(sizeof lens / sizeof *lens)];
    static const char *const core[] = {"x", "x-y", "2*x^3", "-x%y", "sin(x)"};
    std::string in = core[r.below(5)], s;
    Node want = tomsolver::Parse(in);
    int kind = (int)r.below(7);
    auto rep = [](const std::string &u, int k) { std::string t; for (int i = 0; i < k; ++i) t += u; return t; };
    switch (kind) {
    case 0: s = rep("(", n) + in + rep(")", n); break;
    case 1: s = rep("a-(", n) + in + rep(")", n); for (int i = 0; i < n; ++i) want = Var("a") - std::move(want); break;
    case 2: s = rep("exp(", n) + in + rep(")", n); for (int i = 0; i < n; ++i) want = exp(std::move(want)); break;
    case 3: s = "(" + in + ")" + rep("-1", n); for (int i = 0; i < n; ++i) want = std::move(want) - Num(1); break;
    case 4: s = rep("-(", n) + in + rep(")", n); for (int i = 0; i < n; ++i) want = -std::move(want); break;
    case 5: s = rep("b^", n) + "(" + in + ")"; for (int i = 0; i < n; ++i) want = Var("b") ^ std::move(want); break;
    default: s = rep("(", n) + in + rep("/c)", n); want = tomsolver::Parse("(" + in + ")"); if (in == "x-y") { want = Var("x") - Var("y") / Var("c"); } else if (in == "2*x^3" || in == "x" || in == "sin(x)" || in == "-x%y") want = std::move(want) / Var("c"); for (int i = 1; i < n; ++i) want = std::move(want) / Var("c");
    }
    c.describe(fmt("%d repetitions, kind %d, of %s", n, kind, in.c_str()));
    c.nontrivial(hashStr(c.caseText));
    c.eval();
    Node got;
    try { got = tomsolver::Parse(s); } catch (const std::runtime_error &e) { c.fail("rejected-valid", c.caseText + ": rejected: " + std::string(e.what()).substr(0, 60)); return; }
    if (!got->Equal(want)) c.fail("wrong-tree", c.caseText + ": another tree");
    // one parenthesis too few or too many
    if (kind != 3 && kind != 5) {
        bool many = r.chance(1, 2);
        s = many ? s + ")" : s.substr(0, s.size() - 1);
        try { got = tomsolver::Parse(s); c.fail("accepted-invalid", c.caseText + ": accepted with a parenthesis too " + (many ? "many" : "few")); } catch (const std::runtime_error &) {}
    }
    c.event("very-long-runs");
}
static void exh(Ctx &c, const std::vector<std::string> &S, uint64_t total, uint64_t b) {
    uint64_t from = b * BATCH, to = std::min<uint64_t>(from + BATCH, total);
    for (uint64_t i = from; i < to; ++i) {
        uint64_t k = i, len = 0, p = 1;
        while (k >= p) { k -= p; p *= S.size(); ++len; }
        std::string s;
        for (uint64_t j = 0; j < len; ++j) { s += S[k % S.size()]; k /= S.size(); }
        c.describe(s);
        one(c, s);
    }
    c.event("exhaustive-strings", to - from);
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    Plan p = plan(c.thorough);
    uint64_t i = c.idx;
    if (i < nb(p.n1)) return exh(c, S1, p.n1, i);
    i -= nb(p.n1);
    if (i < nb(p.n2)) return exh(c, S2, p.n2, i);
    i -= nb(p.n2);
    if (i < nb(p.n3)) return exh(c, S3, p.n3, i);
    i -= nb(p.n3);
    if (i % 60 == 7) veryLong(c);
    for (int q = 0; q < 12; ++q) {
        GenOpt o;
        o.size = r.chance(1, 400) ? r.range(801, 3500) : r.chance(1, 25) ? r.range(100, 800) : r.range(1, 30);
        o.ops = r.chance(1, 3) ? std::vector<int>{NEG, POS, SIN, LOG2, ADD, SUB, MUL, DIV, POW, MOD, AND, OR} : r.chance(1, 2) ? allOps() : std::vector<int>{NEG, SUB, DIV, POW, MOD, AND, MUL, ADD};
        o.vars = {genName(r), genName(r), genName(r)};
        o.unaryBias = r.range(5, 60);
        o.numProfile = r.pick(std::vector<int>{NP_SMALLINT, NP_TEXT, NP_MODERATE});
        A a = genAst(r, o);
        RenderOpt ro;
        ro.paren = r.below(3);
        ro.space = r.below(4);
        ro.altNames = r.chance(1, 2);
        ro.numAlt = r.chance(2, 3);
        std::string s = render(a, r, ro);
        c.describe(s);
        if (q == 0) c.sample(s);
        one(c, s);
        // function names and names close to them, as functions and as variables
        for (int k = 0; k < 3; ++k) {
            std::string f = r.pick(SFUN), g = r.chance(2, 3) ? near(r, f) : f, t;
            switch (r.below(7)) {
            case 0: t = g + "(x)"; break;
            case 1: t = g + " x"; break;
            case 2: t = g; break;
            case 3: t = g + "+" + f + "(" + g + ")"; break;
            case 4: t = f + " " + g + "(2)"; break;
            case 5: t = "2*" + g + "^" + g; break;
            default: t = f + "\t(" + g + "*3)-" + g;
            }
            c.describe(t);
            one(c, t);
            c.event("function-like-names");
        }
        // long runs of one construct (or two in turn) inside a larger text
        if (q % 4 == 0) {
            struct Run { const char *unit, *close; };
            static const Run runs[] = {{"-", ""}, {"+", ""}, {"(", ")"}, {"-(", ")"}, {"sin ", ""}, {"exp(", ")"}, {"x^", ""}, {"2-", ""}, {"y/", ""}, {"z*", ""}, {"x%", ""}, {"3&", ""}, {"x|", ""}, {"x+", ""}, {"-x^-", ""}, {"x-(", ")"}, {"2^(", ")"}, {" ", ""}, {"x%2&", ""}, {"1+2*", ""}, {"x^2*", ""}};
            static const char *ctx[] = {"", "", "x-", "2^", "3/", "-", "(1+2)*", "x%", "y&", "sin ", "x^2+"}, *ops[] = {"", "", "^2", "-y", "/3", "%4", "&x", "|2", "*z", "+1", "^-x^2", "-1-2", "%2&3^x*2+1"};
            Run u = runs[r.below(sizeof runs / sizeof *runs)], v = r.chance(1, 3) ? runs[r.below(sizeof runs / sizeof *runs)] : u;
            int len = r.chance(1, 2) ? r.range(8, 80) : r.range(80, c.thorough ? 3000 : 700);
            std::string t = ctx[r.below(sizeof ctx / sizeof *ctx)], close;
            for (int k = 0; k < len; ++k) { const Run &w = k % 2 ? v : u; t += w.unit; close += w.close; }
            t += r.chance(1, 2) ? "x" : numText(r.range(0, 20), r, false);
            if (r.chance(1, 2)) t += ops[r.below(sizeof ops / sizeof *ops)];
            t += close + ops[r.below(sizeof ops / sizeof *ops)];
            c.describe(t);
            one(c, t);
            c.event("long-runs");
        }
        // near misses: one edit away from a valid expression
        for (int k = 0; k < 4; ++k) {
            static const std::string ins[] = {"(", ")", "+", "-", "*", "/", "^", "&", "|", "%", " ", "1", "x", "sin ", "log", ".", "e", "E-", "e+3", "_", "(", ")", "3x", "$", ",", "@1", "1.2.3", "1e", "e5", "2e+", "X", "()"};
            std::string t = s;
            size_t at = r.below(t.size() + 1);
            switch (r.below(6)) {
            case 4: t.insert(at, 1, (char)(r.chance(1, 3) ? 0 : r.below(256))); c.event("arbitrary-bytes"); break;
            case 5: if (at < t.size()) t[at] = (char)(r.chance(1, 3) ? 0 : r.below(256)); c.event("arbitrary-bytes"); break;
            case 0: if (!t.empty()) t.erase(std::min(at, t.size() - 1), 1); break;
            case 1: t.insert(at, ins[r.below(sizeof ins / sizeof *ins)]); break;
            case 2: if (at < t.size()) t[at] = ins[r.below(10)][0]; break;
            default: { size_t b2 = r.below(t.size() + 1); if (at < t.size() && b2 < t.size()) std::swap(t[at], t[b2]); }
            }
            c.describe(t);
            one(c, t);
            c.event("near-misses");
        }
    }
}
#include "common_impl.h"
