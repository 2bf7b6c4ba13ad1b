// C26: a string is a variable name exactly if it is an identifier; every operation keeps names byte for byte and tells
// any two names apart. Oracle: the identifier rule, and renaming: an operation on an expression whose names were
// exchanged (keeping their order) gives the exchanged result.
#include "common.h"
#include "problems.h"
using namespace h;
using namespace tomsolver;
const char *PROP = "C26";
uint64_t totalCases(bool th) { return 300 + (th ? 60000 : 3000); }
void setupCheck(Ctx &) {}
static bool identifier(const std::string &s) {
    if (s.empty()) return false;
    for (size_t i = 0; i < s.size(); ++i) {
        char c = s[i];
        bool let = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_', dig = c >= '0' && c <= '9';
        if (!let && !(dig && i)) return false;
    }
    return true;
}
static std::string quoted(const std::string &s) {
    std::string o;
    for (unsigned char c : s) o += c >= 32 && c < 127 ? std::string(1, (char)c) : fmt("\\x%02x", c);
    return "\"" + (o.size() > 120 ? o.substr(0, 100) + "..." : o) + "\"";
}
static void accept(Ctx &c, const std::string &s) {
    bool want = identifier(s), got = true;
    std::string err;
    Node n;
    c.eval();
    try { n = Var(s); } catch (const std::runtime_error &e) { got = false; err = e.what(); }
    if (got != want) c.fail("acceptance", quoted(s) + (got ? " is accepted as a name" : " is rejected as a name: " + err));
    if (VarNameIsLegal(s) != want) c.fail("acceptance", quoted(s) + " is judged wrongly by VarNameIsLegal");
    if (!want) return;
    if (n->ToString() != s) c.fail("kept", quoted(s) + " prints as " + quoted(n->ToString()));
    if (n->GetAllVarNames() != std::set<std::string>{s}) c.fail("kept", quoted(s) + " is not the only name of its expression");
    c.event("accepted-names");
    if (isReserved(s)) return;
    for (auto &t : {s, " " + s + " ", "(" + s + ")"}) {
        Node p;
        try { p = Parse(t); } catch (const std::runtime_error &e) { c.fail("parsed", quoted(t) + " is rejected: " + e.what()); }
        if (!p->Equal(n) || !n->Equal(p) || p->ToString() != s) c.fail("parsed", quoted(t) + " is parsed as " + quoted(p->ToString()));
    }
    c.eval(3);
}
// names that invite confusion
static std::string hostile(Rng &r, const std::vector<std::string> &have) {
    static const std::string al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    static const char *const seeds[] = {"znspswE5IcPO", "sin", "cos", "tan", "log", "log2", "log10", "ln", "exp", "sqrt", "asin", "acos", "atan", "arcsin", "arccos", "arctan", "e", "E", "x", "pi", "inf", "nan", "_", "__", "e5", "E10", "x1", "x10", "n", "abs", "pow", "mod", "and", "or", "infinity", "null", "p", "long_variable_name_that_needs_the_heap"};
    // names with the same 32-bit hash (FNV-1a, FNV-1, the multiplicative ones by 31, 33, 131, sdbm, CRC-32, one-at-a-time)
    static const char *const twins[][2] = {{"oc42c58", "qn4bivz"}, {"nxd5qlc", "uenbw8j"}, {"j0g4yqg", "bnjyi9xo"}, {"v4ge", "yl4yjwv7"}, {"g4p7qmi", "uz2w2k2"}, {"j3h7q88", "j4gfopc"}, {"uc8", "gfussrd"}, {"mxj", "czdhym"}, {"ttr8", "v2pz"}, {"m5ro", "m70o"}, {"z8gfon3", "p9_jbri"}, {"v1u4qw7", "v336157"}, {"ajg", "ljnezo"}, {"piri9j03", "r6oc"}, {"m5ro", "m70o"}, {"cct7", "ca4u"}, {"ch_dcqy", "lhpl_iu"}, {"y0k37_j", "y0iwvxj"}, {"f_lghm8", "wkaywhe1"}, {"b5ak2jm", "pu1ej_8t"}, {"zg9q", "zewq"}, {"jq78", "josv"}, {"ts4zinq", "v3rzk0q"}, {"dc8wsjz", "rqxw37g"}, {"paqp", "eboxu8q8"}, {"v9g30", "ge2ygjqj"}, {"kvext43", "tdjd4_n"}, {"u4hzt9z", "qerry3n"}, {"unenmcz", "l4tnixhy"}, {"d0yqgnd", "mtj87_"}, {"jsjiyrm", "tiwddyc"}, {"jh3guby", "l6mnsvh"}, {"qk8", "srtj0sv"}, {"h33f4qgi", "j0obv"}, {"sap6x7c", "k4c1bp2"}, {"aqu9a7q", "pn_6o2z"}, {"zzf7r8", "x9ceq7c"}, {"e9vjcn", "co5h"}, {"qwgk", "ujsg"}, {"jaa_", "bg9w"}, {"xl51aro", "pvvpde5"}, {"v7o1ijy", "v7nih_3"}, {"bpus9fpj", "o0q7"}, {"lp7n0", "i8qmj0l6"}, {"costarring", "liquid"}, {"Aa", "BB"}, {"playwright", "snush"}, {"codding", "gnu"}};
    for (int tries = 0;; ++tries) {
        if (tries < 2 && r.chance(1, 4)) {
            std::string s;
            if (have.empty()) s = twins[r.below(sizeof twins / sizeof *twins)][r.below(2)];
            else for (auto &t : twins) for (int k = 0; k < 2; ++k) if (std::find(have.begin(), have.end(), t[k]) != have.end() && std::find(have.begin(), have.end(), t[1 - k]) == have.end() && (s.empty() || r.chance(1, 2))) s = t[1 - k];
            if (!s.empty() && std::find(have.begin(), have.end(), s) == have.end()) return s;
        }
        std::string s = !have.empty() && r.chance(3, 5) ? r.pick(have) : seeds[r.below(sizeof seeds / sizeof *seeds)];
        for (int k = r.range(0, 2); k > 0 || isReserved(s) || !identifier(s); --k) {
            if (s.empty()) { s = "q"; continue; }
            size_t p = r.chance(1, 2) ? s.size() - 1 : r.below(s.size());
            switch (r.below(8)) {
            case 0: s += r.pick(al); break;
            case 1: s.erase(p, 1); break;
            case 2: s[p] = r.pick(al); break;
            case 3: s[p] = (char)(isupper((unsigned char)s[p]) ? tolower((unsigned char)s[p]) : toupper((unsigned char)s[p])); break;
            case 4: s.insert(p, 1, r.pick(al)); break;
            case 5: s = "_" + s; break;
            case 6: if (p + 1 < s.size()) std::swap(s[p], s[p + 1]); else s += "_"; break;
            default: if (s.size() < 80) { size_t n = r.chance(1, 8) ? r.range(1, 200) : r.range(1, 16); char ch = r.pick(al); s.append(n, ch); } else s.resize(r.range(1, 9)); break;
            }
        }
        if (std::find(have.begin(), have.end(), s) == have.end()) return s;
    }
}
static std::vector<std::string> hostileNames(Rng &r, int n) {
    std::vector<std::string> v;
    while ((int)v.size() < n) v.push_back(hostile(r, v));
    std::sort(v.begin(), v.end());
    return v;
}
static std::string renamed(const std::string &t, const std::map<std::string, std::string> &m) {
    std::string o;
    for (size_t i = 0; i < t.size();) {
        unsigned char c = t[i];
        size_t j = i;
        if (isalpha(c) || c == '_') {
            while (j < t.size() && (isalnum((unsigned char)t[j]) || t[j] == '_')) ++j;
            std::string w = t.substr(i, j - i);
            auto it = m.find(w);
            o += it == m.end() ? w : it->second;
        } else if (isdigit(c)) {
            while (j < t.size() && (isalnum((unsigned char)t[j]) || t[j] == '.' || ((t[j] == '+' || t[j] == '-') && (t[j - 1] == 'e' || t[j - 1] == 'E')))) ++j;
            o += t.substr(i, j - i);
        } else { o += (char)c; j = i + 1; }
        i = std::max(j, i + 1);
    }
    return o;
}
static A renamedAst(const A &a, const std::map<std::string, std::string> &m) {
    std::map<std::string, A> q;
    for (auto &x : m) q[x.first] = aVar(x.second);
    return subsAst(a, q);
}
static std::string errText(const std::exception &e) { return dynamic_cast<const MathError *>(&e) ? fmt("MathError %d", (int)dynamic_cast<const MathError &>(e).GetErrorType()) : std::string("error"); }
// every operation on expressions over the given names, in the given order
static std::vector<std::pair<std::string, std::string>> results(const std::vector<A> &ex, const std::vector<std::string> &nm, uint64_t seed) {
    std::vector<std::pair<std::string, std::string>> out;
    Rng r(seed);
    auto op = [&](const std::string &what, const std::function<std::string()> &f) {
        std::string s;
        try { s = f(); } catch (const std::exception &e) { s = errText(e); }
        out.emplace_back(what, s);
    };
    int n = (int)nm.size();
    std::string first = nm[r.below(n)], second = nm[r.below(n)];
    std::map<std::string, double> at;
    std::map<std::string, Node> swapTo;
    std::vector<std::string> perm = nm;
    for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
    for (int i = 0; i < n; ++i) { at[nm[i]] = r.uniform(0.3, 2); swapTo[nm[i]] = Var(perm[i]); }
    std::vector<std::string> half(perm.begin(), perm.begin() + (n + 1) / 2);
    for (auto &a : ex) {
        Node e = toNode(a);
        op("print", [&] { return e->ToString(); });
        op("parse the text", [&] { Node p = Parse(e->ToString()); return p->ToString(); });
        op("names", [&] { std::string s; for (auto &v : e->GetAllVarNames()) s += v + " "; return s; });
        op("derivatives", [&] { std::string s; for (auto &v : nm) s += Diff(e, v)->ToString() + " ; "; return s; });
        op("mixed derivative", [&] { return Diff(Diff(e, first), second)->ToString(); });
        op("simplify", [&] { Node s = Clone(e); Simplify(s); return s->ToString(); });
        op("substitute one", [&] { return Subs(e, first, Var(second) + Num(1))->ToString(); });
        op("exchange all", [&] { return Subs(e, swapTo)->ToString(); });
        op("substitute half", [&] { SymVec q((int)half.size()); for (int i = 0; i < q.Rows(); ++i) q[i] = Num(i) * Var(nm[i]); return Subs(e, half, q)->ToString(); });
        op("substitute numbers by table", [&] { std::map<std::string, double> some; for (auto &v : half) some[v] = at[v]; return Subs(e, VarsTable(some))->ToString(); });
        op("value", [&] { return num17(Subs(e, at)->Vpa()); });
        op("equal after renaming", [&] { std::string s; for (auto &v : nm) { Node q = Subs(e, first, Var(v)); s += fmt("%d%d", q->Equal(e), e->Equal(q)); } return s; });
    }
    op("jacobian", [&] { SymVec f((int)ex.size()); for (int i = 0; i < f.Rows(); ++i) f[i] = toNode(ex[i]); SymMat J = Jacobian(f, perm); std::string s = J.ToString() + " "; for (auto &v : f.GetAllVarNames()) s += v + " "; return s; });
    op("symbolic matrix", [&] { SymMat m(1, (int)ex.size()); for (int i = 0; i < m.Cols(); ++i) m.Value(0, i) = toNode(ex[i]); SymMat q = m.Clone(); q.Subs(std::map<std::string, double>{{first, 2}}); return q.ToString() + fmt("%d", q == m); });
    op("table", [&] {
        VarsTable t(perm, 0.5), u(at);
        std::string s = t.ToString() + u.ToString();
        for (auto &v : t.Vars()) s += v + ",";
        for (auto &v : u.Vars()) s += v + ",";
        for (auto &v : nm) s += fmt("%d %.17g ", t.Has(v), u[v]);
        std::map<std::string, double> part(at);
        part.erase(first);
        if (part.empty()) return s;
        VarsTable w(part);
        for (auto &v : nm) s += fmt("%d ", w.Has(v));
        try { w[first]; s += "found"; } catch (const std::out_of_range &) { s += "absent "; }
        s += fmt(" %d ", u == w);
        Vec vals(n);
        for (int i = 0; i < n; ++i) vals[i] = i;
        t.SetValues(vals);
        for (auto &v : t) s += v.first + fmt("=%.17g ", v.second);
        return s;
    });
    op("affine system", [&] { // sum of the names and their differences
        SymVec f(n);
        for (int i = 0; i < n; ++i) f[i] = Var(nm[i]) * Num(2) - Var(nm[(i + 1) % n]) - Num(i + 1);
        VarsTable a = Solve(f), b = Solve(f, VarsTable(perm, 0.25)), d = SolveByLM(f, VarsTable(at));
        std::string s = a.ToString();
        for (auto &v : nm) s += num17(a[v]) + " " + num17(b[v]) + " " + num17(d[v]) + " ";
        return s;
    });
    return out;
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    if (c.idx < 300) { // acceptance
        c.describe(fmt("names, group %d", (int)c.idx));
        if (c.idx < 256) {
            accept(c, std::string(1, (char)c.idx));
            for (int b = 0; b < 256; ++b) { accept(c, std::string(1, (char)c.idx) + (char)b); accept(c, std::string(1, (char)c.idx) + "x" + (char)b); if (b % 4 == 0) accept(c, std::string("y_") + (char)c.idx + (char)b + "z"); }
        }
        accept(c, "");
        for (int k = 0; k < 60; ++k) {
            std::vector<std::string> none;
            std::string s = hostile(r, none);
            if (r.chance(1, 6)) s.append(r.range(1, r.chance(1, 5) ? 70000 : 600), r.chance(1, 2) ? 'a' : '7');
            accept(c, s);
            std::string bad = s;
            bad[r.below(bad.size())] = (char)r.below(256);
            accept(c, bad);
            accept(c, s + (char)r.below(256));
            accept(c, (char)r.below(256) + s);
        }
        c.nontrivial(mix(1, c.idx));
        return;
    }
    if (c.idx % 3 == 0) { // pairs
        for (int k = 0; k < 20; ++k) {
            std::vector<std::string> v{hostile(r, {})};
            v.push_back(hostile(r, v));
            const std::string &a = v[0], &b = v[1];
            std::string w = quoted(a) + " and " + quoted(b);
            c.describe(w);
            c.eval(10);
            Node x = Var(a), y = Var(b), s = x + y, p = Parse(a + "+" + b);
            if (x->Equal(y) || y->Equal(x)) c.fail("confused", w + " are called equal");
            if (!p->Equal(s) || p->Equal(y + x)) c.fail("confused", w + " are confused in a parsed sum");
            if (s->GetAllVarNames() != std::set<std::string>{a, b}) c.fail("confused", w + ": wrong set of names");
            if (!Subs(s, a, Num(1))->Equal(Num(1) + y) || !Subs(s, b, Num(1))->Equal(x + Num(1))) c.fail("confused", w + " are confused by Subs");
            if (!Subs(s, std::map<std::string, double>{{b, 2}})->Equal(x + Num(2)) || !Subs(s, VarsTable{{a, 3}})->Equal(Num(3) + y)) c.fail("confused", w + " are confused by Subs of numbers");
            if (!Subs(s, std::vector<std::string>{a, b}, SymVec{Clone(y), Clone(x)})->Equal(y + x)) c.fail("confused", w + " are not exchanged");
            Node t = Num(3) * x + Num(5) * y;
            auto value = [](Node d) { return Subs(d, std::map<std::string, double>())->Vpa(); };
            if (value(Diff(t, a)) != 3 || value(Diff(t, b)) != 5) c.fail("confused", w + " are confused by Diff");
            VarsTable tab(std::map<std::string, double>{{a, 1}});
            bool threw = false;
            try { tab[b]; } catch (const std::out_of_range &) { threw = true; }
            if (!tab.Has(a) || tab.Has(b) || !threw || tab[a] != 1) c.fail("confused", w + " are confused by a table");
            VarsTable both{{a, 1}, {b, 2}};
            if (both[a] != 1 || both[b] != 2 || both.VarNums() != 2) c.fail("confused", w + " are confused by a table");
            SymMat J = Jacobian(SymVec{Clone(t), y * Num(7)}, {b, a});
            Mat m = J.Calc().ToMat();
            if (m.Value(0, 0) != 5 || m.Value(0, 1) != 3 || m.Value(1, 0) != 7 || m.Value(1, 1) != 0) c.fail("confused", w + " are confused by a Jacobian");
            c.event("pairs");
            c.nontrivial(hashStr(a + " " + b));
        }
        return;
    }
    int n = r.range(1, 5);
    std::vector<std::string> plain, host = hostileNames(r, n);
    for (int i = 0; i < n; ++i) plain.push_back(fmt("p%d", i));
    std::map<std::string, std::string> m;
    for (int i = 0; i < n; ++i) m[plain[i]] = host[i];
    std::vector<A> e1, e2;
    std::string what;
    for (int k = r.range(1, 3); k > 0; --k) {
        GenOpt o;
        o.size = r.range(1, 16);
        o.ops = r.chance(4, 5) ? smoothOps() : allOps();
        o.vars = plain;
        o.varBias = 70;
        o.numProfile = NP_MODERATE;
        e1.push_back(genAst(r, o));
        e2.push_back(renamedAst(e1.back(), m));
        what += show(e2.back()) + "; ";
    }
    c.describe(what);
    c.sample(what);
    uint64_t seed = r.next();
    auto a = results(e1, plain, seed), b = results(e2, host, seed);
    for (size_t i = 0; i < a.size(); ++i) {
        c.eval();
        std::string want = renamed(a[i].second, m);
        if (a[i].first == "names" ) { /* already in order */ }
        if (want != b[i].second) c.fail("renaming", a[i].first + ": with the names p0, p1, ... the result is, renamed, [" + want.substr(0, 400) + "], with these names it is [" + b[i].second.substr(0, 400) + "]");
    }
    c.event("renamed-results", a.size());
    c.nontrivial(hashStr(what));
}
#include "common_impl.h"
