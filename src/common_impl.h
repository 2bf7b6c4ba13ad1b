// Implementation part of common.h; included once per check binary, after the check's own code.
#include "common.h"
#if !defined(COMPOSITE) && !defined(COMMON_IMPL)
#define COMMON_IMPL
#include <sys/stat.h>
#include <sys/wait.h>

namespace h {

std::atomic<uint64_t> allocCount{0};
std::atomic<int64_t> liveCount{0};
std::atomic<int64_t> liveBytes{0};

// ------------------------------------------------------------ names and numbers
const std::vector<std::string> &commonNames() {
    static const std::vector<std::string> v{"x", "y", "z", "a", "b", "c", "d", "e", "t", "u", "x1", "x2", "x10", "y_1", "_", "_x", "X", "Y2", "pi", "theta", "alpha_0", "sinx", "xsin", "expo", "log2x", "e1", "E5", "i", "lambda", "x_1_2", "A", "cosine", "infx", "nano", "log1", "log20", "logx", "arc", "arcsinh", "sin_", "sqrt1", "Sin", "SIN", "Exp", "ln", "abs", "sinh", "E", "_1", "__", "atan2", "Log10", "nan_", "inf1", "tangent", "e10", "E_5", "x0", "p", "cos2", "znspswE5IcPO"};
    return v;
}
std::string genName(Rng &r) {
    static const std::string first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
    static const std::string rest = first + "0123456789";
    for (;;) {
        if (r.chance(1, 2)) return r.pick(commonNames());
        int len = r.chance(1, 12) ? r.range(15, 70) : r.range(1, 6);
        std::string s(1, r.pick(first));
        while ((int)s.size() < len) s += r.pick(rest);
        if (!isReserved(s)) return s;
    }
}
double genNumber(Rng &r, int p) {
    static const double tenths[] = {0.1, 0.2, 0.25, 0.5, 0.75, 1.5, 2.5, 3.14159, 0.001, 12.75, 0.3};
    switch (p) {
    case NP_SMALLINT:
        return r.chance(1, 8) ? (double)r.range(10, 100) : (double)r.range(0, 9);
    case NP_ZERO_ONE:
        switch (r.below(8)) {
        case 0: case 1: return 0;
        case 2: case 3: return 1;
        case 4: return -1;
        case 5: return -0.0;
        case 6: return r.range(2, 4);
        case 7:
            if (r.chance(1, 2)) { // close to 0 or 1, but not 0 or 1
                double d = std::pow(10.0, -r.uniform(5, 15.6)) * (r.chance(1, 2) ? 1 : -1);
                return r.chance(2, 3) ? 1 + d : r.chance(1, 2) ? d : -1 + d;
            }
            // fall through
        default: return r.pick(std::vector<double>(tenths, tenths + 11));
        }
    case NP_POSITIVE:
        return r.chance(1, 3) ? (double)r.range(1, 5) : r.uniform(0.2, 4.0);
    case NP_MODERATE:
        switch (r.below(5)) {
        case 0: return r.range(-5, 9);
        case 1: return tenths[r.below(11)];
        case 2: return -tenths[r.below(11)];
        case 3: return r.uniform(-4, 4);
        default: return r.range(1, 4);
        }
    case NP_TEXT: { // magnitudes that matter for printing
        double v;
        switch (r.below(12)) {
        case 0: v = r.range(0, 20); break;
        case 1: v = std::pow(10.0, r.range(-20, 20)); break;
        case 2: v = std::nextafter(std::pow(10.0, r.range(-18, 18)), r.chance(1, 2) ? 0.0 : HUGE_VAL); break;
        case 3: v = r.range(1, 999) * std::pow(10.0, r.range(-22, 22)); break;
        case 4: v = r.unit(); break;
        case 5: v = (double)(int64_t)(r.next() >> r.range(1, 50)); break;
        case 6: v = r.range(1, 9999) / std::pow(10.0, r.range(0, 8)); break;
        case 7: v = fromBits(r.next() & 0x7fffffffffffffffull); break;
        case 8: v = fromBits(r.next() & 0x000fffffffffffffull); break;
        case 9: v = 1e16 * r.uniform(0.5, 2); break;
        case 10: v = 1e-16 * r.uniform(0.5, 3); break;
        default: v = r.uniform(0, 1000); break;
        }
        if (!std::isfinite(v)) v = 1;
        return r.chance(1, 4) ? -v : v;
    }
    case NP_WILD:
    default: {
        static const double w[] = {0.0, -0.0, 1, -1, 2, 0.5, 1e308, -1e308, DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, -5e-324, 1e-300, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967296.0, 9007199254740993.0, 1e16, 1e-16, 0.1, 3, -3, 1e10, 700, 710, -745, 1.0000000000000002, M_PI, M_PI_2, 2147483647.5, -2147483648.5};
        switch (r.below(6)) {
        case 0: case 1: return w[r.below(sizeof w / sizeof *w)];
        case 2: return r.range(-20, 20);
        case 3: { double v = fromBits(r.next()); return std::isfinite(v) ? v : 7; }
        case 4: return r.uniform(-100, 100);
        default: return r.range(-1000000, 1000000) / 64.0;
        }
    }
    }
}
std::vector<int> allOps() { std::vector<int> v; for (int k = POS; k < NK; ++k) v.push_back(k); return v; }
std::vector<int> smoothOps() { std::vector<int> v; for (int k = POS; k <= POW; ++k) v.push_back(k); return v; }
std::vector<int> arithOps() { return {POS, NEG, ADD, SUB, MUL, DIV, POW}; }

static A genLeaf(Rng &r, const GenOpt &o) {
    if (!o.vars.empty() && r.range(1, 100) <= o.varBias) return aVar(r.pick(o.vars));
    return aNum(genNumber(r, o.numProfile));
}
static A genRec(Rng &r, const GenOpt &o, int size, const std::vector<int> &un, const std::vector<int> &bin, std::vector<A> &pool, int shape) {
    if (size <= 1) return genLeaf(r, o);
    if (o.share && !pool.empty() && r.range(1, 100) <= o.share) return r.pick(pool);
    bool u = size == 2 || bin.empty() || (!un.empty() && r.range(1, 100) <= o.unaryBias);
    if (u && un.empty()) u = false;
    A res;
    if (u) res = aUn(r.pick(un), genRec(r, o, size - 1, un, bin, pool, shape));
    else {
        int k = r.pick(bin), rest = std::max(2, size - 1), ls;
        switch (shape) {
        case 1: ls = 1; break;                 // right-leaning
        case 2: ls = rest - 1; break;          // left-leaning
        case 3: ls = rest / 2; break;          // balanced
        default: ls = r.range(1, rest - 1);
        }
        A l = genRec(r, o, ls, un, bin, pool, shape);
        res = aBin(k, l, genRec(r, o, rest - ls, un, bin, pool, shape));
    }
    if (pool.size() < 64) pool.push_back(res);
    return res;
}
A genAst(Rng &r, const GenOpt &o) {
    std::vector<int> un, bin;
    for (int k : o.ops) (isBin(k) ? bin : un).push_back(k);
    std::vector<A> pool;
    int shape = r.chance(1, 3) ? r.range(1, 3) : 0;
    return genRec(r, o, o.size, un, bin, pool, shape);
}

// ------------------------------------------------------------ rendering
std::string numText(double v, Rng &r, bool alt) {
    std::vector<std::string> c;
    auto add = [&](const std::string &s) { if (strtod(s.c_str(), nullptr) == v) c.push_back(s); };
    std::string g = num17(v);
    if (!alt) {
        for (int p = 1; p <= 17; ++p) { std::string s = fmt("%.*g", p, v); if (strtod(s.c_str(), nullptr) == v) return s; }
        return g;
    }
    add(g);
    for (int p = 1; p <= 17; ++p) { std::string s = fmt("%.*g", p, v); if (strtod(s.c_str(), nullptr) == v) { add(s); break; } }
    add(fmt("%.17e", v)); add(fmt("%.17E", v));
    if (v < 1e15) { add(fmt("%.20f", v)); add(fmt("00%.20f", v)); }
    if (v == std::floor(v) && v < 1e15) { add(fmt("%.0f.", v)); add(fmt("0%.0f", v)); add(fmt("%.0fe0", v)); add(fmt("%.1f", v)); add(fmt("%.0fE+00", v)); add(fmt("%.0f0e-1", v)); }
    if (v > 0 && v < 1) { std::string s = fmt("%.25f", v); add(s.substr(1)); }
    if (r.chance(1, 6)) { // very long spellings
        std::string z(r.pick(std::vector<int>{1, 7, 30, 260, 700}), '0');
        add(z + fmt("%.17e", v));
        std::string s = fmt("%.17e", v);
        size_t e = s.find('e');
        add(s.substr(0, e) + z + s.substr(e));
        add(s.substr(0, e + 2) + z + s.substr(e + 2));
        if (v > 0 && v < 1e20 && v > 1e-6) add(fmt("%.60f", v) + z);
        if (v == std::floor(v) && v < 1e9) { add(fmt("%.0f", v) + z + fmt("e-%d", (int)z.size())); add(fmt("%.0f.", v) + z); add("." + z + fmt("%.0f", v) + fmt("e%d", (int)(z.size() + fmt("%.0f", v).size()))); }
    }
    return r.pick(c);
}
static void sp(std::string &o, Rng &r, const RenderOpt &ro) {
    if (!ro.space) return;
    static const char ws[] = " \t\n\v\f\r ";
    int n = r.chance(1, 2) ? 0 : r.range(0, ro.space);
    while (n--) o += ws[r.below(7)];
}
static void rendBody(std::string &o, const A &a, Rng &r, const RenderOpt &ro);
static void rend(std::string &o, const A &a, Rng &r, const RenderOpt &ro, int ctxRank, bool strict) {
    // needs parentheses if its rank is lower than the context (or equal, when strict)
    if (a->k == NUM && std::signbit(a->v) && a->v != 0) { rend(o, aUn(NEG, aNum(-a->v)), r, ro, ctxRank, strict); return; }
    int rk = rankOf(a->k);
    int par = rk < ctxRank || (strict && rk == ctxRank);
    if (ro.paren == 2 && a->k > VAR) par = 1;
    if (ro.paren == 1 && r.chance(1, 5)) par += r.range(1, 2);
    sp(o, r, ro);
    for (int i = 0; i < par; ++i) { o += '('; sp(o, r, ro); }
    rendBody(o, a, r, ro);
    for (int i = 0; i < par; ++i) { sp(o, r, ro); o += ')'; }
    sp(o, r, ro);
}
static void rendBody(std::string &o, const A &a, Rng &r, const RenderOpt &ro) {
    int rk = rankOf(a->k);
    if (a->k == NUM) { o += numText(std::fabs(a->v), r, ro.numAlt); return; }
    if (a->k == VAR) { o += a->name; return; }
    if (isBin(a->k)) {
        bool rightAssoc = a->k == POW;
        rend(o, a->l, r, ro, rk, rightAssoc);
        o += opText(a->k);
        rend(o, a->r, r, ro, rk, !rightAssoc);
    } else if (isFun(a->k)) {
        std::string n = opText(a->k);
        if (ro.altNames && a->k >= ASIN && a->k <= ATAN && r.chance(1, 2)) n = "arc" + n.substr(1);
        o += n;
        // the operand of a prefix operator may follow without parentheses
        if (a->l->k <= EXP && ro.paren != 2 && r.chance(1, 3)) { o += ' '; rend(o, a->l, r, ro, 14, false); }
        else { sp(o, r, ro); o += '('; rend(o, a->l, r, ro, 0, false); o += ')'; }
    } else {
        o += opText(a->k);
        rend(o, a->l, r, ro, 14, false);
    }
}
std::string render(const A &a, Rng &r, const RenderOpt &o) {
    std::string s;
    RenderOpt q = o;
    rend(s, a, r, q, 0, false);
    return s;
}

// ------------------------------------------------------------ reference parser
static bool decimalNumber(const std::string &t) {
    size_t i = 0, dig = 0;
    while (i < t.size() && isdigit((unsigned char)t[i])) ++i, ++dig;
    if (i < t.size() && t[i] == '.') { ++i; while (i < t.size() && isdigit((unsigned char)t[i])) ++i, ++dig; }
    if (!dig) return false;
    if (i == t.size()) return true;
    if (t[i] != 'e' && t[i] != 'E') return false;
    ++i;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
    if (i == t.size()) return false;
    while (i < t.size() && isdigit((unsigned char)t[i])) ++i;
    return i == t.size();
}
static int funOf(const std::string &t) {
    for (int k = SIN; k <= EXP; ++k) if (t == opText(k)) return k;
    if (t == "arcsin") return ASIN;
    if (t == "arccos") return ACOS;
    if (t == "arctan") return ATAN;
    return 0;
}
RefParse refParse(const std::string &s, bool build) {
    RefParse R;
    std::vector<RefTok> T;
    std::set<int> badNames;
    bool unspec = false;
    auto isOp = [](char c) { return c && strchr("()+-*/^&|%", c); };
    size_t i = 0, n = s.size();
    while (i < n) {
        char c = s[i];
        if (c == ' ' || (c >= '\t' && c <= '\r')) { ++i; continue; }
        if (isOp(c)) { T.push_back({c == '(' ? 4 : c == ')' ? 5 : 3, (int)i, std::string(1, c)}); ++i; continue; }
        size_t j = i;
        for (;;) {
            while (j < n && !isOp(s[j]) && !(s[j] == ' ' || (s[j] >= '\t' && s[j] <= '\r'))) ++j;
            std::string t = s.substr(i, j - i);
            // signed exponent
            if (j < n && (s[j] == '+' || s[j] == '-') && t.size() >= 2 && (t.back() == 'e' || t.back() == 'E') && decimalNumber(t.substr(0, t.size() - 1)) &&
                t.find_first_of("eE") == t.size() - 1 && j + 1 < n && isdigit((unsigned char)s[j + 1])) { ++j; continue; }
            break;
        }
        std::string t = s.substr(i, j - i);
        RefTok k{0, (int)i, t};
        if (decimalNumber(t)) { k.v = strtod(t.c_str(), nullptr); if (!std::isfinite(k.v)) unspec = true; }
        else {
            // other spellings strtod knows (inf, nan, hexadecimal) are outside the specification
            char *e = nullptr;
            strtod(t.c_str(), &e);
            if (e == t.c_str() + t.size()) unspec = true;
            if ((k.k = funOf(t))) k.type = 2;
            else { k.type = 1; if (!isName(t)) badNames.insert((int)i); }
        }
        T.push_back(k);
        i = j;
    }
    if (unspec) { R.why = "unspec"; return R; }
    if (!badNames.empty()) { R.why = "name"; R.positions = badNames; return R; }
    if (T.empty()) { R.why = "empty"; R.positions = {0}; return R; }
    bool need = true;
    std::vector<int> open;
    for (auto &t : T) {
        switch (t.type) {
        case 0: case 1:
            if (!need) R.juxta++;
            need = false;
            break;
        case 2:
            if (!need) R.juxta++;
            need = true;
            break;
        case 4:
            if (!need) R.juxta++;
            open.push_back(t.pos);
            need = true;
            break;
        case 5:
            if (open.empty()) { R.why = "paren"; R.positions = {t.pos}; if (need) R.why = "parenoperand"; return R; }
            if (need) { R.why = "operand"; R.positions = {t.pos}; return R; }
            open.pop_back();
            break;
        case 3:
            if (need && t.text != "+" && t.text != "-") { R.why = "operand"; R.positions = {t.pos}; return R; }
            need = true;
            break;
        }
    }
    if (need || !open.empty()) {
        R.why = need ? "operand" : "paren";
        R.positions = std::set<int>(open.begin(), open.end());
        if (need) R.positions.insert(T.back().pos);
        return R;
    }
    if (R.juxta) { R.why = "juxtaposed"; for (auto &t : T) R.positions.insert(t.pos); return R; }
    R.ok = true;
    if (!build) return R;
    size_t p = 0;
    std::function<A(int)> expr;
    std::function<A()> prefix = [&]() -> A {
        auto &t = T[p++];
        switch (t.type) {
        case 0: return aNum(t.v);
        case 1: return aVar(t.text);
        case 2: { A x = prefix(); return aUn(t.k, x); }
        case 3: { A x = prefix(); return aUn(t.text == "-" ? NEG : POS, x); }
        default: { A x = expr(0); ++p; return x; }
        }
    };
    auto binOf = [&](const RefTok &t) {
        switch (t.text[0]) {
        case '+': return (int)ADD; case '-': return (int)SUB; case '*': return (int)MUL; case '/': return (int)DIV;
        case '^': return (int)POW; case '&': return (int)AND; case '|': return (int)OR; default: return (int)MOD;
        }
    };
    expr = [&](int minRank) -> A {
        A l = prefix();
        while (p < T.size() && T[p].type == 3) {
            int k = binOf(T[p]), rk = rankOf(k);
            if (rk < minRank) break;
            ++p;
            A r = expr(k == POW ? rk : rk + 1);
            l = aBin(k, l, r);
        }
        return l;
    };
    R.tree = expr(0);
    return R;
}

// ------------------------------------------------------------ jets
typedef long double LD;
static Jet jConst(LD v, int n) { Jet j; j.c.assign(n + 1, 0); j.m.assign(n + 1, 0); j.c[0] = v; j.m[0] = fabsl(v); return j; }
static Jet jMul(const Jet &a, const Jet &b) {
    int n = (int)a.c.size() - 1;
    Jet r = jConst(0, n);
    for (int i = 0; i <= n; ++i)
        for (int k = 0; k + i <= n; ++k) { r.c[i + k] += a.c[i] * b.c[k]; r.m[i + k] += a.m[i] * b.m[k]; }
    return r;
}
static Jet jScale(const Jet &a, LD s) { Jet r = a; for (auto &x : r.c) x *= s; for (auto &x : r.m) x *= fabsl(s); return r; }
static Jet jAdd(const Jet &a, const Jet &b, LD s) {
    Jet r = a;
    for (size_t i = 0; i < r.c.size(); ++i) { r.c[i] += s * b.c[i]; r.m[i] += b.m[i]; }
    return r;
}
static bool lamOk(const Jet &b, LD lo) { return fabsl(b.c[0]) >= lo && b.m[0] <= 1e3L * fabsl(b.c[0]); }
static Jet jDiv(const Jet &a, const Jet &b) {
    int n = (int)a.c.size() - 1;
    Jet q = jConst(0, n);
    LD lam = b.m[0] / fabsl(b.c[0]);
    for (int k = 0; k <= n; ++k) {
        LD v = a.c[k], m = a.m[k];
        for (int i = 0; i < k; ++i) { v -= q.c[i] * b.c[k - i]; m += q.m[i] * b.m[k - i]; }
        q.c[k] = v / b.c[0];
        q.m[k] = m / fabsl(b.c[0]) * lam;
    }
    return q;
}
static Jet jInt(const Jet &d, LD c0, LD m0) { // integrate derivative series d (coefficients of f') with f(0)=c0
    int n = (int)d.c.size() - 1;
    Jet r = jConst(c0, n);
    r.m[0] = m0;
    for (int k = 1; k <= n; ++k) { r.c[k] = d.c[k - 1] / k; r.m[k] = d.m[k - 1] / k; }
    return r;
}
static Jet jDer(const Jet &a) {
    int n = (int)a.c.size() - 1;
    Jet r = jConst(0, n);
    for (int k = 1; k <= n; ++k) { r.c[k - 1] = a.c[k] * k; r.m[k - 1] = a.m[k] * k; }
    return r;
}
static Jet jExp(const Jet &u) {
    int n = (int)u.c.size() - 1;
    Jet e = jConst(expl(u.c[0]), n);
    e.m[0] = fabsl(e.c[0]) * (1 + u.m[0]);
    for (int k = 1; k <= n; ++k) {
        LD v = 0, m = 0;
        for (int i = 1; i <= k; ++i) { v += i * u.c[i] * e.c[k - i]; m += i * u.m[i] * e.m[k - i]; }
        e.c[k] = v / k; e.m[k] = m / k;
    }
    return e;
}
static void jSinCos(const Jet &u, Jet &s, Jet &c) {
    int n = (int)u.c.size() - 1;
    s = jConst(sinl(u.c[0]), n); c = jConst(cosl(u.c[0]), n);
    s.m[0] = c.m[0] = 1 + u.m[0];
    for (int k = 1; k <= n; ++k) {
        LD a = 0, b = 0, ma = 0, mb = 0;
        for (int i = 1; i <= k; ++i) { a += i * u.c[i] * c.c[k - i]; b -= i * u.c[i] * s.c[k - i]; ma += i * u.m[i] * c.m[k - i]; mb += i * u.m[i] * s.m[k - i]; }
        s.c[k] = a / k; c.c[k] = b / k; s.m[k] = ma / k; c.m[k] = mb / k;
    }
}
static Jet jPowConst(const Jet &u, LD p) { // u0 != 0
    int n = (int)u.c.size() - 1;
    Jet r = jConst(powl(u.c[0], p), n);
    LD lam = u.m[0] / fabsl(u.c[0]);
    r.m[0] = fabsl(r.c[0]) * (1 + fabsl(p) * lam);
    for (int k = 1; k <= n; ++k) {
        LD v = 0, m = 0;
        for (int i = 1; i <= k; ++i) { v += (p * i - (k - i)) * u.c[i] * r.c[k - i]; m += (fabsl(p) * i + (k - i)) * u.m[i] * r.m[k - i]; }
        r.c[k] = v / (k * u.c[0]); r.m[k] = m / (k * fabsl(u.c[0])) * lam;
    }
    return r;
}
static Jet jLog(const Jet &u) {
    Jet d = jDiv(jDer(u), u);
    LD lam = u.m[0] / fabsl(u.c[0]);
    return jInt(d, logl(u.c[0]), fabsl(logl(u.c[0])) + lam);
}
Jet jetAst(const A &a, const Env &env, const std::string &var, int n, bool &ok) {
    if (!ok) return jConst(0, n);
    if (a->k == NUM) return jConst(a->v, n);
    if (a->k == VAR) {
        auto it = env.find(a->name);
        if (it == env.end()) { ok = false; return jConst(0, n); }
        Jet j = jConst(it->second, n);
        if (a->name == var && n >= 1) j.c[1] = j.m[1] = 1;
        return j;
    }
    Jet l = jetAst(a->l, env, var, n, ok), r;
    if (a->r) r = jetAst(a->r, env, var, n, ok);
    if (!ok) return l;
    Jet s, c, res = l;
    switch (a->k) {
    case POS: break;
    case NEG: res = jScale(l, -1); break;
    case ADD: res = jAdd(l, r, 1); break;
    case SUB: res = jAdd(l, r, -1); break;
    case MUL: res = jMul(l, r); break;
    case DIV: if (!lamOk(r, 0.05L)) { ok = false; return l; } res = jDiv(l, r); break;
    case SIN: jSinCos(l, s, c); res = s; break;
    case COS: jSinCos(l, s, c); res = c; break;
    case TAN: jSinCos(l, s, c); if (fabsl(c.c[0]) < 0.1L) { ok = false; return l; } res = jDiv(s, c); break;
    case EXP: if (fabsl(l.c[0]) > 8) { ok = false; return l; } res = jExp(l); break;
    case LOG: case LOG2: case LOG10:
        if (l.c[0] < 0.05L || !lamOk(l, 0.05L)) { ok = false; return l; }
        res = jLog(l);
        if (a->k == LOG2) res = jScale(res, 1 / logl(2.0L));
        if (a->k == LOG10) res = jScale(res, 1 / logl(10.0L));
        break;
    case SQRT: if (l.c[0] < 0.05L || !lamOk(l, 0.05L)) { ok = false; return l; } res = jPowConst(l, 0.5L); break;
    case ASIN: case ACOS: case ATAN: {
        Jet one = jConst(1, n), d;
        if (a->k == ATAN) d = jDiv(jDer(l), jAdd(one, jMul(l, l), 1));
        else {
            Jet w = jAdd(one, jMul(l, l), -1);
            if (w.c[0] < 0.1L || !lamOk(w, 0.1L)) { ok = false; return l; }
            d = jDiv(jDer(l), jPowConst(w, 0.5L));
            if (a->k == ACOS) d = jScale(d, -1);
        }
        LD v = a->k == ATAN ? atanl(l.c[0]) : a->k == ASIN ? asinl(l.c[0]) : acosl(l.c[0]);
        res = jInt(d, v, fabsl(v) + l.m[0] * 4);
        break;
    }
    case POW:
        if (a->r->k == NUM) { // literal exponent
            double p = a->r->v;
            if (fabs(p) > 20000 || !lamOk(l, 0.05L) || (l.c[0] < 0 && p != std::floor(p))) { ok = false; return l; }
            res = jPowConst(l, p);
        } else { // needs a positive base
            if (!lamOk(l, 0.05L) || l.c[0] < 0.05L || fabsl(r.c[0]) > 60) { ok = false; return l; }
            res = jExp(jMul(r, jLog(l)));
        }
        break;
    default: ok = false; return l;
    }
    for (int k = 0; k <= n; ++k)
        if (!(res.m[k] < 1e7L)) { ok = false; return l; }
    return res;
}

#ifndef NO_TOMSOLVER
// ------------------------------------------------------------ bridge
MathOperator libOp(int k) {
    using M = MathOperator;
    static const M t[] = {M::MATH_NULL, M::MATH_NULL, M::MATH_POSITIVE, M::MATH_NEGATIVE, M::MATH_SIN, M::MATH_COS, M::MATH_TAN, M::MATH_ARCSIN, M::MATH_ARCCOS, M::MATH_ARCTAN, M::MATH_SQRT, M::MATH_LOG, M::MATH_LOG2, M::MATH_LOG10, M::MATH_EXP, M::MATH_ADD, M::MATH_SUB, M::MATH_MULTIPLY, M::MATH_DIVIDE, M::MATH_POWER, M::MATH_AND, M::MATH_OR, M::MATH_MOD};
    return t[k];
}
template <class L> static Node mkUn(int k, L &&l) {
    using namespace tomsolver;
    switch (k) {
    case POS: return +std::forward<L>(l);
    case NEG: return -std::forward<L>(l);
    case SIN: return tomsolver::sin(std::forward<L>(l));
    case COS: return tomsolver::cos(std::forward<L>(l));
    case TAN: return tomsolver::tan(std::forward<L>(l));
    case ASIN: return tomsolver::asin(std::forward<L>(l));
    case ACOS: return tomsolver::acos(std::forward<L>(l));
    case ATAN: return tomsolver::atan(std::forward<L>(l));
    case SQRT: return tomsolver::sqrt(std::forward<L>(l));
    case LOG: return tomsolver::log(std::forward<L>(l));
    case LOG2: return tomsolver::log2(std::forward<L>(l));
    case LOG10: return tomsolver::log10(std::forward<L>(l));
    case EXP: return tomsolver::exp(std::forward<L>(l));
    }
    abort();
}
template <class L, class R> static Node mkBin(int k, L &&l, R &&r) {
    using namespace tomsolver;
    switch (k) {
    case ADD: return std::forward<L>(l) + std::forward<R>(r);
    case SUB: return std::forward<L>(l) - std::forward<R>(r);
    case MUL: return std::forward<L>(l) * std::forward<R>(r);
    case DIV: return std::forward<L>(l) / std::forward<R>(r);
    case POW: return std::forward<L>(l) ^ std::forward<R>(r);
    }
    abort();
}
Node toNode(const A &a) {
    if (a->k == NUM) return tomsolver::Num(a->v);
    if (a->k == VAR) return tomsolver::Var(a->name);
    if (isUn(a->k)) return mkUn(a->k, toNode(a->l));
    Node l = toNode(a->l), r = toNode(a->r);
    if (a->k >= AND) return tomsolver::internal::Operator(libOp(a->k), std::move(l), std::move(r));
    return mkBin(a->k, std::move(l), std::move(r));
}
Node toNodeR(const A &a, Rng &g) {
    using namespace tomsolver;
    if (a->k == NUM) return Num(a->v);
    if (a->k == VAR) return Var(a->name);
    if (isUn(a->k)) {
        Node l = toNodeR(a->l, g);
        if (g.chance(1, 2)) return mkUn(a->k, l);
        return mkUn(a->k, std::move(l));
    }
    Node l = toNodeR(a->l, g);
    if (a->k < AND && a->l->size == a->r->size && hashAst(a->l) == hashAst(a->r) && g.chance(1, 2)) { // aliased operands
        if (g.chance(1, 2)) return mkBin(a->k, l, l);
        switch (a->k) {
        case ADD: l += l; break;
        case SUB: l -= l; break;
        case MUL: l *= l; break;
        case DIV: l /= l; break;
        case POW: l ^= l; break;
        }
        return l;
    }
    Node r = toNodeR(a->r, g);
    if (a->k >= AND) return internal::Operator(libOp(a->k), std::move(l), std::move(r));
    switch (g.below(6)) {
    case 0: return mkBin(a->k, l, r);
    case 1: return mkBin(a->k, std::move(l), r);
    case 2: return mkBin(a->k, l, std::move(r));
    case 3: return mkBin(a->k, std::move(l), std::move(r));
    case 4: {
        const Node &cl = l, &cr = r;
        return mkBin(a->k, cl, cr);
    }
    default:
        switch (a->k) {
        case ADD: if (g.chance(1, 2)) l += r; else l += std::move(r); break;
        case SUB: if (g.chance(1, 2)) l -= r; else l -= std::move(r); break;
        case MUL: if (g.chance(1, 2)) l *= r; else l *= std::move(r); break;
        case DIV: if (g.chance(1, 2)) l /= r; else l /= std::move(r); break;
        case POW: if (g.chance(1, 2)) l ^= r; else l ^= std::move(r); break;
        }
        return l;
    }
}
#endif

// ------------------------------------------------------------ capture
Capture::Capture() {
    fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
    snprintf(path, sizeof path, "cap-%d-XXXXXX", (int)getpid());
    fd = mkstemp(path);
    unlink(path);
    save1 = dup(1); save2 = dup(2);
    dup2(fd, 1); dup2(fd, 2);
}
std::string Capture::stop() {
    if (!active) return "";
    active = false;
    fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
    dup2(save1, 1); dup2(save2, 2);
    close(save1); close(save2);
    off_t n = lseek(fd, 0, SEEK_END);
    std::string s((size_t)n, 0);
    lseek(fd, 0, SEEK_SET);
    size_t got = 0;
    while (got < s.size()) { ssize_t k = read(fd, &s[got], s.size() - got); if (k <= 0) break; got += (size_t)k; }
    close(fd);
    return s;
}
Capture::~Capture() { stop(); }

// ------------------------------------------------------------ driver
static std::string jsonEsc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c >= 127) o += fmt("\\u%04x", c);
        else o += (char)c;
    }
    return o;
}
void Ctx::fail(const std::string &key, const std::string &msg) {
    ++fails;
    if (fails <= 50 && out) {
        fprintf(out, "{\"idx\":%llu,\"key\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\"}\n", (unsigned long long)idx, jsonEsc(key).c_str(), jsonEsc(msg.substr(0, 1500)).c_str(), jsonEsc(caseText.substr(0, 1500)).c_str());
        fflush(out);
    }
    throw Violation(key);
}
static Shared dummyShared, *sharedState = &dummyShared;
void Ctx::describe(const std::string &t) {
    caseText = t;
    size_t n = std::min(t.size(), sizeof sharedState->text - 1);
    memcpy(sharedState->text, t.data(), n);
    sharedState->text[n] = 0;
}
} // namespace h

#if defined(HAVE_ASAN)
static void mhook(const volatile void *p, size_t) { h::allocCount++; h::liveCount++; h::liveBytes += (int64_t)__sanitizer_get_allocated_size(p); }
static void fhook(const volatile void *p) { if (p) { h::liveCount--; h::liveBytes -= (int64_t)__sanitizer_get_allocated_size(p); } }
#elif !defined(NO_NEW_OVERRIDE)
#include <malloc.h>
void *operator new(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    h::allocCount.fetch_add(1, std::memory_order_relaxed); h::liveCount.fetch_add(1, std::memory_order_relaxed); h::liveBytes.fetch_add((int64_t)malloc_usable_size(p), std::memory_order_relaxed);
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept {
    if (!p) return;
    h::liveCount.fetch_sub(1, std::memory_order_relaxed); h::liveBytes.fetch_sub((int64_t)malloc_usable_size(p), std::memory_order_relaxed);
    free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
#endif

int main(int argc, char **argv) {
    using namespace h;
    Ctx c;
    uint64_t start = 0, step = 1, end = UINT64_MAX, only = UINT64_MAX;
    std::string state, out, stats, hashes, trace;
    double budget = 1e9;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") c.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--start") start = strtoull(v.c_str(), 0, 10);
        else if (k == "--step") step = strtoull(v.c_str(), 0, 10);
        else if (k == "--end") end = strtoull(v.c_str(), 0, 10);
        else if (k == "--only") only = strtoull(v.c_str(), 0, 10);
        else if (k == "--thorough") c.thorough = v == "1";
        else if (k == "--state") state = v;
        else if (k == "--out") out = v;
        else if (k == "--stats") stats = v;
        else if (k == "--hashes") hashes = v;
        else if (k == "--trace") trace = v;
        else if (k == "--budget") budget = atof(v.c_str());
    }
#ifdef HAVE_ASAN
    __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
#endif
    if (argc == 2 && std::string(argv[1]) == "--count") {
        printf("%llu %llu\n", (unsigned long long)totalCases(false), (unsigned long long)totalCases(true));
        return 0;
    }
    Shared *sh = sharedState;
    if (!state.empty()) {
        int fd = open(state.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared))) return 2;
        sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (sh == MAP_FAILED) return 2;
        close(fd);
        sharedState = sh;
    }
    c.out = out.empty() ? stdout : fopen(out.c_str(), "a");
    if (!trace.empty()) c.trace = fopen(trace.c_str(), "a");
    if (!c.out) return 2;
    if (only != UINT64_MAX) { start = only; end = only + 1; step = 1; }
    uint64_t total = totalCases(c.thorough);
    if (end > total && only == UINT64_MAX) end = total;
    setupCheck(c);
    auto t0 = std::chrono::steady_clock::now();
    bool cut = false;
    for (uint64_t i = start; i < end; i += step) {
        c.idx = i;
        c.rng = Rng(mix(mix(c.seed, hashStr(PROP)), i));
        c.describe("");
        sh->idx = i;
        sh->beat = sh->beat + 1;
        try {
            runCase(c);
        } catch (const Violation &) {
        } catch (const std::exception &e) {
            try { c.fail("unexpected-exception", std::string("unexpected exception in the case: ") + e.what()); } catch (const Violation &) {}
        }
        sh->done = sh->done + 1;
        if (c.trace) fflush(c.trace);
        if (c.fails >= 25) { cut = true; break; }
        if ((i / step) % 16 == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) { cut = true; c.ev["stopped-by-time-budget"] = 1; break; }
    }
    (void)cut;
    if (!stats.empty()) {
        FILE *f = fopen(stats.c_str(), "w");
        if (!f) return 2;
        fprintf(f, "{\"evals\":%llu,\"distinct\":%llu,\"fails\":%llu,\"events\":{", (unsigned long long)c.evals, (unsigned long long)c.distinct.size(), (unsigned long long)c.fails);
        bool first = true;
        for (auto &e : c.ev) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jsonEsc(e.first).c_str(), (unsigned long long)e.second); first = false; }
        fprintf(f, "},\"samples\":[");
        first = true;
        for (auto &s : c.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jsonEsc(s).c_str()); first = false; }
        fprintf(f, "]}\n");
        fclose(f);
    }
    if (!hashes.empty()) {
        FILE *f = fopen(hashes.c_str(), "w");
        if (!f) return 2;
        std::vector<uint64_t> v(c.distinct.begin(), c.distinct.end());
        if (!v.empty()) fwrite(v.data(), 8, v.size(), f);
        fclose(f);
    }
    return 0;
}
#endif
