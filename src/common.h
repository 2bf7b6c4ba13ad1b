// Shared machinery of the runtime monitors: case driver, deterministic PRNG, an expression model (AST)
// independent of the library, reference evaluator / printer / parser, Taylor jets, generators.
#pragma once
#ifndef NO_TOMSOLVER
#include <tomsolver/tomsolver.h>
#if __has_include(<tomsolver/error_type.h>)
#include <tomsolver/error_type.h>
#endif
#endif
#include <algorithm>
#include <atomic>
#include <cfloat>
#include <chrono>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
#endif

namespace h {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); } // inclusive
    bool chance(int num, int den) { return (int)below(den) < num; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uniform(double a, double b) { return a + (b - a) * unit(); }
    template <class C> auto pick(const C &c) -> decltype(c[0]) { return c[below(c.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x9e3779b97f4a7c15ull + b + 0x1234567);
    r.next();
    return r.next() ^ b;
}
inline uint64_t hashStr(const std::string &s, uint64_t seed = 14695981039346656037ull) {
    uint64_t x = seed;
    for (unsigned char c : s) x = (x ^ c) * 1099511628211ull;
    return x;
}

// ---------------------------------------------------------------- allocation accounting (logical clock, leak balance)
extern std::atomic<uint64_t> allocCount; // number of allocations so far
extern std::atomic<int64_t> liveCount;   // allocations not yet released
extern std::atomic<int64_t> liveBytes;

// ---------------------------------------------------------------- case driver
struct Violation : std::runtime_error { // thrown to abandon a case after a failure
    using std::runtime_error::runtime_error;
};
struct Ctx {
    uint64_t seed = 1, idx = 0;
    bool thorough = false;
    Rng rng{1};
    std::map<std::string, uint64_t> ev; // observed events
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    FILE *out = nullptr;
    FILE *trace = nullptr;
    uint64_t fails = 0, evals = 0;
    std::string caseText; // description of the current case
    void event(const char *k, uint64_t n = 1) { ev[k] += n; }
    void eval(uint64_t n = 1) { evals += n; }
    // a distinct non-trivial case was judged
    void nontrivial(uint64_t hash) {
        if (distinct.size() < 400000) distinct.insert(hash);
    }
    void sample(const std::string &s) {
        if (samples.size() < 3 || (samples.size() < 8 && idx % 97 == 5)) samples.push_back(s.substr(0, 300));
    }
    void fail(const std::string &key, const std::string &msg);
    void describe(const std::string &text); // what the current case does; survives a crash
};
struct Shared { volatile uint64_t idx; volatile uint64_t done; volatile uint64_t beat; char text[4096]; };
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    char b[2000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
inline std::string num17(double v) { return fmt("%.17g", v); }

// ---------------------------------------------------------------- expression model
enum K { NUM, VAR, POS, NEG, SIN, COS, TAN, ASIN, ACOS, ATAN, SQRT, LOG, LOG2, LOG10, EXP, ADD, SUB, MUL, DIV, POW, AND, OR, MOD };
constexpr int NK = MOD + 1;
inline bool isUn(int k) { return k >= POS && k <= EXP; }
inline bool isFun(int k) { return k >= SIN && k <= EXP; }
inline bool isBin(int k) { return k >= ADD; }
inline const char *opText(int k) {
    static const char *const t[] = {"", "", "+", "-", "sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "log", "log2", "log10", "exp", "+", "-", "*", "/", "^", "&", "|", "%"};
    return t[k];
}
inline const char *opName(int k) {
    static const char *const t[] = {"num", "var", "pos", "neg", "sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "log", "log2", "log10", "exp", "add", "sub", "mul", "div", "pow", "and", "or", "mod"};
    return t[k];
}
inline int rankOf(int k) {
    if (isFun(k)) return 15;
    switch (k) {
    case POS: case NEG: return 14;
    case MOD: return 13;
    case AND: case OR: return 12;
    case POW: return 11;
    case MUL: case DIV: return 10;
    case ADD: case SUB: return 5;
    }
    return 100; // leaves
}
struct Ast;
using A = std::shared_ptr<const Ast>;
struct Ast {
    int k;
    double v = 0;
    std::string name;
    A l, r;
    int size = 1, depth = 1;
    explicit Ast(int k) : k(k) {}
};
inline A aNum(double v) { auto p = std::make_shared<Ast>(NUM); p->v = v; return p; }
inline A aVar(const std::string &n) { auto p = std::make_shared<Ast>(VAR); p->name = n; return p; }
inline A aUn(int k, A l) { auto p = std::make_shared<Ast>(k); p->size = l->size + 1; p->depth = l->depth + 1; p->l = std::move(l); return p; }
inline A aBin(int k, A l, A r) { auto p = std::make_shared<Ast>(k); p->size = l->size + r->size + 1; p->depth = std::max(l->depth, r->depth) + 1; p->l = std::move(l); p->r = std::move(r); return p; }
inline A mk(int k, A l, A r = nullptr) { return r ? aBin(k, l, r) : aUn(k, l); }

inline uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline double fromBits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
inline uint64_t hashAst(const A &a) {
    uint64_t x = mix(a->k, 77);
    if (a->k == NUM) return mix(x, bitsOf(a->v));
    if (a->k == VAR) return mix(x, hashStr(a->name));
    x = mix(x, hashAst(a->l));
    if (a->r) x = mix(x, hashAst(a->r) * 3);
    return x;
}
inline void varsOf(const A &a, std::set<std::string> &s) {
    if (a->k == VAR) s.insert(a->name);
    if (a->l) varsOf(a->l, s);
    if (a->r) varsOf(a->r, s);
}
inline bool hasKind(const A &a, const std::function<bool(const Ast &)> &f) {
    return f(*a) || (a->l && hasKind(a->l, f)) || (a->r && hasKind(a->r, f));
}
inline bool sameAst(const A &a, const A &b) { // structural equality, numbers by ==
    if (a == b) return true;
    if (a->k != b->k) return false;
    if (a->k == NUM) return a->v == b->v;
    if (a->k == VAR) return a->name == b->name;
    return sameAst(a->l, b->l) && (!a->r || sameAst(a->r, b->r));
}
inline A subsAst(const A &a, const std::map<std::string, A> &m) {
    if (a->k == NUM) return a;
    if (a->k == VAR) { auto i = m.find(a->name); return i == m.end() ? a : i->second; }
    return a->r ? aBin(a->k, subsAst(a->l, m), subsAst(a->r, m)) : aUn(a->k, subsAst(a->l, m));
}
// unambiguous text for reports
inline std::string show(const A &a) {
    if (a->k == NUM) return num17(a->v);
    if (a->k == VAR) return a->name;
    if (isBin(a->k)) return "(" + show(a->l) + " " + opText(a->k) + " " + show(a->r) + ")";
    if (a->k == POS || a->k == NEG) return std::string("(") + opText(a->k) + show(a->l) + ")";
    return std::string(opText(a->k)) + "(" + show(a->l) + ")";
}

// ---------------------------------------------------------------- IEEE reference evaluator
inline bool asInt(double v, int &out) {
    if (!(v > -2147483649.0 && v < 2147483648.0)) return false;
    out = (int)v;
    return true;
}
inline double applyOp(int k, double a, double b) {
    int x, y;
    switch (k) {
    case POS: return a;
    case NEG: return -a;
    case SIN: return std::sin(a);
    case COS: return std::cos(a);
    case TAN: return std::tan(a);
    case ASIN: return std::asin(a);
    case ACOS: return std::acos(a);
    case ATAN: return std::atan(a);
    case SQRT: return std::sqrt(a);
    case LOG: return std::log(a);
    case LOG2: return std::log2(a);
    case LOG10: return std::log10(a);
    case EXP: return std::exp(a);
    case ADD: return a + b;
    case SUB: return a - b;
    case MUL: return a * b;
    case DIV: return a / b;
    case POW: return std::pow(a, b);
    case AND: return asInt(a, x) && asInt(b, y) ? (double)(x & y) : NAN;
    case OR: return asInt(a, x) && asInt(b, y) ? (double)(x | y) : NAN;
    case MOD: return asInt(a, x) && asInt(b, y) && y != 0 ? (double)((long long)x % (long long)y) : NAN;
    }
    abort();
}
using Env = std::map<std::string, double>;
// ok=false as soon as one operation yields a non-finite value; the value is still propagated
inline double evalAst(const A &a, const Env &env, bool &ok) {
    if (a->k == NUM) return a->v;
    if (a->k == VAR) { auto i = env.find(a->name); if (i == env.end()) { ok = false; return NAN; } return i->second; }
    double l = evalAst(a->l, env, ok);
    double r = a->r ? evalAst(a->r, env, ok) : 0;
    double v = applyOp(a->k, l, r);
    if (!std::isfinite(v)) ok = false;
    return v;
}
// value with a majorant of the quantities that were added up (scale for rounding tolerances)
struct VM { double v, m; };
inline VM evalVM(const A &a, const Env &env, bool &ok) {
    if (a->k == NUM) return {a->v, std::fabs(a->v)};
    if (a->k == VAR) { auto i = env.find(a->name); if (i == env.end()) { ok = false; return {NAN, NAN}; } return {i->second, std::fabs(i->second)}; }
    VM l = evalVM(a->l, env, ok), r{0, 0};
    if (a->r) r = evalVM(a->r, env, ok);
    double v = applyOp(a->k, l.v, r.v), m;
    if (!std::isfinite(v)) { ok = false; return {v, v}; }
    // relative amplification of operand error, expressed as growth of the majorant
    auto lam = [](VM x) { return x.m <= 0 ? 1.0 : x.v == 0 ? 1e300 : x.m / std::fabs(x.v); };
    double al = std::fabs(l.v);
    switch (a->k) {
    case POS: case NEG: m = l.m; break;
    case ADD: case SUB: m = l.m + r.m; break;
    case MUL: m = l.m * r.m; break;
    case DIV: m = std::fabs(v) * lam(r) * (al == 0 ? 1 : lam(l)); if (l.v == 0) m = l.m / std::fabs(r.v) * lam(r); break;
    case POW: {
        double e = std::fabs(r.v) * lam(l) + std::fabs(std::log(al == 0 ? 1 : al)) * r.m + 1;
        m = std::fabs(v) * e;
        if (l.v == 0) m = std::fabs(v) + (l.m > 0 ? 1e300 : 0);
        break;
    }
    case SIN: case COS: m = std::fabs(v) + l.m; break;
    case TAN: m = std::fabs(v) + l.m * (1 + v * v); break;
    case ATAN: m = std::fabs(v) + l.m; break;
    case ASIN: case ACOS: { double d = 1 - l.v * l.v; m = std::fabs(v) + l.m / std::sqrt(d > 0 ? d : 1e-300); break; }
    case SQRT: m = v == 0 ? (l.m > 0 ? 1e300 : 0) : v * lam(l); break;
    case LOG: case LOG2: case LOG10: m = std::fabs(v) + 2 * lam(l); break;
    case EXP: m = v * (1 + l.m); break;
    default: { // discontinuous integer operators: operands must be integers or clearly between integers
        auto clear = [](double x) { double d = std::fabs(x - std::nearbyint(x)); return d == 0 || d > 1e-6; };
        m = clear(l.v) && clear(r.v) && l.m < 1e9 && r.m < 1e9 ? std::fabs(v) : 1e300;
        break;
    }
    }
    return {v, std::max(m, std::fabs(v))};
}

// ---------------------------------------------------------------- names and numbers
inline bool isReserved(const std::string &n) {
    static const char *const w[] = {"sin", "cos", "tan", "asin", "acos", "atan", "arcsin", "arccos", "arctan", "sqrt", "log", "log2", "log10", "exp"};
    for (auto x : w) if (n == x) return true;
    std::string l;
    for (char c : n) l += (char)tolower((unsigned char)c);
    return l == "inf" || l == "infinity" || l == "nan";
}
inline bool isName(const std::string &s) {
    if (s.empty()) return false;
    for (size_t i = 0; i < s.size(); ++i) {
        char c = s[i];
        bool al = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
        bool dg = c >= '0' && c <= '9';
        if (!(al || (i && dg))) return false;
    }
    return true;
}
const std::vector<std::string> &commonNames();
std::string genName(Rng &r);                 // any legal non-reserved name, incl. long ones
double genNumber(Rng &r, int profile);       // see below
enum { NP_SMALLINT, NP_MODERATE, NP_POSITIVE, NP_WILD, NP_ZERO_ONE, NP_TEXT };

struct GenOpt {
    int size = 12;                 // approximate number of nodes
    std::vector<int> ops;          // allowed operator kinds
    std::vector<std::string> vars; // allowed variables (empty: none)
    int numProfile = NP_SMALLINT;
    int varBias = 60;              // percentage of leaves that are variables
    int unaryBias = 30;            // percentage of inner nodes that are unary (if both available)
    int share = 0;                 // percentage of reusing an already generated subtree
};
A genAst(Rng &r, const GenOpt &o);
std::vector<int> allOps();        // every operator
std::vector<int> smoothOps();     // without & | %
std::vector<int> arithOps();      // + - * / ^ and signs

// ---------------------------------------------------------------- text rendering of the model
// paren: 0 minimal by the documented grammar, 1 random redundant, 2 full
struct RenderOpt { int paren = 0; int space = 0; bool altNames = false; bool numAlt = false; };
std::string numText(double v, Rng &r, bool alt);  // v >= 0, a spelling with exactly this value
std::string render(const A &a, Rng &r, const RenderOpt &o);

// ---------------------------------------------------------------- reference parser (documented grammar)
struct RefTok { int type; int pos; std::string text; double v = 0; int k = 0; }; // 0 num 1 name 2 fun 3 op 4 ( 5 )
struct RefParse {
    bool ok = false;
    A tree;
    // class of the first error, for diagnostics: "", "empty", "name", "paren", "operand", "juxtaposed"
    std::string why;
    std::set<int> positions; // acceptable positions
    int juxta = 0;           // number of left-over operands
};
RefParse refParse(const std::string &s, bool buildTree = true);

// ---------------------------------------------------------------- Taylor jets (reference for derivatives)
struct Jet { std::vector<long double> c, m; }; // coefficients and majorants
// jet of a along variable var at env up to order n; ok=false if outside the well-conditioned domain
Jet jetAst(const A &a, const Env &env, const std::string &var, int n, bool &ok);

#ifndef NO_TOMSOLVER
// ---------------------------------------------------------------- bridge to the library
using tomsolver::Node;
using tomsolver::MathOperator;
MathOperator libOp(int k);
Node toNode(const A &a);          // through the public operators and functions
Node toNodeR(const A &a, Rng &r); // as above, mixing copying and moving forms
inline std::string str(const Node &n) { return n->ToString(); }
inline bool eq(const Node &n, const A &a) { return n->Equal(toNode(a)); }
struct CfgGuard {
    CfgGuard() { tomsolver::Config::Get().Reset(); }
    ~CfgGuard() { tomsolver::Config::Get().Reset(); }
};
// value of a node at a point through the library; ok=false if it throws
inline double libEval(const Node &n, const Env &env, bool &ok) {
    try {
        double v = tomsolver::Subs(n, env)->Vpa();
        if (!std::isfinite(v)) ok = false;
        return v;
    } catch (const std::runtime_error &) {
        ok = false;
        return NAN;
    }
}
#endif

// stdout/stderr capture at file descriptor level
struct Capture {
    int fd, save1, save2;
    char path[64];
    Capture();
    ~Capture();
    std::string stop();
    bool active = true;
};

} // namespace h

// supplied by every check
extern const char *PROP;
uint64_t totalCases(bool thorough);
void runCase(h::Ctx &c);
void setupCheck(h::Ctx &c);
