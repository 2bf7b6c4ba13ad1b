// C22: results depend only on arguments and configuration, never on history or logging.
#include "workload.h"
#include <cfenv>
#include <clocale>
#include <iomanip>
#include <locale>
#include <sys/wait.h>
using namespace h;
using namespace tomsolver;
const char *PROP = "C22";
uint64_t totalCases(bool th) { return th ? 12000 : 500; }
namespace {
struct CfgSet { int method; double eps; int maxIt; double iv; bool allow, thr; };
CfgSet genCfg(Rng &r) {
    CfgSet s{0, 1e-9, 100, 1, false, true};
    s.method = r.chance(1, 2);
    if (r.chance(1, 2)) s.eps = std::pow(10.0, r.range(-11, -3));
    s.maxIt = r.range(0, 14);
    if (r.chance(1, 2)) s.iv = r.uniform(-2, 2);
    s.allow = r.chance(1, 2);
    s.thr = r.chance(2, 3);
    return s;
}
void apply(const CfgSet &s) {
    auto &c = Config::Get();
    c.nonlinearMethod = s.method ? NonlinearMethod::LM : NonlinearMethod::NEWTON_RAPHSON;
    c.epsilon = s.eps;
    c.maxIterations = s.maxIt;
    c.initialValue = s.iv;
    c.allowIndeterminateEquation = s.allow;
    c.throwOnInvalidValue = s.thr;
}
std::vector<std::string> work(uint64_t seed, int n) { Work w(seed); w.run(n); return w.lines; }
std::string joined(const std::vector<std::string> &v) { std::string s; for (auto &x : v) { s += x; s += '\1'; } return s; }

// a server forked before the library did anything computes a program in a process of its own
int toSrv[2], fromSrv[2];
bool wr(int fd, const void *p, size_t n) { const char *q = (const char *)p; while (n) { ssize_t k = write(fd, q, n); if (k <= 0) return false; q += k; n -= (size_t)k; } return true; }
bool rd(int fd, void *p, size_t n) { char *q = (char *)p; while (n) { ssize_t k = read(fd, q, n); if (k <= 0) return false; q += k; n -= (size_t)k; } return true; }
struct Req { uint64_t seed; int n; CfgSet cfg; };
void serve() {
    Req q;
    while (rd(toSrv[0], &q, sizeof q)) {
        int p[2];
        if (pipe(p)) _exit(2);
        pid_t pid = fork();
        if (pid == 0) {
            apply(q.cfg);
            std::string s = joined(work(q.seed, q.n));
            wr(p[1], s.data(), s.size());
            _exit(0);
        }
        close(p[1]);
        std::string s;
        char b[65536];
        ssize_t k;
        while ((k = read(p[0], b, sizeof b)) > 0) s.append(b, (size_t)k);
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        uint64_t n = st ? UINT64_MAX : s.size();
        wr(fromSrv[1], &n, 8);
        if (!st) wr(fromSrv[1], s.data(), s.size());
    }
    _exit(0);
}
bool fresh(const Req &q, std::string &out) {
    uint64_t n;
    if (!wr(toSrv[1], &q, sizeof q) || !rd(fromSrv[0], &n, 8) || n == UINT64_MAX) return false;
    out.resize(n);
    return rd(fromSrv[0], &out[0], n);
}
struct Comma : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
};
struct ProcessState { // what belongs to the program and no operation may change
    std::string s;
    static std::string of(const std::ios &q) { return fmt("flags %d precision %d width %d fill %d state %d exceptions %d locale ", (int)q.flags(), (int)q.precision(), (int)q.width(), (int)q.fill(), (int)q.rdstate(), (int)q.exceptions()) + q.getloc().name() + "; "; }
    ProcessState() { s = "cout " + of(std::cout) + "cerr " + of(std::cerr) + "clog " + of(std::clog) + "cin " + of(std::cin) + "C locale " + setlocale(LC_ALL, nullptr) + "; C++ locale " + std::locale().name() + fmt("; rounding %d; trapped %d", fegetround(), fegetexcept()); }
};
void noise(Rng &r) { // arbitrary history, including failures
    int k = r.range(1, 4);
    for (int i = 0; i < k; ++i) {
        apply(genCfg(r));
        if (r.chance(1, 4)) Config::Get().initialValue = NAN;
        switch (r.below(7)) {
        case 5: case 6: { Work w(r.next()); for (int j = r.range(1, 4); j > 0; --j) w.failing(); break; }
        case 0: work(r.next(), r.range(1, 6)); break;
        case 1: for (int j = 0; j < 5; ++j) { try { Parse("(((" + std::to_string(j) + "+x"); } catch (const std::exception &) {} try { Parse("x y z sin"); } catch (const std::exception &) {} } break;
        case 2: try { Config::Get().maxIterations = 3; Solve(SymVec{Parse("x^2+1")}); } catch (const std::exception &) {} break;
        case 3: try { Node n = Parse("(x%2)+1/0"); Diff(n, "x"); } catch (const std::exception &) {} break;
        default: { VarsTable t(std::map<std::string, double>{{"x", 1e300}, {"y", -3}}); try { SolveByLM(SymVec{Parse("x*y-1"), Parse("exp(x)-y")}, t); } catch (const std::exception &) {} }
        }
    }
}
} // namespace
void setupCheck(Ctx &) {
    if (pipe(toSrv) || pipe(fromSrv)) _exit(2);
    pid_t p = fork();
    if (p == 0) { close(toSrv[1]); close(fromSrv[0]); serve(); }
    close(toSrv[0]);
    close(fromSrv[1]);
}
static void same(Ctx &c, const std::vector<std::string> &want, const std::vector<std::string> &got, const char *when) {
    c.eval(want.size());
    c.event(when, want.size());
    for (size_t i = 0; i < std::max(want.size(), got.size()); ++i) {
        std::string a = i < want.size() ? want[i] : "(nothing)", b = i < got.size() ? got[i] : "(nothing)";
        if (a != b) c.fail("differs", std::string(when) + fmt(", step %d: ", (int)i) + b.substr(0, 600) + " ; before: " + a.substr(0, 600));
    }
}
void runCase(Ctx &c) {
    Rng &r = c.rng;
    CfgGuard g;
    Config &cfg = Config::Get();
    // reset restores the documented defaults, whatever was set
    auto defaults = [&](const char *when) {
        c.eval();
        if (&Config::Get() != &cfg) c.fail("configuration", "Config::Get returns different objects");
        if (cfg.throwOnInvalidValue != true || cfg.epsilon != 1e-9 || cfg.logLevel != LogLevel::WARN || cfg.maxIterations != 100 || cfg.nonlinearMethod != NonlinearMethod::NEWTON_RAPHSON || cfg.initialValue != 1.0 || cfg.allowIndeterminateEquation != false) c.fail("reset", std::string("not the defaults ") + when + ": " + cfgText());
    };
    apply(genCfg(r));
    cfg.logLevel = (LogLevel)r.below(8);
    cfg.Reset();
    defaults("after Reset");
    ProcessState state;
    auto sameState = [&](const ProcessState &was, const char *when) { c.eval(); ProcessState now; if (now.s != was.s) c.fail("process-state", std::string(when) + ": " + now.s + " ; before: " + was.s); };
    CfgSet cs = genCfg(r);
    Req q{r.next(), r.range(4, 9), cs};
    c.describe(fmt("program %llu of %d steps, ", (unsigned long long)q.seed, q.n) + (apply(cs), cfgText()));
    c.sample(c.caseText);
    std::string f;
    if (!fresh(q, f)) c.fail("fresh-process", "the program does not complete in a fresh process");
    apply(cs);
    auto first = work(q.seed, q.n);
    for (auto &l : first) c.nontrivial(hashStr(l));
    std::vector<std::string> fl;
    for (size_t p = 0; p < f.size();) { size_t e = f.find('\1', p); fl.push_back(f.substr(p, e - p)); p = e + 1; }
    same(c, fl, first, "fresh process and process with history");
    same(c, first, work(q.seed, q.n), "immediate repetition");
    { apply(cs); CfgSet k = cs; Config before = cfg; work(q.seed ^ 99, 3); (void)k; if (cfg.epsilon != before.epsilon || cfg.maxIterations != before.maxIterations || cfg.initialValue != before.initialValue || cfg.logLevel != before.logLevel || cfg.nonlinearMethod != before.nonlinearMethod || cfg.throwOnInvalidValue != before.throwOnInvalidValue || cfg.allowIndeterminateEquation != before.allowIndeterminateEquation) c.fail("configuration", "an operation changed the configuration"); }
    noise(r);
    cfg.Reset();
    defaults("after a history and Reset");
    apply(cs);
    same(c, first, work(q.seed, q.n), "repetition after other work and failures");
    // logging
    for (int lv = 0; lv < 8; ++lv) {
        bool quiet = lv < (int)LogLevel::INFO;
        if (!quiet && !r.chance(1, 2)) continue;
        cfg.Reset();
        apply(cs);
        cfg.logLevel = (LogLevel)lv;
        Capture cap;
        std::vector<std::string> got = work(q.seed, q.n);
        if (r.chance(1, 3)) { Vec x{1.0, 2.0}, d{0.5, r.uniform(-4, 4)}; double w = r.uniform(-3, 3); FindAlpha(x, d, [w](Vec v) { Vec y(2); y[0] = std::cos(v[0] * 9) + w; y[1] = v[1] - std::sin(30 * v[0]); return y; }, r.chance(1, 2) ? 1e-5 : 0); }
        std::string out = cap.stop();
        cfg.logLevel = LogLevel::WARN;
        if (quiet) { c.event("silent-runs"); c.eval(); if (!out.empty()) c.fail("output", fmt("log level %d wrote: ", lv) + out.substr(0, 300)); }
        else { c.event("logged-runs"); c.event("logged-bytes", out.size()); }
        sameState(state, quiet ? "after running silently" : "after running at a printing log level");
        same(c, first, got, quiet ? "another silent log level" : "a printing log level");
    }
    // the process-wide C++ locale and stream settings are no arguments
    if (r.chance(1, 3)) {
        std::locale old = std::locale::global(std::locale(std::locale::classic(), new Comma));
        std::cout << std::setprecision(3) << std::hex << std::showpos;
        if (setlocale(LC_ALL, r.chance(1, 2) ? "C.utf8" : "C.UTF-8")) c.event("other-c-locale"); // writes numbers as "C" does
        ProcessState odd;
        auto got = work(q.seed, q.n);
        sameState(odd, "after running with unusual stream settings");
        std::locale::global(old);
        setlocale(LC_ALL, "C");
        std::cout << std::dec << std::noshowpos << std::setprecision(6);
        same(c, first, got, "another stream locale");
    }
    cfg.Reset();
    defaults("at the end");
}
#include "common_impl.h"
