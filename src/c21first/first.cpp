// C21: the first use of the library in a process happens in several threads at once; nothing of it runs before.
// first <variant> <threads>: prints OK, or what is wrong; ThreadSanitizer watches the accesses.
#include <tomsolver/tomsolver.h>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
using namespace tomsolver;
typedef std::function<std::string()> Use;
static std::string caught(const Use &f) {
    try { return f(); } catch (const SingleParseError &e) { return std::string("parse ") + e.what(); } catch (const MathError &e) { return std::string("math ") + e.what(); } catch (const std::out_of_range &e) { return std::string("range ") + e.what(); } catch (const std::runtime_error &e) { return std::string("runtime ") + e.what(); }
}
static std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
static std::vector<Use> ops() {
    return {
        [] { return Parse("sin(x)^2+3*arctan(y)-log10(100)%7")->ToString(); },
        [] { return std::string("") + num(Config::Get().epsilon) + num(Config::Get().maxIterations) + num(Config::Get().initialValue) + num((int)Config::Get().logLevel) + num((int)Config::Get().nonlinearMethod) + num(Config::Get().throwOnInvalidValue) + num(Config::Get().allowIndeterminateEquation); },
        [] { return num((Num(2) / Num(0.3))->Vpa()); },
        [] { return (Var("a") ^ Num(0.1))->ToString() + ToString(1e-20) + ToString(0.1); },
        [] { return Diff(sin(Var("x")) * exp(Var("x")), "x", 2)->ToString(); },
        [] { Node n = Var("x") * Num(1) + Num(0) * Var("y"); Simplify(n); return n->ToString(); },
        [] { return Subs(Var("x") + Var("y"), std::map<std::string, double>{{"x", 2}, {"y", 0.5}})->Calc().ToString(); },
        [] { return SolveLinear(Mat{{2, 1}, {1, 3}}, Vec{1, 2}).ToString(); },
        [] { return Solve(SymVec{(Var("z") ^ Num(2)) - Num(2)}).ToString(); },
        [] { return SolveByLM(SymVec{(Var("z") ^ Num(2)) - Num(3), Var("z") - Var("w")}, VarsTable{{"z", 1}, {"w", 2}}).ToString(); },
        [] { return Parse("x + * y")->ToString(); },
        [] { return num((Num(1) / Num(0))->Vpa()); },
        [] { return num(log(Num(-1))->Calc().Vpa()); },
        [] { return Var("1x")->ToString(); },
        [] { return num(VarsTable{{"x", 1}}["y"]); },
        [] { std::string s = (Mat{{1, 2}, {3, 4}} == Mat{{1, 2}, {3, 4 + 1e-9}}) ? "equal" : "different"; return s + Mat{{1, 2}, {3, 5}}.Inverse().ToString(); },
        [] { std::string s; for (auto &r : Jacobian(SymVec{Var("x") * Var("y"), cos(Var("x"))}, {"x", "y"}).GetAllVarNames()) s += r; return s; },
        [] { std::ostringstream os; Node n = Parse("(1+2)*x"); os << n << " " << VarsTable{{"x", 0.1}} << Vec{1, 2}; return os.str(); },
        [] { return std::string(GetErrorInfo(ErrorType::ERROR_SINGULAR_MATRIX)) + (Node(Parse("x+y"))->Equal(Var("x") + Var("y")) ? "same" : "other"); },
        [] { std::string s; for (auto &v : Parse("x+y*_z1")->GetAllVarNames()) s += v + ","; return s; },
        [] { return num(FindAlpha(Vec{1.0}, Vec{-0.5}, [](Vec v) { return Vec{v[0] * v[0]}; })); },
        [] { return num(Armijo(Vec{1.0}, Vec{-0.5}, [](Vec v) { return Vec{v[0] * v[0]}; }, [](Vec v) -> Mat { return Vec{2 * v[0]}; })); },
    };
}
int main(int argc, char **argv) {
    if (argc < 3) { printf("%d\n", (int)ops().size()); return 0; }
    int variant = atoi(argv[1]), n = atoi(argv[2]);
    std::vector<Use> all = ops();
    int k = (int)all.size();
    std::vector<int> which(n);
    for (int t = 0; t < n; ++t) which[t] = variant < k ? variant : (variant * 7 + t * (1 + variant / k)) % k;
    std::vector<std::string> got(n);
    std::atomic<int> ready{0};
    std::atomic<bool> go{false};
    std::vector<std::thread> th;
    for (int t = 0; t < n; ++t) th.emplace_back([&, t] {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (!go.load(std::memory_order_relaxed)) {}
        got[t] = caught(all[which[t]]);
    });
    while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
    go.store(true, std::memory_order_relaxed);
    for (auto &t : th) t.join();
    for (int t = 0; t < n; ++t) {
        std::string again = caught(all[which[t]]);
        if (again != got[t]) { printf("operation %d as first use of thread %d gives [%s], afterwards [%s]\n", which[t], t, got[t].c_str(), again.c_str()); return 1; }
    }
    printf("OK %d\n", n);
    return 0;
}
