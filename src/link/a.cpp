#include <tomsolver/tomsolver.h>
#include <string>
using namespace tomsolver;
// runs during static initialisation, before or after the library's own objects
namespace {
struct Early {
    std::string text;
    Early() {
        Node n = Parse("sin(x)^2 + 3*arctan(y) - log10(100)");
        Node d = Diff(n, "x");
        Simplify(d);
        Node s = Subs(n, std::map<std::string, double>{{"x", 0.5}, {"y", 2}});
        text = n->ToString() + ";" + d->ToString() + ";" + ToString(s->Vpa()) + ";" + ToString(1e-20) + ";" + ToString(0.1);
        try { Parse("x + * y"); } catch (const std::exception &) { text += ";rejected"; }
        try { text += Solve(SymVec{Parse("z^2-2")}).ToString(); } catch (const std::exception &) { text += ";nosolve"; }
        try { Var("1x"); } catch (const std::exception &) { text += ";badname"; }
    }
};
Early early;
} // namespace
std::string a_early() { return early.text; }
Config *a_config() { return &Config::Get(); }
void a_set(double eps, int it) { Config::Get().epsilon = eps; Config::Get().maxIterations = it; }
Node a_make() { return Parse("x*2+y"); }
std::string a_use(const Node &n) { return Diff(n, "x")->ToString() + n->ToString(); }
VarsTable a_solve() { return Solve(SymVec{Parse("x^2-4"), Parse("x-y")}, VarsTable(std::map<std::string, double>{{"x", 3}, {"y", 3}})); }
int a_catch(void (*f)()) { try { f(); } catch (const ParseError &) { return 1; } catch (const MathError &) { return 2; } catch (const std::runtime_error &) { return 3; } return 0; }
Mat a_mat() { return Mat{{1, 2}, {3, 5}}; }
