// modules whose workloads C24 repeats under allocation accounting and valgrind
#define COMPOSITE
#include "../problems.h"
namespace n03 {
#include "../c03.cpp"
}
namespace n07 {
#include "../c07.cpp"
}
struct Module { const char *name; uint64_t (*total)(bool); void (*run)(h::Ctx &); };
std::vector<Module> modules_a() { return {{"C03", n03::totalCases, n03::runCase}, {"C07", n07::totalCases, n07::runCase}, }; }
