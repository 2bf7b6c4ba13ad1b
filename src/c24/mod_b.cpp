// modules whose workloads C24 repeats under allocation accounting and valgrind
#define COMPOSITE
#include "../problems.h"
namespace n10 {
#include "../c10.cpp"
}
namespace n12 {
#include "../c12.cpp"
}
namespace n16 {
#include "../c16.cpp"
}
struct Module { const char *name; uint64_t (*total)(bool); void (*run)(h::Ctx &); };
std::vector<Module> modules_b() { return {{"C10", n10::totalCases, n10::runCase}, {"C12", n12::totalCases, n12::runCase}, {"C16", n16::totalCases, n16::runCase}, }; }
