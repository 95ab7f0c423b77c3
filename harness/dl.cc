#include "h.h"
#include "net.h"
#include "cppev/dynamic_loader.h"
#include <dlfcn.h>
using namespace cppev;
static int fa(int x) { return x + 1; } static int fb(int x) { return x * 3; } static int ga(int x) { return x ^ 5; }
static const VkSym SA[] = {{"f", (void *)fa}, {"g", (void *)ga}, {"null", nullptr}, {nullptr, nullptr}}, SB[] = {{"f", (void *)fb}, {nullptr, nullptr}};
static const VkLib LIBS[] = {{"liba.so", SA}, {"libb.so", SB}};
static const char *FILES[] = {"liba.so", "libb.so", "lib", "libc.so", "liba"}, *SYMS[] = {"f", "g", "null", "h", "", "ff", "_f", "F", "f@V1"};
static bool known(int lib, int sym) { return sym == 0 || (lib == 0 && sym == 1); }
static std::string why; template <typename F> static int rt(F f) { try { f(); } catch (const std::runtime_error &e) { why = e.what(); return 1; } catch (...) { return 2; } return 0; }
ENTRY dl_load() {
    calm(); vkw.libs = LIBS; vkw.nlibs = 2; vkw.fault_ops = VKF_DL; vkw.faults = param("faults", 1); uint64_t mark = vk_heap_blocks(~0ULL); (void)mark;
    int n = range(1, param("loaders", 2), "loaders"); int lib[3]; std::unique_ptr<dynamic_loader> l[3]; int refs[2] = {0, 0};
    for (int i = 0; i < n; ++i) {
        lib[i] = choose(5, "file"); int f0 = vkw.faults; int r = rt([&] { l[i].reset(new dynamic_loader(FILES[lib[i]])); }); bool ok = lib[i] < 2 && f0 == vkw.faults;
        VK_ASSERT(r == (ok ? 0 : 1), "loading succeeds exactly when the library can be loaded"); if (r == 1) { VK_ASSERT(why.find(f0 == vkw.faults ? "no such file" : "cannot load") != std::string::npos, "a failing load says why"); vk_reach("no library"); } else ++refs[lib[i]];
        VK_ASSERT(vkw_lib_refs(0) == refs[0] && vkw_lib_refs(1) == refs[1], "each loader opens its library once");
    }
    for (int s = 0; s < param("steps", 2); ++s) {
        int i = choose(n, "loader"); if (!l[i]) continue;
        int op = choose(10, "op");
        if (op == 9) { l[i].reset(); --refs[lib[i]]; VK_ASSERT(vkw_lib_refs(0) == refs[0] && vkw_lib_refs(1) == refs[1], "a loader that goes away releases its library once"); vk_reach("released"); continue; }
        int f0 = vkw.faults; int (*p)(int) = nullptr; int r = rt([&] { p = l[i]->load<int(int)>(SYMS[op]); }); bool ok = known(lib[i], op) && f0 == vkw.faults;
        VK_ASSERT(r == (ok ? 0 : 1), "a function is loaded exactly when the library has it");
        if (ok) { int x = (int)u8("x"); VK_ASSERT(p(x) == (op == 1 ? (x ^ 5) : lib[i] == 0 ? x + 1 : x * 3), "the function loaded is that of the library and name"); vk_reach("called"); }
        else { if (op != 2 || f0 != vkw.faults) VK_ASSERT(why.find("undefined symbol") != std::string::npos, "a failing load of a function says why"); vk_reach(op == 2 ? "null symbol" : "no function"); }
        VK_ASSERT(vkw_lib_refs(0) == refs[0] && vkw_lib_refs(1) == refs[1], "loading a function keeps the libraries as they were");
    }
    for (int i = 0; i < n; ++i) l[i].reset();
    VK_ASSERT(vkw_lib_refs(0) == 0 && vkw_lib_refs(1) == 0, "every library is released exactly once");
}
