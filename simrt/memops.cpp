// memory functions: checked against the simulated heap when called by instrumented code or libraries
#include <cstddef>
#include <cstdint>
namespace simi { extern __thread int tl_fw; extern bool g_on; void access_range(void const* p, std::uint64_t n, bool w, std::uint32_t pc); }
#define PC() ((std::uint32_t)(std::uint64_t)__builtin_return_address(0))
extern "C" {
void* memcpy(void* __restrict d, void const* __restrict s, size_t n)
{
    if (simi::g_on && !simi::tl_fw && n) { std::uint32_t pc = PC(); simi::access_range(s, n, false, pc); simi::access_range(d, n, true, pc); }
    void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r;
}
void* memmove(void* d, void const* s, size_t n)
{
    if (simi::g_on && !simi::tl_fw && n) { std::uint32_t pc = PC(); simi::access_range(s, n, false, pc); simi::access_range(d, n, true, pc); }
    void* r = d;
    if ((uintptr_t)d - (uintptr_t)s >= n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    else { char* dd = (char*)d + n - 1; char const* ss = (char const*)s + n - 1; asm volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory"); }
    return r;
}
void* memset(void* d, int c, size_t n)
{
    if (simi::g_on && !simi::tl_fw && n) simi::access_range(d, n, true, PC());
    void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r;
}
}
