// engine intrinsics used by the library models (never by code under proof)
#ifndef VC_CORE_H
#define VC_CORE_H
#include <cstddef>
#include <cstdint>
extern "C" {
void* vc_new(size_t cellwidth);
void* vc_alloc(size_t nbytes, size_t cellwidth);
void* vc_copy(void* d, const void* s, size_t n);
int vc_memcmp(const void* a, const void* b, size_t n);
void vc_assert(bool c, const char* name);
void vc_assume(bool c);
bool vc_is_concrete(uint64_t v);
uint64_t vc_u64(const char* name);
uint64_t vc_any(const char* name);
void vc_forall(bool c);
}
#endif
