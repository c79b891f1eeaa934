// contract-language runtime: the same harness text is proved by the engine and replayed natively
#ifndef VC_H
#define VC_H
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
extern "C" {
uint8_t vc_u8(const char* name);
uint16_t vc_u16(const char* name);
uint32_t vc_u32(const char* name);
uint64_t vc_u64(const char* name);
bool vc_bool(const char* name);
void* vc_buf(const char* name, size_t n);         // object of exactly n arbitrary bytes
void vc_assume(bool c);
void vc_assert(bool c, const char* name);
void vc_cover(const char* name);
bool vc_checking();
void vc_begin_check(void* fn);
bool vc_native();
uint64_t vc_any(const char* name);                 // arbitrary fixed index (universally quantified)
void vc_forall(bool c);                             // assume c for every value of its vc_any indices
uint64_t vc_concretize(uint64_t v);
uint64_t vc_split(const char* name, uint64_t v);      // case split: states differing in it are kept apart
uint64_t vc_uf1(const char*, uint64_t);
uint64_t vc_uf2(const char*, uint64_t, uint64_t);
uint64_t vc_uf3(const char*, uint64_t, uint64_t, uint64_t);
bool vc_rank_lt(const char*, uint64_t, uint64_t);   // an arbitrary order by rank
uint64_t vc_gread(const char*, uint64_t);
uint64_t vc_quot(uint64_t, uint64_t);
void vc_gwrite(const char*, uint64_t, uint64_t);
void vc_havoc_obj(const void* p, size_t cw);
void vc_debug(const char*, ...);
void vc_cut(bool on);
}
#ifdef VC_NATIVE
std::string vc_string(const char* name, size_t n);
#else
#include "vc_core.h"
inline std::string vc_string(const char* name, size_t n) {
    char* p = (char*)vc_buf(name, n + 1);
    vc_assume(p[n] == 0);
    return std::string(std::string::vc_fixed{}, p, n);
}
#endif
#define PROVE(id, name) extern "C" void prove_##id##_##name()
#endif
