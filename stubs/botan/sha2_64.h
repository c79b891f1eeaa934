// assumed contract of Botan's SHA-512/256: a function of the bytes it was fed (uninterpreted); the fed bytes are the ghost stream
#ifndef VC_STUB_BOTAN
#define VC_STUB_BOTAN
#include <cstddef>
#include <cstdint>
extern "C" uint64_t vc_u64(const char*);
namespace Botan {
struct SHA_512_256 {
    SHA_512_256() {}
    void update(const uint8_t*, size_t) {}
    void final(uint8_t* out) { for (int i = 0; i < 32; ++i) out[i] = (uint8_t)vc_u64("sha"); }
    size_t output_length() const { return 32; }
};
}
#endif
