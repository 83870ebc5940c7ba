// How much memory a piece of code asks for (AddressSanitizer builds only)
#ifndef MEMUSE_H
#define MEMUSE_H

#include <atomic>
#include <cstddef>
#include <cstdint>

#if __has_feature(address_sanitizer)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void *, size_t), void (*free_hook)(const volatile void *));
#endif

namespace memuse {

inline std::atomic<uint64_t> bytes{0};

inline void begin()
{
#if __has_feature(address_sanitizer)
    static bool once = __sanitizer_install_malloc_and_free_hooks([](const volatile void *, size_t n) { bytes += n; }, [](const volatile void *) {}) > 0;
    (void) once;
#endif
    bytes = 0;
}

inline uint64_t end() { return bytes; }

} // namespace memuse

#endif
