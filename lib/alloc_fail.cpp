// operator new(nothrow) that can be told to fail: the only allocations of the library that may fail quietly
#include <atomic>
#include <cstdlib>
#include <new>

std::atomic<long> alloc_fail_after{-1};     // fail once this many have succeeded; -1: never
std::atomic<unsigned long> alloc_failed{0};

static void * get(std::size_t n)
{
    long k = alloc_fail_after.load();
    if (k == 0) { alloc_failed++; return nullptr; }
    if (k > 0) alloc_fail_after--;
    return ::operator new(n);
}

void * operator new(std::size_t n, const std::nothrow_t &) noexcept { return get(n); }
