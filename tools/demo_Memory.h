// Stand-in for blaze/util/Memory.h (not installed here).
#pragma once
#include <cstdlib>
#include <new>
namespace blaze {
template <class T> T* allocate(std::size_t n) { return new T[n]; }
template <class T> void deallocate(T* p) noexcept { delete[] p; }
} // namespace blaze
