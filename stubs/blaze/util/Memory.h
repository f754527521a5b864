// Stand-in for blaze/util/Memory.h (blaze is not installed here): only what
// BlasBooster/Core/Memory.h uses.  Allocation is an opaque, tracked primitive
// so that the analyser can follow ownership.
#pragma once
#include <cstddef>
#include <new>
#include <type_traits>

extern "C" void* vp_allocate(std::size_t bytes) __attribute__((malloc, returns_nonnull));
#ifdef VP_THROWING
extern "C" void* vp_try_allocate(std::size_t bytes) __attribute__((malloc, returns_nonnull));
#define vp_allocate vp_try_allocate
#endif
extern "C" void vp_deallocate(void* p) noexcept;

namespace blaze {

template <typename T>
typename std::enable_if<std::is_trivially_destructible<T>::value, T*>::type allocate(std::size_t size)
{
    return static_cast<T*>(vp_allocate(size * sizeof(T)));
}

template <typename T>
typename std::enable_if<!std::is_trivially_destructible<T>::value, T*>::type allocate(std::size_t size)
{
    return new T[size];
}

template <typename T>
typename std::enable_if<std::is_trivially_destructible<T>::value>::type deallocate(T* p) noexcept
{
    vp_deallocate(p);
}

template <typename T>
typename std::enable_if<!std::is_trivially_destructible<T>::value>::type deallocate(T* p) noexcept
{
    delete[] p;
}

} // namespace blaze
