// helpers for deductive drivers: entry points with a flat calling convention over the real functions
#pragma once
#include <cstdint>
#include <cstddef>
// libstdc++ unrolls find_if for random access iterators by hand: the driver uses the plain loop
// (libstdc++'s own overload for input iterators)
#include <bits/stl_iterator.h>
namespace std {
template <typename T, typename P> T* __find_if(T* f, T* l, P p, random_access_iterator_tag) { while (f != l && !p(f)) ++f; return f; }
template <typename T, typename C, typename P> __gnu_cxx::__normal_iterator<T, C> __find_if(__gnu_cxx::__normal_iterator<T, C> f, __gnu_cxx::__normal_iterator<T, C> l, P p, random_access_iterator_tag) { while (f != l && !p(f)) ++f; return f; }
}
#define VF_CONST(name, ...) extern "C" { extern const uint64_t k_##name; const uint64_t k_##name = uint64_t(__VA_ARGS__); }
#define VF_OFF(name, T, m) VF_CONST(name, offsetof(T, m))
#define VF extern "C"
