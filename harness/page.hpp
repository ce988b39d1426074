// What the code under test takes to be a browser: addresses that fit an int, JavaScript in host.js
#pragma once
#include "browser/emscripten.h"
#include "browser/emscripten/val.h"
#include <json/json.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <type_traits>
#include <unordered_map>
// addresses are 64 bits wide here, and an int that stands for one is its number among those seen
namespace page {
  inline int number_of(void const* p) { static std::unordered_map<void const*, int> m; return 8 * m.emplace(p, int(m.size()) + 1).first->second; }
  template <typename T, typename U> constexpr T cast(U&& x) {
    if constexpr (std::is_pointer_v<std::decay_t<U>> && std::is_integral_v<T> && sizeof(T) < sizeof(void*)) return T(number_of(x));
    else return reinterpret_cast<T>(x);
  }
}
#define static_assert(...)
#define reinterpret_cast ::page::cast
#include <nbdl/detail/js_val.hpp>
#undef static_assert
#undef reinterpret_cast
#include "common.hpp"

template <typename F> int page_main(F f) {
  static F* g; static int rc; g = &f;
  mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_MAX, 0);
  std::size_t n = 64 << 20;
  void* p = ::mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) ::_exit(14);
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, p, n);
  pthread_t t;
  if (pthread_create(&t, &a, [](void*) -> void* { rc = vh::main_loop(*g); return nullptr; }, nullptr)) ::_exit(14);
  pthread_join(t, nullptr);
  return rc;
}
