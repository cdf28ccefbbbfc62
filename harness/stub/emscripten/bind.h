#pragma once
#include <iostream>
#include "calls.h"
namespace emscripten {
typedef const void* TYPEID;
struct val {
  template <class T, class A>
  static val array(std::vector<T, A> const&) { return {}; }
};
template <class T>
std::vector<T> vecFromJSArray(val const&) { return {}; }
namespace internal {
template <class T>
struct BindingType;
template <>
struct BindingType<val> {
  typedef int WireType;
  static int toWireType(val const&) { return 0; }
  static val fromWireType(int) { return {}; }
};
template <class T, class = void>
struct TypeID;
template <class T>
struct TypeID<T, void> {
  static constexpr TYPEID get() { return nullptr; }
};
template <class T>
struct Canonicalized { typedef T type; };
}  // namespace internal
template <class R, class... A>
void function(char const* name, R (*f)(A...)) { calls::expose("wasm", name, f); }
template <class T>
struct value_object {
  explicit value_object(char const*) {}
  template <class M>
  value_object& field(char const*, M) { return *this; }
};
struct registrar {
  registrar(void (*init)()) { init(); }
};
}  // namespace emscripten
#define EMSCRIPTEN_BINDINGS(name)                                \
  static void embind_init_##name();                              \
  static ::emscripten::registrar embind_reg_##name(embind_init_##name); \
  static void embind_init_##name()
