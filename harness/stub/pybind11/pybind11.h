#pragma once
#include "calls.h"
namespace pybind11 {
inline namespace literals {}
struct module_ {
  struct Doc {
    Doc& operator=(std::string const&) { return *this; }
  };
  std::string name;
  Doc& doc() {
    static Doc d;
    return d;
  }
  template <class F, class... X>
  module_& def(std::string const& n, F f, X&&...) {
    calls::expose("py", n, +f);
    return *this;
  }
};
struct registrar {
  registrar(void (*init)(module_&)) {
    module_ m;
    init(m);
  }
};
}  // namespace pybind11
#define PYBIND11_MODULE(name, variable)                             \
  static void pybind11_init_##name(::pybind11::module_&);           \
  static ::pybind11::registrar pybind11_reg_##name(pybind11_init_##name); \
  static void pybind11_init_##name(::pybind11::module_& variable)
