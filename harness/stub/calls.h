// Functions exposed to another language, by module and name, called with json arguments.
// Stands in for pybind11 and embind, which are not installed.
#pragma once
#include <functional>
#include <map>
#include <nlohmann/json.hpp>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace calls {
using json = nlohmann::json;
using Fn = std::function<json(json const&)>;
inline std::map<std::string, std::map<std::string, Fn>>& modules() {
  static std::map<std::string, std::map<std::string, Fn>> m;
  return m;
}
template <class R, class... A, std::size_t... I>
json apply(R (*f)(A...), json const& args, std::index_sequence<I...>) {
  if (args.size() != sizeof...(A)) throw std::invalid_argument("wrong number of arguments");
  if constexpr (std::is_void_v<R>) {
    f(args.at(I).template get<std::decay_t<A>>()...);
    return nullptr;
  } else
    return json(f(args.at(I).template get<std::decay_t<A>>()...));
}
template <class R, class... A>
void expose(std::string const& module, std::string const& name, R (*f)(A...)) {
  modules()[module][name] = [f](json const& args) { return apply(f, args, std::index_sequence_for<A...>{}); };
}
}  // namespace calls
