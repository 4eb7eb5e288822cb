// Stand-in for pybind11's module definition: records what is exported, and calls it as Python would.
#pragma once
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace pybind11 {
struct StubValue {
  std::shared_ptr<void> p;
  template <class T>
  static StubValue of(const T& v) {
    return StubValue{std::make_shared<T>(v)};
  }
  template <class T>
  const T& as() const {
    return *(const T*)p.get();
  }
};
struct arg_v {
  std::string name;
  StubValue value;
};
struct arg {
  std::string name;
  explicit arg(const char* n) : name(n) {}
  template <class T>
  arg_v operator=(const T& v) const {
    return arg_v{name, StubValue::of(v)};
  }
};
struct StubFunction {
  std::vector<std::string> names;
  std::map<std::string, StubValue> defaults;
  std::function<void(const std::vector<StubValue>&)> call;
  size_t arity = 0;
  void operator()(const std::map<std::string, StubValue>& kw) const {
    std::vector<StubValue> v;
    for (auto& k : kw) {
      bool known = false;
      for (auto& n : names) known |= n == k.first;
      if (!known) throw std::logic_error("TypeError: unexpected keyword argument " + k.first);
    }
    for (size_t i = 0; i < arity; i++) {
      if (i >= names.size()) throw std::logic_error("TypeError: missing argument");
      auto a = kw.find(names[i]);
      auto d = defaults.find(names[i]);
      if (a != kw.end()) v.push_back(a->second);
      else if (d != defaults.end()) v.push_back(d->second);
      else throw std::logic_error("TypeError: missing argument " + names[i]);
    }
    call(v);
  }
};
struct module_ {
  std::string doc_;
  std::map<std::string, StubFunction> functions;
  std::string& doc() { return doc_; }
  static void extra(StubFunction& f, const arg& a) { f.names.push_back(a.name); }
  static void extra(StubFunction& f, const arg_v& a) {
    f.names.push_back(a.name);
    f.defaults[a.name] = a.value;
  }
  static void extra(StubFunction&, const char*) {}
  template <class... A, size_t... I>
  static void apply(void (*f)(A...), const std::vector<StubValue>& v, std::index_sequence<I...>) {
    (void)v;
    f(v[I].template as<std::decay_t<A>>()...);
  }
  template <class... A, class... X>
  module_& def(const char* name, void (*f)(A...), const X&... x) {
    StubFunction s;
    int dummy[] = {0, (extra(s, x), 0)...};
    (void)dummy;
    s.arity = sizeof...(A);
    s.call = [f](const std::vector<StubValue>& v) { apply(f, v, std::index_sequence_for<A...>()); };
    functions[name] = s;
    return *this;
  }
};
typedef module_ module;
}  // namespace pybind11
#define PYBIND11_MODULE(name, var) void stub_module_##name(pybind11::module_& var)
