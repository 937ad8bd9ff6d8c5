// Stand-in for polymorphic_variant (not installed): value-semantic variant of
// classes derived from Base, with -> giving the Base.
#pragma once
#include <type_traits>
#include <utility>
#include <variant>
namespace pv {
template <typename Base, typename... Ts>
class polymorphic_variant {
  std::variant<Ts...> v_;
 public:
  template <typename T, typename = std::enable_if_t<(std::is_same_v<std::decay_t<T>, Ts> || ...)>>
  polymorphic_variant(T&& t) : v_(std::forward<T>(t)) {}
  Base* get() { return std::visit([](auto& x) -> Base* { return &x; }, v_); }
  const Base* get() const { return std::visit([](const auto& x) -> const Base* { return &x; }, v_); }
  Base* operator->() { return get(); }
  const Base* operator->() const { return get(); }
  Base& operator*() { return *get(); }
  const Base& operator*() const { return *get(); }
  operator Base&() { return *get(); }
  operator const Base&() const { return *get(); }
};
}  // namespace pv
