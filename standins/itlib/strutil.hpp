#pragma once
// stand-in for itlib strutil
#include <string_view>
namespace itlib {
constexpr bool starts_with(std::string_view s, std::string_view p) { return s.substr(0, p.size()) == p; }
constexpr bool ends_with(std::string_view s, std::string_view p) { return s.size() >= p.size() && s.substr(s.size() - p.size()) == p; }
}
