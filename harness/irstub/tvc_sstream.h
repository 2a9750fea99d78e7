// IR only: a string stream that appends to a string (std::stringstream's locale machinery is compiled into libstdc++)
#pragma once
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
namespace std {
struct tvc_sstream {
  std::string s;
  tvc_sstream& operator<<(std::string_view v) { s.append(v.data(), v.size()); return *this; }
  tvc_sstream& operator<<(const char* v) { return *this << std::string_view(v); }
  tvc_sstream& operator<<(const std::string& v) { return *this << std::string_view(v); }
  tvc_sstream& operator<<(char v) { s.push_back(v); return *this; }
  template <typename T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, char>>* = nullptr>
  tvc_sstream& operator<<(T v) { unsigned long long u = (unsigned long long)v; if (std::is_signed_v<T> && v < 0) { s.push_back('-'); u = 0 - u; } char b[24]; int n = 0; do { b[n++] = char('0' + u % 10); u /= 10; } while (u); while (n) s.push_back(b[--n]); return *this; }
  std::string str() const { return s; }
};
}
