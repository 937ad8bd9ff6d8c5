// Stand-in for utfcpp >= 4 (not installed): strict conversions, same names.
#pragma once
#include <cstdint>
#include <stdexcept>
#include <string>
#include <string_view>
namespace utf8 {
struct exception : std::runtime_error { using std::runtime_error::runtime_error; };
inline void put(std::string& o, uint32_t c) {
  if (c < 0x80) o += char(c);
  else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
  else { o += char(0xF0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
}
inline std::string utf16to8(std::u16string_view s) {
  std::string o;
  for (std::size_t i = 0; i < s.size(); ++i) {
    uint32_t c = s[i];
    if (c >= 0xD800 && c < 0xDC00) {
      if (++i == s.size() || s[i] < 0xDC00 || s[i] > 0xDFFF) throw exception("invalid utf16");
      c = 0x10000 + ((c - 0xD800) << 10) + (s[i] - 0xDC00);
    } else if (c >= 0xDC00 && c < 0xE000) throw exception("invalid utf16");
    put(o, c);
  }
  return o;
}
inline std::u16string utf8to16(std::string_view s) {
  std::u16string o;
  for (std::size_t i = 0; i < s.size();) {
    unsigned char b = s[i];
    int n = b < 0x80 ? 1 : (b >> 5) == 6 ? 2 : (b >> 4) == 14 ? 3 : (b >> 3) == 30 ? 4 : 0;
    if (!n || i + n > s.size()) throw exception("invalid utf8");
    uint32_t c = n == 1 ? b : b & (0xFF >> (n + 1));
    for (int k = 1; k < n; ++k) {
      unsigned char d = s[i + k];
      if ((d >> 6) != 2) throw exception("invalid utf8");
      c = c << 6 | (d & 63);
    }
    const uint32_t lo[] = {0, 0, 0x80, 0x800, 0x10000};
    if (c < lo[n] || c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) throw exception("invalid utf8");
    i += n;
    if (c < 0x10000) o += char16_t(c);
    else { c -= 0x10000; o += char16_t(0xD800 + (c >> 10)); o += char16_t(0xDC00 + (c & 0x3FF)); }
  }
  return o;
}
}  // namespace utf8
