// Stand-in for the part of double-conversion that /repo uses.
#ifndef VERIF_SHIM_DOUBLE_TO_STRING_H_
#define VERIF_SHIM_DOUBLE_TO_STRING_H_
#include <charconv>
#include <cmath>
#include <cstring>
#include <string>
namespace double_conversion {
class StringBuilder {
 public:
  StringBuilder(char* buf, int size) : buf_(buf), size_(size), pos_(0) {}
  void Add(const std::string& s) {
    for (char c : s)
      if (pos_ + 1 < size_) buf_[pos_++] = c;
  }
  char* Finalize() {
    buf_[pos_] = 0;
    return buf_;
  }

 private:
  char* buf_;
  int size_;
  int pos_;
};
class DoubleToStringConverter {
 public:
  enum Flags {
    NO_FLAGS = 0,
    EMIT_POSITIVE_EXPONENT_SIGN = 1,
    EMIT_TRAILING_DECIMAL_POINT = 2,
    EMIT_TRAILING_ZERO_AFTER_POINT = 4,
    UNIQUE_ZERO = 8
  };
  DoubleToStringConverter(int flags, const char* inf, const char* nan, char e,
                          int low, int high, int, int)
      : flags_(flags), inf_(inf), nan_(nan), e_(e), low_(low), high_(high) {}
  bool ToShortest(double v, StringBuilder* b) const { return Do(v, b); }
  bool ToShortestSingle(float v, StringBuilder* b) const { return Do(v, b); }

 private:
  template <class T>
  bool Do(T v, StringBuilder* b) const {
    if (std::isnan(v)) {
      b->Add(nan_);
      return true;
    }
    std::string out;
    if (std::signbit(v) && (v != 0 || !(flags_ & UNIQUE_ZERO))) out += '-';
    v = std::fabs(v);
    if (std::isinf(v)) {
      b->Add(out + inf_);
      return true;
    }
    char tmp[64];
    auto r = std::to_chars(tmp, tmp + sizeof(tmp), v,
                           std::chars_format::scientific);
    std::string sci(tmp, r.ptr);
    size_t epos = sci.find('e');
    int exp = std::stoi(sci.substr(epos + 1));
    std::string digits = sci.substr(0, 1);
    if (epos > 2) digits += sci.substr(2, epos - 2);
    if (v == 0) exp = 0;
    if (low_ <= exp && exp < high_) {
      int n = static_cast<int>(digits.size());
      if (exp < 0) {
        out += "0." + std::string(-exp - 1, '0') + digits;
      } else if (n > exp + 1) {
        out += digits.substr(0, exp + 1) + "." + digits.substr(exp + 1);
      } else {
        out += digits + std::string(exp + 1 - n, '0');
        if (flags_ & EMIT_TRAILING_DECIMAL_POINT) out += '.';
        if (flags_ & EMIT_TRAILING_ZERO_AFTER_POINT) out += '0';
      }
    } else {
      out += digits.substr(0, 1);
      if (digits.size() > 1) out += "." + digits.substr(1);
      out += e_;
      if (exp < 0)
        out += '-';
      else if (flags_ & EMIT_POSITIVE_EXPONENT_SIGN)
        out += '+';
      out += std::to_string(std::abs(exp));
    }
    b->Add(out);
    return true;
  }
  int flags_;
  std::string inf_, nan_;
  char e_;
  int low_, high_;
};
}  // namespace double_conversion
#endif
