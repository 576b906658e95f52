#pragma once
#include <cstdint>
namespace aslam { namespace backend {
template<typename I, std::uintmax_t D>
class FixedPointNumber {
public:
  typedef I Integer;
  FixedPointNumber();
  FixedPointNumber(I n);
  FixedPointNumber(int n);
  FixedPointNumber(double d);
  FixedPointNumber(const FixedPointNumber&);
  FixedPointNumber& operator=(const FixedPointNumber&);
  I getNumerator() const;
  static std::uintmax_t getDivider();
  explicit operator double() const;
  FixedPointNumber operator+(const FixedPointNumber&) const;
  FixedPointNumber operator-(const FixedPointNumber&) const;
  FixedPointNumber operator-() const;
private:
  I p;
};
} }
