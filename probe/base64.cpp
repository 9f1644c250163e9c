#include "common.hpp"
using bezman::utils::Base64;

template <typename T>
struct Codec {
  static std::string enc(const std::vector<T>& v) { return Base64::Encode(v); }
  static std::vector<T> dec(const std::string& s) { return Base64::Decode<T>(s); }
};
template struct Codec<unsigned char>;
template struct Codec<short>;
template struct Codec<int>;
template struct Codec<float>;
template struct Codec<double>;
template struct Codec<std::size_t>;
template struct Codec<PP<1>>;
template struct Codec<PP<2>>;
template struct Codec<PP<3>>;
template struct Codec<PP<4>>;
template struct Codec<Point<2, float>>;
