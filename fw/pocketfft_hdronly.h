#pragma once
#include <cmath>
#include <complex>
#include <cstddef>
#include <vector>
namespace pocketfft { using shape_t = std::vector<size_t>; using stride_t = std::vector<ptrdiff_t>; constexpr bool FORWARD = true, BACKWARD = false;
template <typename T> void c2c(const shape_t &s, const stride_t &, const stride_t &, const shape_t &, bool fwd, const std::complex<T> *in, std::complex<T> *out, T f) {
  size_t n = s[0]; const long double PI2 = 6.283185307179586476925286766559005768L;
  for (size_t k = 0; k < n; ++k) { std::complex<long double> a = 0;
    for (size_t j = 0; j < n; ++j) { long double t = PI2 * (long double)((j * k) % n) / n * (fwd ? -1 : 1); a += std::complex<long double>(in[j].real(), in[j].imag()) * std::complex<long double>(std::cos(t), std::sin(t)); }
    out[k] = std::complex<T>((T)(a.real() * f), (T)(a.imag() * f)); } } }
