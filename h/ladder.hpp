// Sizes: all small ones, then around powers of two and of ten.
#pragma once
#include "mc.hpp"
#include <cstddef>
#include <vector>
namespace sb {
inline std::vector<std::size_t> ladder(std::size_t from, std::size_t to) {
  std::vector<std::size_t> o;
  for (std::size_t n = 1; n <= 20; n++)
    o.push_back(n);
  const std::vector<std::size_t> quick = {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 4097, 65537},
                                 thorough = {23, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131072, 131073};
  for (std::size_t n : mc::C.thorough ? thorough : quick)
    o.push_back(n);
  std::vector<std::size_t> r;
  for (auto n : o)
    if (n >= from && n <= to)
      r.push_back(n);
  return r;
}
} // namespace sb
