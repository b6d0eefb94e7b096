#pragma once
// Operand values and operation lists shared by the harnesses.
#include <cstdint>
#include <set>
#include <vector>

static const uint16_t RR[][2] = { // f7,f3
  {0,0},{0x20,0},{0,1},{0,2},{0,3},{0,4},{0,5},{0x20,5},{0,6},{0,7},
  {1,0},{1,1},{1,2},{1,3},{1,4},{1,5},{1,6},{1,7},
  {0x10,2},{0x10,4},{0x10,6},{0x20,7},{0x20,6},{0x20,4},{5,4},{5,5},{5,6},{5,7},{0x30,1},{0x30,5},{4,4},{4,7},
  {5,1},{5,2},{5,3},{0x24,1},{0x24,5},{0x34,1},{0x14,1}};
static const int NRR = sizeof RR / sizeof RR[0];

static std::vector<uint32_t> int_grid(bool big) {
  std::set<uint32_t> s;
  for (int i = 0; i < (big ? 72 : 36); ++i) { s.insert(i); s.insert(0u - i); }
  for (int k = 0; k < 32; ++k) {
    uint32_t b = 1u << k;
    s.insert(b); s.insert(b - 1); s.insert(b + 1); s.insert(~b); s.insert(0u - b); s.insert(~(b - 1) ^ 0x80000000u);
    if (big) for (int j = 0; j < k; ++j) { s.insert(b | (1u << j)); if (j + 1 < k) s.insert(b - (1u << j)); }
  }
  for (int m = 0; m < 16; ++m) {
    uint32_t v = 0, w = 0, z = 0;
    for (int i = 0; i < 4; ++i) if (m >> i & 1) { v |= 0xFFu << 8 * i; w |= 0x80u << 8 * i; z |= 0x01u << 8 * i; }
    s.insert(v); s.insert(w); s.insert(z);
  }
  for (uint32_t v : {0x55555555u, 0xAAAAAAAAu, 0x33333333u, 0x0F0F0F0Fu, 0x00FF00FFu, 0x12345678u, 0xDEADBEEFu, 0x80000001u,
                     0x7FFF8000u, 0x8000FFFFu, 0x00018000u, 0xFFFF7FFFu, 0xCAFEBABEu, 0x87654321u}) s.insert(v);
  return {s.begin(), s.end()};
}

static std::vector<uint32_t> fp_grid(int lvl) {
  std::set<uint32_t> s;
  auto add = [&](uint32_t v) { s.insert(v); s.insert(v ^ 0x80000000u); };
  static const uint32_t exps0[] = {0, 1, 2, 126, 127, 128, 150, 151, 157, 158, 159, 253, 254, 255};
  static const uint32_t mants0[] = {0, 1, 2, 0x3FFFFF, 0x400000, 0x400001, 0x7FFFFE, 0x7FFFFF, 0x555555, 0x000800};
  static const uint32_t exps1[] = {0, 1, 2, 3, 23, 24, 25, 63, 64, 101, 102, 103, 104, 105, 124, 125, 126, 127, 128, 129, 139, 149, 150, 151, 152, 156, 157, 158, 159, 160, 190, 230, 252, 253, 254, 255};
  static const uint32_t mants1[] = {0, 1, 2, 3, 4, 0x3FFFFF, 0x400000, 0x400001, 0x7FFFFC, 0x7FFFFD, 0x7FFFFE, 0x7FFFFF, 0x555555, 0x2AAAAA, 0x000800, 0x200000, 0x600000, 0x123456};
  if (lvl == 0) { for (uint32_t e : exps0) for (uint32_t m : mants0) add(e << 23 | m); }
  else for (uint32_t e : exps1) for (uint32_t m : mants1) add(e << 23 | m);
  return {s.begin(), s.end()};
}
