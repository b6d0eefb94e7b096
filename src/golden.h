#pragma once
// Boring sequential model of the architecture the simulator implements:
// RV32IMA_Zicsr_Zifencei_Zba_Zbb_Zbc_Zbs_Zfinx, M/S/U, Sv32.  Written from the
// ISA manual, independent of the repository's code; the platform decisions it
// shares with the repository are listed in DESIGN.md ("platform choices").
#include <array>
#include <cfenv>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <memory>
#include <unordered_map>

namespace golden {

// ---------------------------------------------------------------- memory
struct Mem {
  using Page = std::array<uint32_t, 1024>;
  std::unordered_map<uint32_t, std::shared_ptr<Page>> pages;
  uint32_t rd(uint32_t a) const {
    auto it = pages.find(a >> 12);
    return it == pages.end() ? 0 : (*it->second)[(a >> 2) & 1023];
  }
  void wr(uint32_t a, uint32_t v) {
    auto &p = pages[a >> 12];
    if (!p) {
      p = std::make_shared<Page>();
      p->fill(0);
    } else if (p.use_count() > 1) {
      p = std::make_shared<Page>(*p);
    }
    (*p)[(a >> 2) & 1023] = v;
  }
  void wr_mask(uint32_t a, uint32_t v, uint32_t mask) {
    wr(a, (rd(a) & ~mask) | (v & mask));
  }
  // sub-word access within one aligned word
  uint32_t load(uint32_t a, int bytes) const {
    uint64_t d = (uint64_t(rd((a & ~3u) + 4)) << 32) | rd(a & ~3u);
    d >>= 8 * (a & 3);
    return bytes == 4 ? uint32_t(d) : uint32_t(d) & ((1u << (8 * bytes)) - 1);
  }
  void store(uint32_t a, uint32_t v, int bytes) {
    for (int i = 0; i < bytes; ++i) {
      uint32_t b = a + i;
      wr_mask(b & ~3u, ((v >> (8 * i)) & 0xFF) << (8 * (b & 3)), 0xFFu << (8 * (b & 3)));
    }
  }
};

// ---------------------------------------------------------------- integer ALU
inline int32_t s32(uint32_t v) { return (int32_t)v; }
inline uint32_t sx(uint32_t v, int bits) { return uint32_t(int32_t(v << (32 - bits)) >> (32 - bits)); }
inline uint32_t bits(uint32_t v, int hi, int lo) { return (v >> lo) & (hi - lo == 31 ? ~0u : ((1u << (hi - lo + 1)) - 1)); }
inline uint32_t imm_i(uint32_t i) { return sx(i >> 20, 12); }
inline uint32_t imm_s(uint32_t i) { return sx((bits(i, 31, 25) << 5) | bits(i, 11, 7), 12); }
inline uint32_t imm_b(uint32_t i) {
  return sx((bits(i, 31, 31) << 12) | (bits(i, 7, 7) << 11) | (bits(i, 30, 25) << 5) | (bits(i, 11, 8) << 1), 13);
}
inline uint32_t imm_u(uint32_t i) { return i & 0xFFFFF000u; }
inline uint32_t imm_j(uint32_t i) {
  return sx((bits(i, 31, 31) << 20) | (bits(i, 19, 12) << 12) | (bits(i, 20, 20) << 11) | (bits(i, 30, 21) << 1), 21);
}
inline uint32_t g_rotr(uint32_t a, unsigned n) { n &= 31; return n ? (a >> n) | (a << (32 - n)) : a; }
inline uint64_t g_clmul(uint32_t a, uint32_t b) {
  uint64_t r = 0;
  for (int i = 0; i < 32; ++i) if ((b >> i) & 1) r ^= uint64_t(a) << i;
  return r;
}
inline uint32_t g_mulh(uint32_t a, uint32_t b, bool sa, bool sb) {
  // schoolbook on 16-bit halves of magnitudes: independent of host 64-bit signed multiply
  bool neg = (sa && (a >> 31)) != (sb && (b >> 31));
  uint32_t ma = (sa && (a >> 31)) ? 0u - a : a, mb = (sb && (b >> 31)) ? 0u - b : b;
  uint64_t ll = uint64_t(ma & 0xFFFF) * (mb & 0xFFFF), lh = uint64_t(ma & 0xFFFF) * (mb >> 16),
           hl = uint64_t(ma >> 16) * (mb & 0xFFFF), hh = uint64_t(ma >> 16) * (mb >> 16);
  uint64_t p = ll + ((lh + hl) << 16) + (hh << 32);
  if (((lh + hl) >> 48)) p += 0; // cannot happen: lh+hl < 2^33
  if (neg) p = ~p + 1;
  return uint32_t(p >> 32);
}
inline uint32_t g_divu(uint32_t a, uint32_t b, uint32_t &rem) {
  if (!b) { rem = a; return ~0u; }
  uint32_t q = 0; uint64_t r = 0;
  for (int i = 31; i >= 0; --i) {
    r = (r << 1) | ((a >> i) & 1);
    if (r >= b) { r -= b; q |= 1u << i; }
  }
  rem = uint32_t(r);
  return q;
}
inline uint32_t g_div(uint32_t a, uint32_t b, uint32_t &rem) {
  if (!b) { rem = a; return ~0u; }
  uint32_t ma = (a >> 31) ? 0u - a : a, mb = (b >> 31) ? 0u - b : b, r;
  uint32_t q = g_divu(ma, mb, r);
  rem = (a >> 31) ? 0u - r : r;
  return ((a ^ b) >> 31) ? 0u - q : q;
}
// register-register ops; returns false if the encoding is outside the domain
inline bool alu_rr(uint32_t inst, uint32_t a, uint32_t b, uint32_t &r) {
  uint32_t f3 = bits(inst, 14, 12), f7 = bits(inst, 31, 25), rem;
  switch ((f7 << 3) | f3) {
  case (0x00 << 3) | 0: r = a + b; return true;
  case (0x20 << 3) | 0: r = a - b; return true;
  case (0x00 << 3) | 1: r = a << (b & 31); return true;
  case (0x00 << 3) | 2: r = s32(a) < s32(b); return true;
  case (0x00 << 3) | 3: r = a < b; return true;
  case (0x00 << 3) | 4: r = a ^ b; return true;
  case (0x00 << 3) | 5: r = a >> (b & 31); return true;
  case (0x20 << 3) | 5: r = uint32_t(s32(a) >> (b & 31)); return true;
  case (0x00 << 3) | 6: r = a | b; return true;
  case (0x00 << 3) | 7: r = a & b; return true;
  case (0x01 << 3) | 0: r = a * b; return true;
  case (0x01 << 3) | 1: r = g_mulh(a, b, true, true); return true;
  case (0x01 << 3) | 2: r = g_mulh(a, b, true, false); return true;
  case (0x01 << 3) | 3: r = g_mulh(a, b, false, false); return true;
  case (0x01 << 3) | 4: r = g_div(a, b, rem); return true;
  case (0x01 << 3) | 5: r = g_divu(a, b, rem); return true;
  case (0x01 << 3) | 6: g_div(a, b, r); return true;
  case (0x01 << 3) | 7: g_divu(a, b, r); return true;
  // Zba
  case (0x10 << 3) | 2: r = (a << 1) + b; return true;
  case (0x10 << 3) | 4: r = (a << 2) + b; return true;
  case (0x10 << 3) | 6: r = (a << 3) + b; return true;
  // Zbb
  case (0x20 << 3) | 7: r = a & ~b; return true;
  case (0x20 << 3) | 6: r = a | ~b; return true;
  case (0x20 << 3) | 4: r = ~(a ^ b); return true;
  case (0x05 << 3) | 4: r = s32(a) < s32(b) ? a : b; return true;
  case (0x05 << 3) | 5: r = a < b ? a : b; return true;
  case (0x05 << 3) | 6: r = s32(a) > s32(b) ? a : b; return true;
  case (0x05 << 3) | 7: r = a > b ? a : b; return true;
  case (0x30 << 3) | 1: r = g_rotr(a, (32 - (b & 31)) & 31); return true;
  case (0x30 << 3) | 5: r = g_rotr(a, b & 31); return true;
  case (0x04 << 3) | 4: r = (a & 0xFFFF) | (b << 16); return true; // pack; zext.h with x0
  case (0x04 << 3) | 7: r = (a & 0xFF) | (b & 0xFF) << 8; return true; // packh
  // Zbc
  case (0x05 << 3) | 1: r = uint32_t(g_clmul(a, b)); return true;
  case (0x05 << 3) | 2: r = uint32_t(g_clmul(a, b) >> 31); return true;
  case (0x05 << 3) | 3: r = uint32_t(g_clmul(a, b) >> 32); return true;
  // Zbs
  case (0x24 << 3) | 1: r = a & ~(1u << (b & 31)); return true;
  case (0x24 << 3) | 5: r = (a >> (b & 31)) & 1; return true;
  case (0x34 << 3) | 1: r = a ^ (1u << (b & 31)); return true;
  case (0x14 << 3) | 1: r = a | (1u << (b & 31)); return true;
  }
  return false;
}
inline bool alu_ri(uint32_t inst, uint32_t a, uint32_t &r) {
  uint32_t f3 = bits(inst, 14, 12), f7 = bits(inst, 31, 25), sh = bits(inst, 24, 20), im = imm_i(inst);
  switch (f3) {
  case 0: r = a + im; return true;
  case 2: r = s32(a) < s32(im); return true;
  case 3: r = a < im; return true;
  case 4: r = a ^ im; return true;
  case 6: r = a | im; return true;
  case 7: r = a & im; return true;
  case 1:
    switch (f7) {
    case 0x00: r = a << sh; return true;
    case 0x14: r = a | (1u << sh); return true;
    case 0x24: r = a & ~(1u << sh); return true;
    case 0x34: r = a ^ (1u << sh); return true;
    case 0x30: {
      uint32_t n = 0;
      switch (sh) {
      case 0: while (n < 32 && !((a >> (31 - n)) & 1)) ++n; r = n; return true;
      case 1: while (n < 32 && !((a >> n) & 1)) ++n; r = n; return true;
      case 2: for (int i = 0; i < 32; ++i) n += (a >> i) & 1; r = n; return true;
      case 4: r = sx(a, 8); return true;
      case 5: r = sx(a, 16); return true;
      }
      return false;
    }
    }
    return false;
  case 5:
    switch (f7) {
    case 0x00: r = a >> sh; return true;
    case 0x20: r = uint32_t(s32(a) >> sh); return true;
    case 0x30: r = g_rotr(a, sh); return true;
    case 0x24: r = (a >> sh) & 1; return true;
    case 0x34:
      if (sh != 24) return false;
      r = (a >> 24) | ((a >> 8) & 0xFF00) | ((a << 8) & 0xFF0000) | (a << 24);
      return true;
    case 0x14:
      if (sh != 7) return false;
      r = 0;
      for (int i = 0; i < 4; ++i) if ((a >> (8 * i)) & 0xFF) r |= 0xFFu << (8 * i);
      return true;
    }
    return false;
  }
  return false;
}
inline bool br_taken(uint32_t inst, uint32_t a, uint32_t b, bool &t) {
  switch (bits(inst, 14, 12)) {
  case 0: t = a == b; return true;
  case 1: t = a != b; return true;
  case 4: t = s32(a) < s32(b); return true;
  case 5: t = s32(a) >= s32(b); return true;
  case 6: t = a < b; return true;
  case 7: t = a >= b; return true;
  }
  return false;
}
inline bool amo_op(uint32_t f5, uint32_t old, uint32_t b, uint32_t &nv) {
  switch (f5) {
  case 0: nv = old + b; return true;
  case 1: nv = b; return true;
  case 4: nv = old ^ b; return true;
  case 8: nv = old | b; return true;
  case 12: nv = old & b; return true;
  case 16: nv = s32(old) < s32(b) ? old : b; return true;
  case 20: nv = s32(old) > s32(b) ? old : b; return true;
  case 24: nv = old < b ? old : b; return true;
  case 28: nv = old > b ? old : b; return true;
  }
  return false;
}

// ---------------------------------------------------------------- float (Zfinx)
inline float f_of(uint32_t v) { float f; std::memcpy(&f, &v, 4); return f; }
inline uint32_t u_of(float f) { uint32_t v; std::memcpy(&v, &f, 4); return v; }
inline bool f_nan(uint32_t v) { return (v & 0x7FFFFFFF) > 0x7F800000u; }
inline uint32_t f_canon(float f) { return std::isnan(f) ? 0x7FC00000u : u_of(f); }
enum FOp { F_ADD, F_SUB, F_MUL, F_DIV, F_SQRT, F_FMA };
// exact-value comparison helper: is the exact result exactly `mid`?
inline bool f_exact_is(FOp op, float a, float b, float c, double mid) {
  double da = a, db = b, dc = c;
  auto sum_is = [&](double x, double y) {
    // TwoSum in RNE double arithmetic: x+y == s+e exactly
    double s = x + y, bb = s - x, e = (x - (s - bb)) + (y - bb);
    return e == 0 && s == mid;
  };
  switch (op) {
  case F_ADD: return sum_is(da, db);
  case F_SUB: return sum_is(da, -db);
  case F_MUL: return da * db == mid;
  case F_DIV: return mid * db == da;
  case F_SQRT: return mid * mid == da;
  case F_FMA: return sum_is(da * db, dc);
  }
  return false;
}
#pragma GCC push_options
#pragma GCC optimize("O0")
inline float f_hw(FOp op, float a, float b, float c, int mode) {
  volatile float va = a, vb = b, vc = c, r = 0;
  int old = std::fegetround();
  std::fesetround(mode);
  switch (op) {
  case F_ADD: r = va + vb; break;
  case F_SUB: r = va - vb; break;
  case F_MUL: r = va * vb; break;
  case F_DIV: r = va / vb; break;
  case F_SQRT: r = std::sqrt((float)va); break;
  case F_FMA: r = std::fma((float)va, (float)vb, (float)vc); break;
  }
  std::fesetround(old);
  return r;
}
#pragma GCC pop_options
inline uint32_t f_arith(FOp op, uint32_t a, uint32_t b, uint32_t c, int rm) {
  static const int modes[4] = {FE_TONEAREST, FE_TOWARDZERO, FE_DOWNWARD, FE_UPWARD};
  float fa = f_of(a), fb = f_of(b), fc = f_of(c);
  if (rm < 4) return f_canon(f_hw(op, fa, fb, fc, modes[rm]));
  // RMM: nearest, ties away from zero
  float rn = f_hw(op, fa, fb, fc, FE_TONEAREST);
  if (std::isnan(rn)) return 0x7FC00000u;
  float lo = f_hw(op, fa, fb, fc, FE_DOWNWARD), hi = f_hw(op, fa, fb, fc, FE_UPWARD);
  if (u_of(lo) == u_of(hi) || lo == hi) return u_of(rn);
  if (std::isinf(rn)) return u_of(rn); // overflow: nearest modes agree
  double dlo = lo, dhi = hi;
  if (std::isinf(lo)) dlo = -std::ldexp(1.0, 128);
  if (std::isinf(hi)) dhi = std::ldexp(1.0, 128);
  double mid = (dlo + dhi) / 2;
  if (!f_exact_is(op, fa, fb, fc, mid)) return u_of(rn);
  return u_of(mid > 0 ? hi : lo);
}
inline uint32_t f_cvt_to_int(uint32_t a, int rm, bool uns) {
  if (f_nan(a)) return uns ? ~0u : 0x7FFFFFFFu;
  double d = f_of(a), f = std::floor(d), fr = d - f, r = f;
  switch (rm) {
  case 0: if (fr > 0.5 || (fr == 0.5 && std::fmod(f, 2.0) != 0)) r = f + 1; break;
  case 1: if (d < 0 && fr > 0) r = f + 1; break;
  case 2: break;
  case 3: if (fr > 0) r = f + 1; break;
  case 4: if (fr > 0.5 || (fr == 0.5 && d > 0)) r = f + 1; break;
  }
  if (uns) {
    if (r < 0) return 0;
    if (r > 4294967295.0) return ~0u;
    return uint32_t(uint64_t(r));
  }
  if (r < -2147483648.0) return 0x80000000u;
  if (r > 2147483647.0) return 0x7FFFFFFFu;
  return uint32_t(int32_t(r));
}
inline uint32_t f_cvt_from_int(uint32_t a, int rm, bool uns) {
  bool neg = !uns && (a >> 31);
  uint64_t m = neg ? (0u - a) : a;
  if (!m) return 0;
  int e = 63 - __builtin_clzll(m);
  uint32_t mant;
  if (e <= 23) mant = uint32_t(m << (23 - e));
  else {
    int s = e - 23;
    uint64_t low = m & ((1ull << s) - 1), half = 1ull << (s - 1);
    mant = uint32_t(m >> s);
    bool up = false;
    switch (rm) {
    case 0: up = low > half || (low == half && (mant & 1)); break;
    case 1: break;
    case 2: up = neg && low; break;
    case 3: up = !neg && low; break;
    case 4: up = low >= half; break;
    }
    if (up && ++mant == (1u << 24)) { mant >>= 1; ++e; }
  }
  return (neg ? 0x80000000u : 0) | (uint32_t(e + 127) << 23) | (mant & 0x7FFFFF);
}
inline uint32_t f_class(uint32_t v) {
  uint32_t s = v >> 31, e = (v >> 23) & 255, m = v & 0x7FFFFF;
  if (e == 255) return m ? ((m >> 22) ? 1u << 9 : 1u << 8) : (s ? 1u << 0 : 1u << 7);
  if (e == 0) return m ? (s ? 1u << 2 : 1u << 5) : (s ? 1u << 3 : 1u << 4);
  return s ? 1u << 1 : 1u << 6;
}
inline uint32_t f_minmax(uint32_t a, uint32_t b, bool mx) {
  if (f_nan(a) && f_nan(b)) return 0x7FC00000u;
  if (f_nan(a)) return b;
  if (f_nan(b)) return a;
  auto key = [](uint32_t v) -> int64_t { return (v >> 31) ? -int64_t(v & 0x7FFFFFFF) * 2 - 1 : int64_t(v) * 2; };
  return (key(a) < key(b)) != mx ? a : b;
}
// Zfinx; false: outside the domain
inline bool fp(uint32_t inst, uint32_t a, uint32_t b, uint32_t c, uint32_t &r) {
  uint32_t op = inst & 0x7F, f7 = bits(inst, 31, 25), f3 = bits(inst, 14, 12), rs2 = bits(inst, 24, 20);
  int rm = f3 == 7 ? 0 : int(f3); // frm is not implemented: dynamic = RNE
  if (op != 0x53) {
    if (rm > 4 || bits(inst, 26, 25) != 0) return false;
    uint32_t na = a ^ 0x80000000u, nc = c ^ 0x80000000u;
    switch (op) {
    case 0x43: r = f_arith(F_FMA, a, b, c, rm); return true;
    case 0x47: r = f_arith(F_FMA, a, b, nc, rm); return true;
    case 0x4B: r = f_arith(F_FMA, na, b, c, rm); return true;
    case 0x4F: r = f_arith(F_FMA, na, b, nc, rm); return true;
    }
    return false;
  }
  float fa = f_of(a), fb = f_of(b);
  switch (f7) {
  case 0x00: if (rm > 4) return false; r = f_arith(F_ADD, a, b, 0, rm); return true;
  case 0x04: if (rm > 4) return false; r = f_arith(F_SUB, a, b, 0, rm); return true;
  case 0x08: if (rm > 4) return false; r = f_arith(F_MUL, a, b, 0, rm); return true;
  case 0x0C: if (rm > 4) return false; r = f_arith(F_DIV, a, b, 0, rm); return true;
  case 0x2C: if (rm > 4 || rs2) return false; r = f_arith(F_SQRT, a, 0, 0, rm); return true;
  case 0x10:
    if (f3 == 0) { r = (a & 0x7FFFFFFF) | (b & 0x80000000u); return true; }
    if (f3 == 1) { r = (a & 0x7FFFFFFF) | (~b & 0x80000000u); return true; }
    if (f3 == 2) { r = a ^ (b & 0x80000000u); return true; }
    return false;
  case 0x14:
    if (f3 > 1) return false;
    r = f_minmax(a, b, f3 == 1); return true;
  case 0x50:
    if (f3 == 2) { r = fa == fb; return true; }
    if (f3 == 1) { r = fa < fb; return true; }
    if (f3 == 0) { r = fa <= fb; return true; }
    return false;
  case 0x60: if (rm > 4 || rs2 > 1) return false; r = f_cvt_to_int(a, rm, rs2 == 1); return true;
  case 0x68: if (rm > 4 || rs2 > 1) return false; r = f_cvt_from_int(a, rm, rs2 == 1); return true;
  case 0x70: if (f3 != 1 || rs2) return false; r = f_class(a); return true;
  }
  return false;
}

// ---------------------------------------------------------------- CSRs
enum CsrName { MTVEC, MEPC, MCAUSE, MIE, MIP, MTVAL, MSCRATCH, MSTATUS, MIDELEG, MEDELEG, SEPC, STVEC,
               SCAUSE, SSCRATCH, STVAL, SSTATUS, SIE, SIP, SATP, MHARTID, MISA, NCSR };
inline int csr_of(uint32_t num) {
  switch (num) {
  case 0x305: return MTVEC; case 0x341: return MEPC; case 0x342: return MCAUSE; case 0x304: return MIE;
  case 0x344: return MIP; case 0x343: return MTVAL; case 0x340: return MSCRATCH; case 0x300: return MSTATUS;
  case 0x303: return MIDELEG; case 0x302: return MEDELEG; case 0x141: return SEPC; case 0x105: return STVEC;
  case 0x142: return SCAUSE; case 0x140: return SSCRATCH; case 0x143: return STVAL; case 0x100: return SSTATUS;
  case 0x104: return SIE; case 0x144: return SIP; case 0x180: return SATP; case 0xF14: return MHARTID;
  case 0x301: return MISA;
  }
  return -1;
}
constexpr uint32_t MSTATUS_W = 0x807FF9BBu, SSTATUS_M = 0x800DE133u, MIE_W = 0xBBBu, SIE_M = 0x333u;

struct Irq {
  bool any = false, to_m = false;
  uint32_t code = 0;
};

enum AccType { FETCH = 0, LOAD = 1, STORE = 2 };

// ---------------------------------------------------------------- machine
struct State {
  uint32_t x[32] = {0};
  uint32_t csr[NCSR] = {0};
  uint32_t pc = 0;
  uint8_t priv = 3;
  bool resv = false;
  uint32_t resv_addr = 0;
};

struct Effect { // what one step did, for observers
  uint32_t pc = 0, inst = 0;
  bool store = false;
  uint32_t saddr = 0, sdata = 0, smask = 0; // word address, data in lane, byte mask (bits)
  int sbytes = 0;
  uint32_t sraw_addr = 0, sraw_data = 0;
  bool load = false;
  uint32_t laddr = 0;
  int lbytes = 0;
  bool trap = false, interrupt = false;
  uint32_t cause = 0;
  bool pf_inst = false, pf_load = false, pf_store = false;
  bool unsupported = false; // encoding outside the modelled domain
  bool ended = false;       // ebreak
  bool is_br = false, taken = false;
};

struct Machine {
  State s;
  Mem mem;
  Effect e;

  Machine() { s.csr[MISA] = 0x40141103u; }

  Irq pending_irq() const {
    Irq q;
    const uint32_t p = s.csr[MIP] & s.csr[MIE], d = s.csr[MIDELEG];
    const bool m_on = s.priv < 3 || (s.csr[MSTATUS] & 8);
    const bool s_on = s.priv == 0 || (s.priv == 1 && (s.csr[MSTATUS] & 2));
    const uint32_t mp = p & ~d & 0x888u;
    if (m_on && mp) {
      q.any = q.to_m = true;
      q.code = (mp & 8) ? 3 : (mp & 0x80) ? 7 : 11;
      return q;
    }
    // platform: delegated M sources appear as the S source of the same kind
    uint32_t sp = p & 0x222u;
    sp |= ((p & d & 0x888u) >> 2);
    if (s_on && sp) {
      q.any = true;
      q.code = (sp & 0x200) ? 9 : (sp & 0x20) ? 5 : 1;
    }
    return q;
  }

  void set_mstatus(uint32_t v) {
    s.csr[MSTATUS] = v;
    s.csr[SSTATUS] = v & SSTATUS_M;
  }

  void trap_to(bool to_m, uint32_t cause, uint32_t tval) {
    e.trap = true;
    e.cause = cause;
    uint32_t st = s.csr[MSTATUS];
    const bool intr = cause >> 31;
    const uint32_t code = cause & 0x7FFFFFFF;
    uint32_t tvec;
    if (to_m) {
      s.csr[MEPC] = s.pc;
      s.csr[MCAUSE] = cause;
      s.csr[MTVAL] = tval;
      st = (st & ~0x1880u) | (uint32_t(s.priv) << 11) | ((st & 8) << 4);
      st &= ~8u;
      tvec = s.csr[MTVEC];
      s.priv = 3;
    } else {
      s.csr[SEPC] = s.pc;
      s.csr[SCAUSE] = cause;
      s.csr[STVAL] = tval;
      st = (st & ~0x120u) | (s.priv == 1 ? 0x100u : 0) | ((st & 2) << 4);
      st &= ~2u;
      tvec = s.csr[STVEC];
      s.priv = 1;
    }
    set_mstatus(st);
    s.pc = (tvec & ~3u) + ((tvec & 1) && intr ? 4 * code : 0);
  }
  // synchronous exception
  void except(uint32_t code, uint32_t tval) {
    bool deleg = s.priv < 3 && ((s.csr[MEDELEG] >> code) & 1);
    trap_to(!deleg, code, tval);
  }
  void xret(bool m) {
    uint32_t st = s.csr[MSTATUS];
    s.priv = m ? (st >> 11) & 3 : (st >> 8) & 1;
    if (m) st = (st & ~(0x1800u | 8u)) | ((st >> 4) & 8u) | 0x80u;
    else st = (st & ~(0x100u | 2u)) | ((st >> 4) & 2u) | 0x20u;
    set_mstatus(st);
    s.pc = s.csr[m ? MEPC : SEPC];
  }
  void take_irq(const Irq &q) {
    e = Effect();
    e.pc = s.pc;
    e.interrupt = true;
    trap_to(q.to_m, 0x80000000u | q.code, 0);
  }

  // Sv32 walk. true: ok
  bool translate(uint32_t va, AccType t, uint32_t &pa) const { return translate_with(va, t, pa, s.priv, s.csr[MSTATUS], s.csr[SATP]); }
  bool translate_with(uint32_t va, AccType t, uint32_t &pa, uint8_t priv, uint32_t st, uint32_t satp) const {
    uint8_t p = priv;
    if (t != FETCH && (st & (1u << 17))) p = (st >> 11) & 3;
    if (!(satp >> 31) || p == 3) { pa = va; return true; }
    uint32_t base = (satp & 0x3FFFFF) << 12;
    for (int lvl = 1; lvl >= 0; --lvl) {
      uint32_t vpn = lvl ? va >> 22 : (va >> 12) & 0x3FF;
      uint32_t pte = mem.rd(base + 4 * vpn);
      bool v = pte & 1, r = pte & 2, w = pte & 4, x = pte & 8, u = pte & 16, a = pte & 64, d = pte & 128;
      if (!v || (!r && w)) return false;
      if (!r && !x) {
        base = (pte >> 10) << 12;
        continue;
      }
      if (t == FETCH && !x) return false;
      if (t == LOAD && !(r || (x && (st & (1u << 19))))) return false;
      if (t == STORE && !w) return false;
      if (p == 0 && !u) return false;
      if (p == 1 && u && (t == FETCH || !(st & (1u << 18)))) return false;
      if (lvl && ((pte >> 10) & 0x3FF)) return false;
      if (!a || (t == STORE && !d)) return false;
      pa = lvl ? (((pte >> 20) << 22) | (va & 0x3FFFFF)) : (((pte >> 10) << 12) | (va & 0xFFF));
      return true;
    }
    return false;
  }

  void csr_write(int i, uint32_t v) {
    switch (i) {
    case MSTATUS: set_mstatus((s.csr[MSTATUS] & ~MSTATUS_W) | (v & MSTATUS_W)); break;
    case SSTATUS: set_mstatus((s.csr[MSTATUS] & ~SSTATUS_M) | (v & SSTATUS_M)); break;
    case MIE: s.csr[MIE] = v & MIE_W; s.csr[SIE] = s.csr[MIE] & SIE_M; break;
    case SIE: s.csr[MIE] = (s.csr[MIE] & ~SIE_M) | (v & SIE_M); s.csr[SIE] = s.csr[MIE] & SIE_M; break;
    case MIP: s.csr[MIP] = v & MIE_W; s.csr[SIP] = s.csr[MIP] & SIE_M; break;
    case SIP: s.csr[MIP] = (s.csr[MIP] & ~SIE_M) | (v & SIE_M); s.csr[SIP] = s.csr[MIP] & SIE_M; break;
    default: s.csr[i] = v;
    }
  }

  // Own stores to the reserved address: the ISA leaves it open whether they
  // cancel the reservation; the reference does.
  bool store_cancels_resv = true;
  void do_store(uint32_t pa, uint32_t v, int bytes) {
    if (store_cancels_resv && s.resv && s.resv_addr == pa) s.resv = false;
    e.store = true;
    e.sraw_addr = pa;
    e.sraw_data = v;
    e.sbytes = bytes;
    e.saddr = pa & ~3u;
    const uint32_t lanes = bytes == 4 ? ~0u : (1u << (8 * bytes)) - 1;
    e.smask = lanes << (8 * (pa & 3));
    e.sdata = (v & lanes) << (8 * (pa & 3));
    mem.store(pa, v, bytes);
  }

  // one instruction (no interrupt). fetched: override of the instruction word
  void step(const uint32_t *override_inst = nullptr) {
    e = Effect();
    e.pc = s.pc;
    uint32_t pa;
    if (!translate(s.pc, FETCH, pa)) {
      e.pf_inst = true;
      except(12, s.pc);
      return;
    }
    uint32_t in = override_inst ? *override_inst : mem.rd(pa & ~3u);
    e.inst = in;
    exec(in);
  }

  void exec(uint32_t in) {
    uint32_t op = in & 0x7F, rd = bits(in, 11, 7), r1 = bits(in, 19, 15), r2 = bits(in, 24, 20), f3 = bits(in, 14, 12);
    uint32_t a = s.x[r1], b = s.x[r2], res = 0, npc = s.pc + 4, pa = 0;
    bool wr = true;
    switch (op) {
    case 0x37: res = imm_u(in); break;
    case 0x17: res = s.pc + imm_u(in); break;
    case 0x6F: res = npc; npc = s.pc + imm_j(in); e.is_br = e.taken = true; break;
    case 0x67:
      if (f3) { e.unsupported = true; return; }
      res = npc; npc = (a + imm_i(in)) & ~1u; e.is_br = e.taken = true; break;
    case 0x63: {
      bool t = false;
      if (!br_taken(in, a, b, t)) { e.unsupported = true; return; }
      e.is_br = true; e.taken = t;
      if (t) npc = s.pc + imm_b(in);
      wr = false;
      break;
    }
    case 0x03: {
      if (f3 == 3 || f3 > 5) { e.unsupported = true; return; }
      uint32_t va = a + imm_i(in);
      int n = 1 << (f3 & 3);
      if (!translate(va, LOAD, pa)) { e.pf_load = true; except(13, va); return; }
      if (pa & (n - 1)) { e.unsupported = true; return; }
      e.load = true; e.laddr = pa; e.lbytes = n;
      res = mem.load(pa, n);
      if (f3 < 2) res = sx(res, 8 * n);
      break;
    }
    case 0x23: {
      if (f3 > 2) { e.unsupported = true; return; }
      uint32_t va = a + imm_s(in);
      int n = 1 << f3;
      if (!translate(va, STORE, pa)) { e.pf_store = true; except(15, va); return; }
      if (pa & (n - 1)) { e.unsupported = true; return; }
      do_store(pa, n == 4 ? b : b & ((1u << (8 * n)) - 1), n);
      wr = false;
      break;
    }
    case 0x13: if (!alu_ri(in, a, res)) { e.unsupported = true; return; } break;
    case 0x33: if (!alu_rr(in, a, b, res)) { e.unsupported = true; return; } break;
    case 0x0F: wr = false; break; // fence, fence.i
    case 0x43: case 0x47: case 0x4B: case 0x4F: case 0x53:
      if (!fp(in, a, b, s.x[in >> 27], res)) { e.unsupported = true; return; }
      break;
    case 0x2F: {
      if (f3 != 2) { e.unsupported = true; return; }
      uint32_t f5 = in >> 27;
      if (f5 == 2) {
        if (r2) { e.unsupported = true; return; }
        if (!translate(a, LOAD, pa)) { e.pf_load = true; except(13, a); return; }
        if (pa & 3) { e.unsupported = true; return; }
        res = mem.rd(pa);
        e.load = true; e.laddr = pa; e.lbytes = 4;
        s.resv = true; s.resv_addr = pa;
      } else if (f5 == 3) {
        if (!translate(a, STORE, pa)) { e.pf_store = true; except(15, a); return; }
        if (pa & 3) { e.unsupported = true; return; }
        bool ok = s.resv && s.resv_addr == pa;
        res = ok ? 0 : 1;
        if (ok) do_store(pa, b, 4);
        s.resv = false;
      } else {
        uint32_t nv;
        if (!amo_op(f5, 0, 0, nv)) { e.unsupported = true; return; }
        if (!translate(a, STORE, pa) || !translate(a, LOAD, pa)) { e.pf_store = true; except(15, a); return; }
        if (pa & 3) { e.unsupported = true; return; }
        res = mem.rd(pa);
        amo_op(f5, res, b, nv);
        e.load = true; e.laddr = pa; e.lbytes = 4;
        do_store(pa, nv, 4);
      }
      break;
    }
    case 0x73: {
      if (f3 == 0) {
        wr = false;
        if (in == 0x00000073) { except(s.priv == 3 ? 11 : 8 + s.priv, 0); return; }
        if (in == 0x00100073) { e.ended = true; break; }
        if (in == 0x30200073) { // mret
          xret(true);
          npc = s.pc;
          break;
        }
        if (in == 0x10200073) { // sret
          xret(false);
          npc = s.pc;
          break;
        }
        if (in == 0x10500073) break;                 // wfi: no-op
        if ((in >> 25) == 9 && rd == 0) break;       // sfence.vma
        e.unsupported = true;
        return;
      }
      if (f3 == 4) { e.unsupported = true; return; }
      uint32_t num = in >> 20;
      if (num == 0xC01 || num == 0xC81) { except(2, in); return; }
      int i = csr_of(num);
      if (i < 0) { wr = false; break; } // platform: unknown CSR is a no-op
      uint32_t old = s.csr[i], v = (f3 & 4) ? r1 : a;
      bool w = (f3 & 3) == 1 || r1 != 0;
      res = old;
      if (w) csr_write(i, (f3 & 3) == 1 ? v : (f3 & 3) == 2 ? (old | v) : (old & ~v));
      break;
    }
    default: e.unsupported = true; return;
    }
    if (wr && rd) s.x[rd] = res;
    s.pc = npc;
  }
};
} // namespace golden
