#pragma once
// Whole-pipeline exploration: the real SimCpu::cycle() runs guest programs
// while every retirement is compared with the sequential model (golden.h).
// Each execution happens in a forked child, and a choice of the environment
// (prediction, fetch bubble, bus delay ...) that deviates from the base policy
// forks again, so all executions within the deviation budget are enumerated
// from one common prefix.
#include "Csr.h"
#include "PhysMemory.h"
#include "SimCpu.h"
#include "diff.h"
#include "golden.h"
#include "mc.h"
#include <algorithm>
#include <functional>
#include <sys/prctl.h>
#include <sys/wait.h>

namespace e2e {
using golden::Machine;
using u32 = uint32_t;

// ------------------------------------------------------------ encoders
inline u32 R(u32 f7, u32 r2, u32 r1, u32 f3, u32 rd, u32 op) { return f7 << 25 | r2 << 20 | r1 << 15 | f3 << 12 | rd << 7 | op; }
inline u32 I(u32 imm, u32 r1, u32 f3, u32 rd, u32 op) { return imm << 20 | r1 << 15 | f3 << 12 | rd << 7 | op; }
inline u32 S(u32 imm, u32 r2, u32 r1, u32 f3) { return ((imm >> 5) & 127) << 25 | r2 << 20 | r1 << 15 | f3 << 12 | (imm & 31) << 7 | 0x23; }
inline u32 B(int off, u32 r2, u32 r1, u32 f3) {
  u32 o = (u32)off;
  return ((o >> 12) & 1) << 31 | ((o >> 5) & 63) << 25 | r2 << 20 | r1 << 15 | f3 << 12 | ((o >> 1) & 15) << 8 | ((o >> 11) & 1) << 7 | 0x63;
}
inline u32 J(int off, u32 rd) {
  u32 o = (u32)off;
  return ((o >> 20) & 1) << 31 | ((o >> 1) & 1023) << 21 | ((o >> 11) & 1) << 20 | ((o >> 12) & 255) << 12 | rd << 7 | 0x6F;
}
inline u32 addi(u32 rd, u32 r1, int i) { return I(u32(i) & 4095, r1, 0, rd, 0x13); }
inline u32 andi(u32 rd, u32 r1, int i) { return I(u32(i) & 4095, r1, 7, rd, 0x13); }
inline u32 add(u32 rd, u32 a, u32 b) { return R(0, b, a, 0, rd, 0x33); }
inline u32 mul(u32 rd, u32 a, u32 b) { return R(1, b, a, 0, rd, 0x33); }
inline u32 div_(u32 rd, u32 a, u32 b) { return R(1, b, a, 4, rd, 0x33); }
inline u32 lw(u32 rd, int o, u32 b) { return I(u32(o) & 4095, b, 2, rd, 3); }
inline u32 ld_(u32 f3, u32 rd, int o, u32 b) { return I(u32(o) & 4095, b, f3, rd, 3); }
inline u32 sw(u32 r, int o, u32 b) { return S(u32(o), r, b, 2); }
inline u32 st_(u32 f3, u32 r, int o, u32 b) { return S(u32(o), r, b, f3); }
inline u32 amo(u32 f5, u32 rd, u32 r2, u32 r1) { return R(f5 << 2, r2, r1, 2, rd, 0x2F); }
inline u32 csrrw(u32 rd, u32 c, u32 r) { return I(c, r, 1, rd, 0x73); }
inline u32 csrrs(u32 rd, u32 c, u32 r) { return I(c, r, 2, rd, 0x73); }
inline u32 lui(u32 rd, u32 v) { return (v & 0xFFFFF000u) | rd << 7 | 0x37; }
inline u32 auipc(u32 rd, u32 v) { return (v & 0xFFFFF000u) | rd << 7 | 0x17; }
inline u32 jalr(u32 rd, u32 r1, int o) { return I(u32(o) & 4095, r1, 0, rd, 0x67); }
constexpr u32 I_FENCE = 0x0FF0000F, I_FENCE_I = 0x0000100F, I_SFENCE = 0x12000073, I_MRET = 0x30200073, I_SRET = 0x10200073,
              I_ECALL = 0x73, I_NOP = 0x13, I_WFI = 0x10500073, I_EBREAK = 0x00100073;
using Code = std::vector<u32>;
inline Code operator+(Code a, const Code &b) { a.insert(a.end(), b.begin(), b.end()); return a; }

// ------------------------------------------------------------ environment
struct Policy {
  uint8_t pred = 0;   // 0 as retired, 1 inverted, 2 never taken, 3 always taken
  uint8_t width = 4;  // instructions per fetch group
  uint8_t gap = 0;    // idle cycles between groups
  uint8_t rlat = 0, wlat = 0, acc = 0; // fabric answers to every request
  uint8_t stall = 0;  // front end refuses training every n-th cycle
};
enum Kind : uint8_t { K_DIR, K_TARGET, K_WIDTH, K_GAP, K_STALL, K_RACC, K_RLAT, K_RORD, K_WACC, K_WLAT, K_END };
extern const char *const kind_name[];
struct Choice { uint16_t cyc; uint8_t kind, alt; };

struct Case {
  Code code;                      // placed at CODE
  std::vector<std::pair<u32, u32>> data; // other initial memory words
  u32 x[32] = {0};
  u32 csr[golden::NCSR] = {0};
  u32 pc = 0, end = 0;            // run until this pc retires in program order
  uint8_t priv = 3;
  Policy pol;
  int budget = 0;
  uint32_t kinds = ~0u;           // kinds of choices that may deviate
  u32 from = 0, until = 0xFFFF;   // cycles in which they may deviate
  long timer = -1;                // cycle at which the timer interrupt rises
  u32 idle_bound = 600;           // cycles allowed between retirements
  u32 max_retired = 4000;
  u32 drain = 0;                  // cycles to run on after the end
};
constexpr u32 CODE = 0x80001000u, HANDLER = 0x80000100u, DATA = 0x80010000u, ALIAS = DATA + 256 * 64, ALIAS2 = DATA + 2 * 256 * 64;

extern SimCpu cpu;
extern Machine g;
extern std::string prop;
struct Run {
  const Case *c = nullptr;
  std::string name;
  std::vector<Choice> hist;
  int left = 0;
  u32 cyc = 0, retired = 0, last_retire = 0, irqs = 0;
  bool active = false;
  bool synced = false;     // the retirement at hand is taken over from the core
  uint8_t sync_priv = 3;
  std::map<u32, std::pair<bool, u32>> path; // pc -> outcome of its first execution
  std::vector<u32> pcs;                     // recent retirements
};
extern Run run;
unsigned choose(Kind k, unsigned n, unsigned base);
[[noreturn]] void fail(const std::string &key, const std::string &what);
void setup();                      // once, before workers
void execute(const Case &c, const std::string &name); // all executions of the case
extern void (*on_start)();         // in the child, before the first cycle
extern void (*on_cycle)();         // after every cycle
extern void (*on_end)();           // end of every execution
extern void (*on_retire)();        // after the model stepped
bool base_taken(u32 pc);            // of the replaced front end
u32 indirect_target(u32 pc, unsigned k);
} // namespace e2e
