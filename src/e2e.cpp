// P10, P11, P12, P15, P17, P26, P50: programs through the real pipeline and memory
// subsystem, with an adversarial front end and fabric.
#include "e2e.h"
#include "realdiff.h"
using namespace e2e;

static bool thorough;
struct El { std::string n; Code c; };
using Els = std::vector<El>;
constexpr u32 MMIO = 0x1fb00000u; // a device behind the fabric

static const Els &general() {
  static const Els v = {
      {"add", {add(1, 1, 2)}},
      {"mul", {mul(2, 1, 2)}},
      {"div", {div_(1, 2, 1)}},
      {"lw", {lw(1, 0, 10)}},
      {"sw", {sw(1, 0, 10)}},
      {"sb", {st_(0, 2, 1, 10)}},
      {"lhu", {ld_(5, 2, 2, 10)}},
      {"lwB", {lw(1, 0, 12)}},
      {"swB", {sw(2, 4, 12)}},
      {"beq", {B(8, 2, 1, 0)}},
      {"bne", {B(8, 0, 1, 1)}},
      {"jalr", {auipc(5, 0), jalr(6, 5, 12)}},
      {"loop", {addi(3, 0, 2), add(2, 2, 1), addi(3, 3, -1), B(-8, 0, 3, 1)}},
      {"amo", {amo(0, 1, 2, 10)}},
      {"lr", {amo(2, 1, 0, 10)}},
      {"sc", {amo(3, 2, 1, 10)}},
      {"fence", {I_FENCE}},
      {"csr", {csrrw(1, 0x340, 2)}},
      {"ecall", {I_ECALL}},
      {"ill", {0}},
      {"jal", {J(8, 7)}},
      {"fencei", {I_FENCE_I}},
      {"sfence", {I_SFENCE}},
      {"ldx", {andi(4, 1, 12), add(4, 4, 10), lw(2, 0, 4)}},
      {"stx", {andi(4, 2, 12), add(4, 4, 10), sw(1, 0, 4)}},
  };
  return v;
}
// loads and stores of every size over one word and its neighbours, with
// addresses and data that become known early or late
static const Els &memory() {
  static Els v;
  if (!v.empty()) return v;
  v = {
      {"sw0", {sw(2, 0, 10)}},
      {"sh2", {st_(1, 2, 2, 10)}},
      {"sb0", {st_(0, 1, 0, 10)}},
      {"sb3", {st_(0, 2, 3, 10)}},
      {"sw4", {sw(1, 4, 10)}},
      {"swB", {sw(2, 0, 12)}},
      {"swC", {sw(1, 0, 14)}},
      {"swlate", {div_(2, 2, 1), sw(2, 0, 10)}},
      {"shx", {div_(4, 1, 1), add(4, 4, 4), add(4, 4, 10), st_(1, 2, 0, 4)}}, // address late, normally word 0 upper half
      {"lw0", {lw(1, 0, 10)}},
      {"lh0", {ld_(1, 2, 0, 10)}},
      {"lbu3", {ld_(4, 1, 3, 10)}},
      {"lb1", {ld_(0, 2, 1, 10)}},
      {"lw4", {lw(2, 4, 10)}},
      {"lwB", {lw(1, 0, 12)}},
      {"lwC", {lw(2, 0, 14)}},
      {"lwx", {andi(4, 1, 4), add(4, 4, 10), lw(2, 0, 4)}},
      {"amoor", {amo(8, 1, 2, 10)}},
      {"beq", {B(8, 2, 1, 0)}},
      {"ecall", {I_ECALL}},
  };
  return v;
}
// accesses through a pointer (x29) that moves on to another line each time
static const Els &moving() {
  static const Els v = {
      {"sw", {sw(2, 0, 29)}},   {"sb", {st_(0, 1, 3, 29)}},          {"swlate", {div_(2, 2, 1), sw(2, 4, 29)}}, {"lw", {lw(1, 0, 29)}},
      {"lh", {ld_(1, 2, 6, 29)}}, {"lwsw", {lw(1, 4, 29), sw(1, 0, 29)}}, {"amo", {amo(0, 1, 2, 29)}},             {"swback", {sw(2, 8, 31)}},
      {"lwback", {lw(1, 0, 31)}}, {"beq", {B(8, 2, 1, 0)}},              {"fence", {I_FENCE}},
  };
  return v;
}
static const Els &device() {
  static const Els v = {
      {"mlw", {lw(1, 0, 13)}},   {"mlbu", {ld_(4, 2, 5, 13)}}, {"msw", {sw(1, 8, 13)}}, {"msb", {st_(0, 2, 13, 13)}},
      {"lw", {lw(2, 0, 10)}},    {"sw", {sw(2, 4, 10)}},       {"beq", {B(8, 2, 1, 0)}}, {"bne", {B(8, 0, 1, 1)}},
      {"jalr", {auipc(5, 0), jalr(6, 5, 12)}}, {"div", {div_(1, 2, 1)}}, {"ecall", {I_ECALL}}, {"ill", {0}},
      {"fence", {I_FENCE}},      {"csr", {csrrw(1, 0x340, 2)}},  {"lwB", {lw(1, 0, 12)}}, {"amo", {amo(0, 1, 2, 10)}},
      {"uart", {st_(0, 2, 0, 17)}},
  };
  return v;
}

static const Els &faulting() { // device accesses around page faults; x15 is not mapped, x16 read only
  static const Els v = {
      {"mlw", {lw(1, 0, 13)}},   {"msw", {sw(1, 8, 13)}},  {"lw", {lw(2, 0, 10)}},  {"sw", {sw(2, 4, 10)}},
      {"pfl", {lw(2, 0, 15)}},   {"pfs", {sw(2, 0, 15)}},  {"pfw", {sw(2, 0, 16)}}, {"pfa", {amo(0, 4, 2, 16)}},
      {"beq", {B(8, 2, 1, 0)}},  {"div", {div_(1, 2, 1)}}, {"ecall", {I_ECALL}},    {"fence", {I_FENCE}},
  };
  return v;
}
static const Els &synced_events() { // events the comparison takes over from the core, between ones it checks
  static const Els v = {
      {"mlw", {lw(1, 0, 13)}},    {"msw", {sw(1, 8, 13)}},    {"lr", {amo(2, 1, 0, 10)}},  {"sc", {amo(3, 2, 3, 10)}},
      {"sw", {sw(3, 0, 10)}},     {"sb", {st_(0, 2, 3, 10)}}, {"amo", {amo(0, 5, 3, 10)}}, {"lw", {lw(2, 0, 10)}},
      {"beq", {B(8, 2, 1, 0)}},   {"csr", {csrrw(1, 0x340, 2)}}, {"ecall", {I_ECALL}},     {"div", {div_(1, 2, 1)}},
      {"rmip", {csrrs(1, 0x344, 0)}}, {"rsip", {csrrs(1, 0x144, 0)}}, {"wsip", {csrrs(1, 0x144, 3)}},
  };
  return v;
}
static const Els &reservation() {
  static const Els v = {
      {"lr", {amo(2, 1, 0, 10)}}, {"sc", {amo(3, 2, 3, 10)}}, {"lrB", {amo(2, 1, 0, 12)}}, {"scB", {amo(3, 4, 3, 12)}},
      {"sw", {sw(3, 0, 10)}},     {"swB", {sw(3, 0, 12)}},    {"amo", {amo(0, 5, 3, 10)}}, {"lw", {lw(6, 0, 10)}},
      {"beq", {B(8, 2, 1, 0)}},   {"ecall", {I_ECALL}},
  };
  return v;
}

static const Els &counted() { // what the counters tell apart
  static const Els v = {
      {"add", {add(1, 1, 2)}},   {"div", {div_(1, 2, 1)}},  {"lw", {lw(2, 0, 10)}},      {"lbB", {ld_(0, 2, 1, 12)}},
      {"sw", {sw(1, 0, 10)}},    {"shC", {st_(1, 2, 2, 14)}}, {"amo", {amo(0, 1, 2, 10)}}, {"lr", {amo(2, 1, 0, 10)}},
      {"sc", {amo(3, 2, 1, 10)}}, {"beq", {B(8, 2, 1, 0)}},  {"bne", {B(8, 0, 3, 1)}},    {"jal", {J(8, 7)}},
      {"jalr", {auipc(5, 0), jalr(6, 5, 12)}},                {"jr", {auipc(5, 0), jalr(0, 5, 12), I_NOP}},
      {"ret", {auipc(1, 0), addi(1, 1, 12), jalr(0, 1, 0)}},  {"ret4", {auipc(1, 0), jalr(0, 1, 8)}},
      {"loop", {addi(3, 0, 3), add(2, 2, 1), addi(3, 3, -1), B(-8, 0, 3, 1)}},
      {"fence", {I_FENCE}},      {"csr", {csrrw(1, 0x340, 2)}}, {"ecall", {I_ECALL}},    {"ill", {0}}, {"mlw", {lw(2, 0, 13)}}, {"msw", {sw(2, 8, 13)}},
  };
  return v;
}

static Code epilogue() {
  return {I_FENCE, lw(20, 0, 10), lw(21, 4, 10), lw(22, 8, 10), lw(23, 12, 10), lw(24, 0, 12), lw(25, 4, 12), lw(28, 0, 14),
          csrrs(26, 0x340, 0), csrrs(27, 0x342, 0), J(0, 0)};
}
static Case base_case(const Code &body) {
  Case c;
  c.code = body + epilogue();
  c.pc = CODE;
  c.end = CODE + 4 * (c.code.size() - 1);
  c.x[1] = 5; c.x[2] = 0xFFFFFFF9u; c.x[10] = DATA; c.x[12] = ALIAS; c.x[13] = MMIO; c.x[14] = ALIAS2; c.x[17] = UART_ADDR_BASE; c.x[3] = 1; c.x[31] = 0x100; // supervisor interrupt handlers return to supervisor mode, interrupts off
  c.csr[golden::MTVEC] = HANDLER;
  c.csr[golden::STVEC] = HANDLER + 0x100;
  const Code h = {csrrs(30, 0x342, 0), B(20, 0, 30, 4), csrrs(30, 0x341, 0), addi(30, 30, 4), csrrw(0, 0x341, 30), I_MRET, csrrw(0, 0x304, 0), I_MRET};
  const Code s = {csrrs(30, 0x142, 0), B(20, 0, 30, 4), csrrs(30, 0x141, 0), addi(30, 30, 4), csrrw(0, 0x141, 30), I_SRET, csrrw(0, 0x100, 31), I_SRET};
  for (size_t i = 0; i < h.size(); ++i) {
    c.data.push_back({HANDLER + 4 * i, h[i]});
    c.data.push_back({HANDLER + 0x100 + 4 * i, s[i]});
  }
  for (int v = 0; v < 16; ++v) { // vectored entries of both tables, 0x40 bytes each
    c.data.push_back({HANDLER + 0x200 + 4 * v, v == 7 || v == 0 ? J(-0x200 - 4 * v, 0) : 0});
    c.data.push_back({HANDLER + 0x240 + 4 * v, v == 5 || v == 0 ? J(-0x140 - 4 * v, 0) : 0});
  }
  for (int i = 0; i < 4; ++i) {
    c.data.push_back({DATA + 4u * i, 0x80FF7F01u * (i + 1)});
    c.data.push_back({ALIAS + 4u * i, 0x1234ABCDu + i});
    c.data.push_back({ALIAS2 + 4u * i, 0x600DF00Du + i});
    c.data.push_back({MMIO + 4u * i, 0xD0D1D2D3u + i * 0x1010101u});
  }
  return c;
}

// ------------------------------------------------------------ counters
struct Tally { uint64_t cycle, commit, load, store, cond, jalr, ret, cond_mis, jalr_mis, ret_mis; };
static Tally want_n, zero_n, open_n; // as observed; counters at the start; the instruction that ends the warm-up
static long warm = -1, measure = -1; // instructions of the warm-up and of the measured part
static bool window_open;
static Tally counters() {
  const auto &q = cpu.ctx.perf;
  return {q.cycle, q.commit_num, q.commit_load_num, q.commit_store_num, q.cond_br_num, q.jalr_br_num, q.ret_br_num, q.cond_mispred_num, q.jalr_mispred_num, q.ret_mispred_num};
}
static const char *const TALLY[] = {"cycles", "committed instructions", "committed loads", "committed stores", "conditional branches", "indirect jumps", "returns",
                                    "mispredicted conditional branches", "mispredicted indirect jumps", "mispredicted returns"};
static void count_start() {
  zero_n = counters();
  want_n = Tally{};
  window_open = false;
  if (warm >= 0) {
    cpu.ctx.is_ckpt = true;
    cpu.ctx.ckpt_warmup_commit_target = warm;
    cpu.ctx.ckpt_measure_commit_target = measure;
  }
}
static void count_retire() {
  if (run.synced && cpu.back.rob->out.rob_bcast->interrupt) return;
  const u32 in = g.e.inst, op = in & 0x7F, pc = g.e.pc;
  Tally &w = want_n;
  const Tally before = w;
  ++w.commit;
  const bool at = op == 0x2F;
  if (op == 0x03 || (at && in >> 27 != 3)) ++w.load;
  if (op == 0x23 || (at && in >> 27 != 2)) ++w.store;
  if (op == 0x63) {
    ++w.cond;
    w.cond_mis += base_taken(pc) != g.e.taken;
  } else if (op == 0x67) {
    const bool ret = (in >> 15 & 31) == 1 && (in >> 7 & 31) == 0 && in >> 20 == 0, mis = indirect_target(pc, run.c->pol.pred) != g.s.pc;
    ++(ret ? w.ret : w.jalr);
    (ret ? w.ret_mis : w.jalr_mis) += mis;
  }
  if (warm >= 0 && !window_open && (long)w.commit >= warm) { // the measured part starts behind this instruction
    window_open = true;
    zero_n = Tally{};
    const Tally br = w; // its own outcome as a branch may be counted on either side
    w = Tally{};
    w.cycle = -1ull;    // this cycle belongs to the warm-up
    w.cond = br.cond - before.cond; w.jalr = br.jalr - before.jalr; w.ret = br.ret - before.ret;
    w.cond_mis = br.cond_mis - before.cond_mis; w.jalr_mis = br.jalr_mis - before.jalr_mis; w.ret_mis = br.ret_mis - before.ret_mis;
    open_n = w;
  }
}
static void count_cycle() {
  ++want_n.cycle;
  const Tally got = counters();
  const uint64_t *p = (const uint64_t *)&got, *w = (const uint64_t *)&want_n, *z = (const uint64_t *)&zero_n, *o = (const uint64_t *)&open_n;
  for (int i = 0; i < 10; ++i) {
    const uint64_t n = p[i] - z[i];
    if (n != w[i] && !(window_open && i > 3 && n + o[i] == w[i]))
      fail("counter", mc::fmt("%s reported: %llu, observed: %llu", TALLY[i], (unsigned long long)n, (unsigned long long)w[i]));
  }
  const bool stop = window_open && (long)want_n.commit >= measure;
  if (stop != (cpu.ctx.exit_reason == ExitReason::SIMPOINT))
    fail("measured part", mc::fmt("the run %s after %llu of %ld measured instructions", stop ? "goes on" : "stops", (unsigned long long)(window_open ? want_n.commit : 0), measure));
  if (stop) {
    mc::trace();
    mc::visit(mc::hash_bytes(run.name.data(), run.name.size()));
    _exit(0);
  }
  const auto &q = cpu.ctx.perf;
  struct { const char *n; uint64_t whole, parts; } sums[] = {
      {"conditional branch mispredictions", q.cond_mispred_num, q.cond_dir_mispred + q.cond_addr_mispred},
      {"indirect jump mispredictions", q.jalr_mispred_num, q.jalr_dir_mispred + q.jalr_addr_mispred},
      {"return mispredictions", q.ret_mispred_num, q.ret_dir_mispred + q.ret_addr_mispred},
      {"issue slots", q.cycle * DECODE_WIDTH, q.slots_issued + q.slots_backend_bound + q.slots_frontend_bound},
      {"front-end slots", q.slots_frontend_bound, q.slots_frontend_recovery_mispred + q.slots_frontend_recovery_flush + q.slots_frontend_pure},
      {"front-end slots without recovery", q.slots_frontend_pure, q.slots_fetch_latency + q.slots_fetch_bandwidth},
      {"back-end slots", q.slots_backend_bound, q.slots_mem_bound_lsu + q.slots_core_bound_rob + q.slots_core_bound_iq},
      {"memory slots", q.slots_mem_bound_lsu, q.slots_mem_l1_bound + q.slots_mem_ext_bound},
  };
  if (window_open) {
    const uint64_t slots = q.slots_issued + q.slots_backend_bound + q.slots_frontend_bound;
    if (slots < q.cycle * DECODE_WIDTH || slots > (q.cycle + 1) * DECODE_WIDTH)
      fail("sum", mc::fmt("issue slots of %llu cycles add up to %llu", (unsigned long long)q.cycle, (unsigned long long)slots));
    return;
  }
  for (auto &s : sums)
    if (s.whole != s.parts) fail("sum", mc::fmt("%s: %llu, its parts add up to %llu", s.n, (unsigned long long)s.whole, (unsigned long long)s.parts));
}

// ------------------------------------------------------------ device traffic
struct Acc { bool wr; u32 addr, bytes, data; };
static std::vector<Acc> seen, want;
static std::string console, want_console;
struct Console : std::streambuf {
  int overflow(int ch) override { if (ch != EOF) console += char(ch); return ch; }
  std::streamsize xsputn(const char *p, std::streamsize n) override { console.append(p, n); return n; }
};
static void dev_start() {
  static Console c;
  std::cout.rdbuf(&c);
}
static void observe(const kit_env::Event &e) {
  if (!run.active || (e.addr >> 12) != (MMIO >> 12)) return;
  if (e.kind == kit_env::Event::READ_ACC && e.master == axi_interconnect::MASTER_EXTRA_R) seen.push_back({false, e.addr, e.bytes, 0});
  if (e.kind == kit_env::Event::WRITE_ACC && e.master == axi_interconnect::MASTER_EXTRA_W) seen.push_back({true, e.addr, e.bytes, e.data[0]});
}
static std::string list(const std::vector<Acc> &v) {
  std::string s;
  for (auto &a : v) s += mc::fmt(" %s%u@%08x", a.wr ? "w" : "r", a.bytes, a.addr) + (a.wr ? mc::fmt("=%x", a.data) : "");
  return s;
}
static void dev_retire() {
  if (g.e.interrupt || g.e.trap) return;
  if (g.e.load && (g.e.laddr >> 12) == (MMIO >> 12)) want.push_back({false, g.e.laddr, (u32)g.e.lbytes, 0});
  if (g.e.store && (g.e.sraw_addr >> 12) == (MMIO >> 12)) want.push_back({true, g.e.sraw_addr, (u32)g.e.sbytes, g.e.sraw_data});
  if (g.e.store && g.e.sraw_addr == UART_ADDR_BASE) want_console += char(g.e.sraw_data);
}
static bool same(const Acc &a, const Acc &b) {
  u32 m = a.bytes == 4 ? ~0u : (1u << 8 * a.bytes) - 1;
  return a.wr == b.wr && a.addr == b.addr && a.bytes == b.bytes && !((a.data ^ b.data) & m);
}
static void dev_end() {
  bool ok = seen.size() == want.size();
  for (size_t i = 0; ok && i < seen.size(); ++i) ok = same(seen[i], want[i]);
  if (!ok) fail("device accesses", "the device sees" + list(seen) + "; the program performs" + list(want));
}
static void dev_cycle() {
  if (console != want_console) {
    std::string a, b;
    for (char ch : console) a += mc::fmt(" %02x", ch & 255);
    for (char ch : want_console) b += mc::fmt(" %02x", ch & 255);
    fail("console", "the console shows" + a + "; the program has written" + b);
  }
  // the accesses the device sees are the ones the program performs, in order;
  // loads that have completed but not retired are ahead of the program
  size_t n = std::min(seen.size(), want.size());
  for (size_t i = 0; i < n; ++i)
    if (!same(seen[i], want[i])) fail("device accesses", "the device sees" + list(seen) + "; the program performs" + list(want));
}

// ------------------------------------------------------------ families
struct Fam {
  std::string name;
  const Els *els;
  int len;
  std::vector<Policy> pol;
  int budget = 0;
  u32 kinds = ~0u;
  int timers = 0;    // > 0: timer interrupt at every cycle below this
  int cfgs = 1;      // privilege set-ups of the interrupt families
  bool paged = false;
  std::vector<std::pair<int, int>> windows; // lengths of warm-up and measured part
  int cfg = 0;       // with two set-ups: the second one is the conditional-store handler
  std::function<Code(const std::vector<int> &)> shape;
  uint64_t n() const {
    uint64_t k = 1;
    for (int i = 0; i < len; ++i) k *= els->size();
    return k;
  }
};
static Policy P(int pred, int width, int gap = 0, int rlat = 0, int wlat = 0, int acc = 0, int stall = 0) {
  Policy p;
  p.pred = pred; p.width = width; p.gap = gap; p.rlat = rlat; p.wlat = wlat; p.acc = acc; p.stall = stall;
  return p;
}
static const std::vector<Policy> SOME = {P(0, 4), P(1, 4), P(2, 3, 1, 1), P(3, 2, 0, 3, 2), P(1, 1, 0, 0, 0, 1), P(0, 4, 0, 2, 1, 1, 3)};
static const std::vector<Policy> ONE = {P(0, 4)};

static void set_mode(Case &c, int cfg) {
  // 0 machine, 1 machine vectored, 2 supervisor not delegated, 3 supervisor delegated, 4 user delegated vectored
  c.csr[golden::MIE] = 0x80;
  c.csr[golden::MSTATUS] = 8 | (3u << 11);
  switch (cfg) {
  case 1: c.csr[golden::MTVEC] = (HANDLER + 0x200) | 1; break;
  case 2: c.priv = 1; break;
  case 3: c.priv = 1; c.csr[golden::MIDELEG] = 0x2AA | 0x80; c.csr[golden::MEDELEG] = 0xB1FF; c.csr[golden::MSTATUS] = 2; break;
  case 4: c.priv = 0; c.csr[golden::MIDELEG] = 0x2AA | 0x80; c.csr[golden::MEDELEG] = 0xB1FF; c.csr[golden::MSTATUS] = 0;
    c.csr[golden::STVEC] = (HANDLER + 0x240) | 1; break;
  case 5: { // machine; the interrupt handler stores conditionally itself
    const Code h = {amo(3, 29, 2, 10), csrrw(0, 0x304, 0), I_MRET};
    for (size_t i = 0; i < h.size(); ++i) c.data.push_back({u32(HANDLER + 24 + 4 * i), h[i]});
    break;
  }
  }
}

static void set_paged(Case &c) { // supervisor; memory and the device mapped one to one, one page read only
  const u32 root = 0x80020000u, table = 0x80021000u;
  c.priv = 1;
  c.csr[golden::SATP] = 1u << 31 | root >> 12;
  c.data.push_back({root + 4 * 0x200, 0x80000u << 10 | 0xCF});
  c.data.push_back({root + 4 * (MMIO >> 22), (MMIO >> 22 << 20) | 0xC7});
  c.data.push_back({root + 4 * 0x181, table >> 12 << 10 | 1});
  c.data.push_back({table, DATA >> 12 << 10 | 0xC3});
  for (u32 i = 1; i <= 24; ++i) c.data.push_back({table + 4 * i, ((0x80100000u >> 12) + (i * 5 & 31)) << 10 | 0xC7});
  c.x[15] = 0x60000000u; c.x[16] = 0x60400000u;
}
static bool is_priv(const El &e) { return e.n == "csr" || e.n == "sfence"; }

// ---- P50: the real comparison runs along
static bool device_addr(u32 a) { return a < 0x80000000u; }
static void diff_start() {
  dut_cpu = CPU_state{};
  for (int i = 0; i < 32; ++i) dut_cpu.gpr[i] = g.s.x[i];
  for (int i = 0; i < golden::NCSR; ++i) dut_cpu.csr[i] = g.s.csr[i];
  dut_cpu.pc = g.s.pc;
  for (u32 p : {HANDLER, CODE, DATA, ALIAS, ALIAS2}) real_difftest_sync_ram_range_from_dut(p & ~4095u, 4096);
  for (auto &d : run.c->data) real_difftest_sync_ram_range_from_dut(d.first, 4);
  real_difftest_sync_from_dut(g.s.priv);
}
static void diff_retire() {
  if (run.synced) {
    const bool why = g.e.interrupt || (g.e.load && device_addr(g.e.laddr)) || (g.e.store && device_addr(g.e.sraw_addr)) ||
                     ((g.e.inst & 0x7F) == 0x73 && (g.e.inst >> 20 == 0x344 || g.e.inst >> 20 == 0x144));
    if (!why) fail("unchecked instruction", mc::fmt("pc %08x inst %08x is not compared although it is no device access, interrupt or pending-bit access", g.e.pc, g.e.inst));
    real_difftest_sync_from_dut(run.sync_priv);
  } else {
    real_difftest_step(true);
  }
}

static std::vector<std::pair<int, int>> windows(int w, int m) {
  std::vector<std::pair<int, int>> v;
  for (int i = 1; i <= w; ++i) for (int j = 1; j <= m; ++j) v.push_back({i, j});
  return v;
}

int main(int argc, char **argv) {
  prop = argc > 1 ? argv[1] : "P10";
  thorough = argc > 2 && !strcmp(argv[2], "thorough");
  mc::init();
  setup();
  std::vector<Fam> F;
  auto seqshape = [](const Els *E) {
    return [E](const std::vector<int> &ix) { Code b; for (int i : ix) b = b + (*E)[i].c; return b; };
  };
  auto fam = [&](std::string n, const Els &e, int len, std::vector<Policy> p, int budget = 0, u32 kinds = ~0u) -> Fam & {
    Fam f;
    f.name = n; f.els = &e; f.len = len; f.pol = p; f.budget = budget; f.kinds = kinds; f.shape = seqshape(&e);
    F.push_back(f);
    return F.back();
  };
  auto pressure = [&](const Els &e, std::vector<Policy> p, int reps) {
    // long runs of one or two elements: every queue of the pipeline fills
    auto &f = fam("runs", e, 2, p);
    const Els *E = &e;
    f.shape = [E, reps](const std::vector<int> &ix) {
      Code b;
      for (int i = 0; i < reps; ++i) b = b + (*E)[ix[0]].c;
      for (int i = 0; i < reps; ++i) b = b + (*E)[ix[1]].c;
      return b;
    };
    auto &h = fam("alternating", e, 2, p);
    h.shape = [E, reps](const std::vector<int> &ix) {
      Code b;
      for (int i = 0; i < reps; ++i) b = b + (*E)[ix[0]].c + (*E)[ix[1]].c;
      return b;
    };
  };
  auto rounds = [&](const Els &e, std::vector<Policy> p, int n) -> Fam & {
    // a loop that lasts longer than any queue or pool has places: what is not given back is missed
    auto &f = fam("rounds", e, 2, p);
    const Els *E = &e;
    f.shape = [E, n](const std::vector<int> &ix) {
      Code b;
      for (int i = 0; i < 4; ++i) b = b + (*E)[ix[0]].c + (*E)[ix[1]].c;
      b = b + Code{addi(0, 0, 0), addi(0, 0, 0), addi(28, 28, -1)};
      return Code{addi(28, 0, n)} + b + Code{B(-4 * int(b.size()), 0, 28, 1)};
    };
    return f;
  };
  auto bursts = [&](std::vector<Policy> p, int n) -> Fam & {
    // something late, a branch that waits for it and a run of accesses behind
    // it, again and again: squashes meet full queues
    static const Els names = {{"0"}, {"1"}, {"2"}, {"3"}, {"4"}, {"5"}, {"6"}, {"7"}};
    static const Code late[8] = {{div_(2, 2, 1), sw(2, 0, 10)}, {div_(4, 1, 1), add(4, 4, 4), add(4, 4, 10), st_(1, 2, 0, 4)}, {amo(8, 2, 1, 10)}, {div_(2, 2, 1)},
                                 {lw(2, 0, 12)}, {div_(2, 2, 1), sw(1, 0, 10), sw(2, 4, 10)}, {lw(4, 0, 14), andi(4, 4, 4), add(4, 4, 10), lw(2, 0, 4)}, {div_(2, 2, 1), div_(5, 2, 1)}};
    static const Code branch[8] = {{B(8, 0, 2, 0)}, {B(8, 0, 2, 1)}, {B(8, 1, 2, 4)}, {B(8, 0, 2, 1), B(8, 0, 1, 1)},
                                   {auipc(5, 0), jalr(6, 5, 8)}, {B(8, 2, 1, 5)}, {addi(0, 0, 0)}, {B(8, 0, 2, 1), addi(0, 0, 0), B(8, 0, 2, 0)}};
    static const Code run[8] = {{lw(1, 0, 10)}, {ld_(1, 6, 0, 10)}, {ld_(4, 6, 3, 10)}, {sw(2, 0, 10)}, {sw(2, 0, 12)}, {lw(6, 0, 12)}, {lw(6, 0, 10), sw(6, 4, 10)}, {lw(6, 4, 10)}};
    auto &f = fam("bursts", names, 3, p);
    f.shape = [n](const std::vector<int> &ix) {
      Code b = late[ix[0]] + branch[ix[1]];
      for (int i = 0; i < 8; ++i) b = b + run[ix[2]];
      b = b + Code{addi(0, 0, 0), addi(0, 0, 0), addi(28, 28, -1)};
      return Code{addi(28, 0, n)} + b + Code{B(-4 * int(b.size()), 0, 28, 1)};
    };
    return f;
  };
  auto lines = [&](std::vector<Policy> p, int reps) {
    // more lines than there are places for misses, spread over the sets or all
    // in one, and more pages than the data TLB holds
    for (u32 stride : {64u, 256u * 64u, 4096u}) {
      const bool paged = stride == 4096;
      auto &f = fam(paged ? "pages" : stride == 64 ? "lines" : "setlines", moving(), 2, p);
      f.paged = paged;
      f.shape = [=](const std::vector<int> &ix) {
        const Code first = {lui(29, paged ? 0x60401000u : 0x80100000u), addi(31, 29, 0)};
        Code b = Code{stride < 2048 ? addi(30, 0, stride) : lui(30, stride)} + first;
        for (int i = 0; i < (paged ? 24 : reps); ++i) {
          b = b + moving()[ix[0]].c + moving()[ix[1]].c + Code{addi(0, 0, 0), addi(2, 2, 5), add(29, 29, 30)};
          if (i) b = b + Code{add(31, 31, 30)}; // one line behind
        }
        b = b + first;
        for (int i = 0; i < (paged ? 24 : reps); ++i) b = b + Code{lw(1, 0, 29), add(5, 5, 1), add(29, 29, 30)};
        return b;
      };
    }
  };
  if (prop == "P10") {
    fam("seq2", general(), 2, {P(0, 4)}, 1);
    fam("seq3", general(), 3, SOME);
    fam("seq1", general(), 1, {P(0, 4)}, 2);
    pressure(general(), SOME, 24);
    rounds(general(), {P(0, 4), P(1, 3)}, 24);
    lines({P(1, 4)}, 14);
    bursts({P(1, 4)}, 20);
    if (thorough) {
      fam("seq4", general(), 4, {P(0, 4), P(1, 4), P(3, 2, 0, 3, 2)});
      fam("seq3", general(), 3, {P(0, 4), P(1, 3, 0, 1, 1)}, 1);
      fam("seq2", general(), 2, {P(0, 4), P(1, 4)}, 2);
    }
  } else if (prop == "P26") {
    fam("mem2", memory(), 2, {P(0, 4)}, 1);
    fam("mem3", memory(), 3, SOME);
    fam("mem4", memory(), 4, {P(0, 4)});
    pressure(memory(), SOME, 20);
    rounds(memory(), {P(0, 4), P(1, 4)}, 24);
    lines(SOME, 14);
    bursts({P(0, 4), P(1, 4), P(3, 4, 0, 1, 1), P(2, 4)}, 20);
    fam("fault2", faulting(), 2, {P(0, 4), P(1, 4)}).paged = true;
    auto &i = fam("irq1", memory(), 1, {P(0, 4), P(1, 4)});
    i.timers = 40;
    auto &k = fam("irq2", memory(), 2, {P(0, 4)});
    k.timers = 30;
    if (thorough) {
      fam("mem4", memory(), 4, SOME);
      fam("mem3", memory(), 3, {P(0, 4), P(1, 4)}, 1);
    }
  } else if (prop == "P12") {
    pressure(general(), {P(0, 4), P(1, 4), P(2, 1, 0, 3, 2, 1, 2), P(3, 4, 0, 0, 2, 1, 2), P(0, 3, 2, 3, 0, 0, 3)}, 40);
    pressure(memory(), {P(0, 4), P(1, 4, 0, 3, 2, 1, 2), P(0, 4, 0, 3, 2, 1, 0)}, 40);
    pressure(device(), {P(0, 4), P(1, 4, 0, 3, 2, 1, 2), P(0, 4, 0, 3, 2, 1, 0)}, 20);
    rounds(general(), {P(1, 4), P(3, 2, 0, 3, 2, 1, 2)}, 48);
    rounds(memory(), {P(1, 4, 0, 1, 1)}, 48);
    rounds(device(), {P(1, 4)}, 24);
    lines({P(1, 4), P(0, 4, 0, 3, 2, 1, 2)}, 20);
    bursts({P(1, 4), P(1, 4, 0, 3, 2, 1, 2)}, 20);
    rounds(faulting(), {P(1, 4)}, 24).paged = true;
    fam("seq2", general(), 2, {P(1, 2, 0, 3, 2, 1, 2)}, 1, 1u << K_STALL | 1u << K_RACC | 1u << K_WACC | 1u << K_RLAT | 1u << K_RORD | 1u << K_WLAT);
    fam("seq3", general(), 3, {P(1, 4, 0, 3, 2, 1, 2)});
    if (thorough) fam("seq4", general(), 4, {P(1, 4, 0, 3, 2, 1, 2)});
  } else if (prop == "P11") {
    auto &a = fam("irq1", general(), 1, SOME);
    a.timers = 70; a.cfgs = 5;
    auto &b = fam("irq2", general(), 2, {P(0, 4)});
    b.timers = 50; b.cfgs = 5;
    auto &c = fam("irq1dev", general(), 1, {P(0, 4)}, 1);
    c.timers = 20;
    auto &r = fam("irqresv3", reservation(), 3, {P(0, 4)});
    r.timers = 60; r.cfgs = 2; r.cfg = 1;
    fam("trap3", general(), 3, {P(0, 4), P(1, 4, 0, 1, 1, 1, 2)});
    if (thorough) {
      auto &d = fam("irq3", general(), 3, {P(0, 4)});
      d.timers = 60;
      auto &e = fam("irq2", general(), 2, SOME);
      e.timers = 80; e.cfgs = 5;
    }
  } else if (prop == "P15") {
    fam("dev2", device(), 2, {P(0, 4), P(1, 4)}, 1);
    fam("dev3", device(), 3, SOME);
    pressure(device(), SOME, 10);
    auto &a = fam("dev2irq", device(), 2, {P(0, 4), P(1, 4, 0, 2, 2)});
    a.timers = 90;
    fam("fault2", faulting(), 2, {P(0, 4), P(1, 4)}, 1).paged = true;
    fam("fault3", faulting(), 3, SOME).paged = true;
    if (thorough) {
      fam("fault4", faulting(), 4, {P(0, 4), P(1, 4)}).paged = true;
      fam("dev4", device(), 4, {P(0, 4), P(1, 4)});
      auto &b = fam("dev3irq", device(), 3, {P(0, 4)});
      b.timers = 90;
    }
  }
  else if (prop == "P17") {
    fam("count3", counted(), 3, {P(0, 4), P(1, 4), P(3, 2, 0, 3, 2, 1, 2)});
    pressure(counted(), {P(0, 4), P(2, 4, 0, 1, 1)}, 12);
    auto &a = fam("irq1", counted(), 1, {P(0, 4)});
    a.timers = 50; a.cfgs = 5;
    fam("window2", counted(), 2, {P(0, 4), P(1, 4, 0, 1, 1)}).windows = windows(8, 5);
    if (thorough) {
      fam("count4", counted(), 4, {P(0, 4), P(1, 4)});
      auto &b = fam("irq2", counted(), 2, {P(0, 4)});
      b.timers = 60; b.cfgs = 5;
    }
  }
  else if (prop == "P50") {
    fam("sync3", synced_events(), 3, {P(0, 4), P(1, 4, 0, 2, 2)});
    fam("seq2", general(), 2, SOME);
    fam("mem2", memory(), 2, {P(0, 4)});
    fam("dev2", device(), 2, {P(0, 4)});
    fam("fault2", faulting(), 2, {P(0, 4)}).paged = true;
    auto &a = fam("irq1", general(), 1, {P(0, 4)});
    a.timers = 50; a.cfgs = 5;
    auto &b = fam("irqsync2", reservation(), 2, {P(0, 4)});
    b.timers = 50; b.cfgs = 2; b.cfg = 1;
    if (thorough) {
      fam("sync4", synced_events(), 4, {P(0, 4)});
      fam("seq3", general(), 3, {P(0, 4), P(1, 4)});
      fam("fault3", faulting(), 3, {P(0, 4)}).paged = true;
      auto &c = fam("irq2", general(), 2, {P(0, 4)});
      c.timers = 50; c.cfgs = 5;
    }
  }
  if (argc > 3 && !strcmp(argv[3], "lite")) { // second bus speed: without the costly families
    std::vector<Fam> k;
    for (auto &f : F) if (!f.budget && !(f.timers && f.len > 1)) k.push_back(f);
    F = k;
  }
  if (const char *e = getenv("FAM")) {
    std::vector<Fam> k;
    for (auto &f : F) if (f.name == e) k.push_back(f);
    F = k;
  }
  if (prop == "P15") {
    kit_env::observe = observe;
    on_start = dev_start;
    on_retire = dev_retire;
    on_cycle = dev_cycle;
    on_end = dev_end;
  }
  if (prop == "P17") {
    on_start = count_start;
    on_retire = count_retire;
    on_cycle = count_cycle;
  }
  if (prop == "P50") {
    real_init_difftest(4096);
    on_start = diff_start;
    on_retire = diff_retire;
  }
  uint64_t total = 0;
  std::vector<uint64_t> start;
  for (auto &f : F) { start.push_back(total); total += f.n() * f.pol.size() * f.cfgs; }
  const double t0 = mc::now();
  mc::parallel([&](int, int) {
    for (int64_t j; (j = mc::take(total)) >= 0;) {
      size_t fi = F.size() - 1;
      while (start[fi] > (uint64_t)j) --fi;
      const Fam &f = F[fi];
      uint64_t k = j - start[fi];
      const Policy &pol = f.pol[k % f.pol.size()]; k /= f.pol.size();
      const int cfg = f.cfg && k % f.cfgs ? 5 : k % f.cfgs; k /= f.cfgs;
      std::vector<int> ix;
      std::string nm = f.name + ":";
      bool priv = false;
      for (int i = 0; i < f.len; ++i, k /= f.els->size()) {
        ix.push_back(k % f.els->size());
        nm += (i ? "," : "") + (*f.els)[ix.back()].n;
        priv |= is_priv((*f.els)[ix.back()]);
      }
      // the reference has no illegal-instruction trap
      if (prop == "P50" && nm.find("ill") != std::string::npos) continue;
      Case c = base_case(f.shape(ix));
      c.pol = pol;
      c.budget = f.budget;
      c.kinds = f.kinds;
      if (f.name == "rounds" || f.name == "bursts") c.max_retired = 20000;
      if (f.paged) set_paged(c);
      if (f.timers) {
        set_mode(c, cfg);
        nm += mc::fmt(" mode%d", cfg);
        for (int t = 0; t < f.timers; ++t) {
          c.timer = t;
          execute(c, nm);
        }
      } else if (!f.windows.empty()) {
        for (auto &v : f.windows) {
          warm = v.first;
          measure = v.second;
          execute(c, nm + mc::fmt(" warm-up %ld measured %ld", warm, measure));
          warm = measure = -1;
        }
      } else {
        execute(c, nm);
      }
    }
  });
  if (getenv("MC_TIME")) fprintf(stderr, "%.1f s\n", mc::now() - t0);
  return mc::report();
}
