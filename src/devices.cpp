// P35: the serial port, interrupt controller, timer and DMA engine as seen by
// the core (PeripheralModel), the request port in front of them
// (PeripheralAxi), and the same devices inside the reference interpreter.
// All sequences of register accesses up to a depth, each from power-on, are
// compared access by access with a register-level model; everything readable
// is read back after every access.
#include "Csr.h"
#include "PeripheralAxi.h"
#include "PeripheralModel.h"
#include "PhysMemory.h"
#include "RISCV.h"
#include "mc.h"
#include "ref.h"
#include <iostream>
#include <sys/mman.h>
#include <vector>

long long sim_time = 0;
void push_oracle_timer(uint32_t) {}
using mc::fmt;
static bool thorough = false;

// --------------------------------------------------------- character output
static int out_fd = -1;
static off_t out_pos = 0;
static void out_open() {
  out_fd = memfd_create("uart", 0);
  dup2(out_fd, 1);
  out_pos = 0;
}
static std::string out_take() {
  std::cout.flush();
  fflush(stdout);
  off_t e = lseek(1, 0, SEEK_CUR);
  if (e == out_pos) return "";
  std::string s(e - out_pos, 0);
  if (pread(out_fd, &s[0], s.size(), out_pos) < 0) s.clear();
  out_pos = e;
  if (e > (1 << 20)) { lseek(1, 0, SEEK_SET); out_pos = 0; }
  return s;
}

// ------------------------------------------------------------------- model
constexpr uint32_t UART = 0x10000000u, PLIC = 0x0c000000u, CLAIM = 0x0c201004u, TIM = 0x1fd0e000u, DMA = 0x1fd0f000u;
constexpr uint32_t RAM = 0x80000000u, WIN = 0x80004000u, TAIL = 0xbfffff80u; // two RAM windows of 128 bytes
constexpr int WSZ = 128;
struct Model {
  std::vector<std::pair<uint32_t, uint32_t>> w; // non-zero words of the plain registers
  uint64_t off = 0, cmp = 0;
  uint32_t src = 0, dst = 0, len = 0, ctrl = 0, stat = 0;
  bool uirq = false, dirq = false;
  bool has_dma = true;
  uint8_t ram[2][WSZ] = {};
  std::string out;
  bool copied = false;
  uint32_t cdst = 0, clen = 0;

  uint32_t rd(uint32_t a) const {
    a &= ~3u;
    for (auto &p : w) if (p.first == a) return p.second;
    return 0;
  }
  void wr(uint32_t a, uint32_t v) {
    a &= ~3u;
    for (auto &p : w) if (p.first == a) { p.second = v; return; }
    w.push_back({a, v});
  }
  uint64_t now() const { return uint64_t(sim_time) + off; }
  bool timer() const { return now() >= cmp; }
  bool ext() const { return uirq || dirq; }
  void claim() { wr(CLAIM, dirq ? 0xb : uirq ? 0xa : 0); }
  uint8_t *at(uint32_t a) { return a >= WIN && a < WIN + WSZ ? &ram[0][a - WIN] : a >= TAIL && a - TAIL < WSZ ? &ram[1][a - TAIL] : nullptr; }
  void dma() {
    uint64_t n = len;
    auto in = [&](uint32_t a) { return a >= RAM && a + n <= 0xc0000000ull; };
    if (!n || !in(src) || !in(dst)) { stat = 4; return; }
    std::vector<uint8_t> t(n);
    for (uint32_t i = 0; i < n; ++i) t[i] = *at(src + i);
    for (uint32_t i = 0; i < n; ++i) *at(dst + i) = t[i];
    stat = 2;
    copied = true; cdst = dst; clen = len;
    if (ctrl & 2) { dirq = true; claim(); }
  }
  void store(uint32_t a, uint32_t v, int f3) {
    uint64_t t = now();
    if (a == TIM) { off = ((t & ~0xffffffffull) | v) - sim_time; return; }
    if (a == TIM + 4) { off = ((uint64_t(v) << 32) | uint32_t(t)) - sim_time; return; }
    if (a == TIM + 8) { cmp = (cmp & ~0xffffffffull) | v; return; }
    if (a == TIM + 12) { cmp = (uint64_t(v) << 32) | uint32_t(cmp); return; }
    if (has_dma) {
      if (a == DMA) { src = v; return; }
      if (a == DMA + 4) { dst = v; return; }
      if (a == DMA + 8) { len = v; return; }
      if (a == DMA + 12) { ctrl = v & 2; if (v & 1) dma(); return; }
      if (a == DMA + 16) { stat &= ~v; return; }
    }
    uint32_t m = (f3 == 0 ? 0xffu : f3 == 1 ? 0xffffu : 0xffffffffu) << (8 * (a & 3));
    wr(a, (rd(a) & ~m) | ((v << (8 * (a & 3))) & m));
    if (a == UART) { out += char(v); wr(UART, rd(UART) & ~0xffu); }
    if (a == UART + 1) {
      if ((v & 0xff) == 7) { wr(UART, rd(UART) & ~0xf0000u); uirq = true; claim(); }
      if ((v & 0xff) == 5) wr(UART, (rd(UART) & ~0xf0000u) | 0x30000u);
    }
    if (a == CLAIM) {
      if ((v & 0xff) == 0xa) uirq = false;
      if (has_dma && (v & 0xff) == 0xb) dirq = false;
      claim();
    }
  }
  uint32_t load(uint32_t a, int f3) const {
    if (a == TIM) return uint32_t(now());
    if (a == TIM + 4) return uint32_t(now() >> 32);
    if (a == TIM + 8) return uint32_t(cmp);
    if (a == TIM + 12) return uint32_t(cmp >> 32);
    if (has_dma) {
      if (a == DMA) return src;
      if (a == DMA + 4) return dst;
      if (a == DMA + 8) return len;
      if (a == DMA + 12) return ctrl;
      if (a == DMA + 16) return stat;
    }
    uint32_t d = rd(a) >> (8 * (a & 3));
    switch (f3) {
    case 0: return uint32_t(int32_t(int8_t(d)));
    case 1: return uint32_t(int32_t(int16_t(d)));
    case 4: return d & 0xff;
    case 5: return d & 0xffff;
    default: return d;
    }
  }
};

static uint64_t key(const Model &m, uint64_t h) {
  for (auto &p : m.w) if (p.second) h += mc::mix(p.first, p.second);
  for (uint64_t v : {m.off, m.cmp, uint64_t(sim_time), uint64_t(m.src), uint64_t(m.dst), uint64_t(m.len), uint64_t(m.ctrl | m.stat << 8 | m.uirq << 16 | m.dirq << 17)}) h = mc::mix(h, v);
  return mc::hash_bytes(m.ram, sizeof m.ram, h);
}
struct Op { uint32_t a, v; int f3; long long dt; }; // dt: time passes instead of a store
static std::string op_str(const Op &o) {
  if (o.dt) return fmt("time+%lld", o.dt);
  return fmt("%s [%08x]=%x", o.f3 == 0 ? "sb" : o.f3 == 1 ? "sh" : "sw", o.a, o.v);
}
static std::string hist_str(const std::vector<Op> &ops, const int *ix, int n) {
  std::string s;
  for (int i = 0; i < n; ++i) s += (i ? "; " : "") + op_str(ops[ix[i]]);
  return s;
}
struct Probe { uint32_t a; int f3; };
static std::vector<Probe> probes(bool dma) {
  std::vector<Probe> p;
  for (uint32_t b : {UART, UART + 4, CLAIM, CLAIM - 4, PLIC + 0x28, PLIC + 0x2000}) {
    for (int o = 0; o < 4; ++o) { p.push_back({b + o, 0}); p.push_back({b + o, 4}); }
    for (int o = 0; o < 4; o += 2) { p.push_back({b + o, 1}); p.push_back({b + o, 5}); }
    p.push_back({b, 2});
  }
  for (uint32_t a : {UART + 8, UART + 0xfc, PLIC, PLIC + 0x2c, CLAIM + 4, PLIC + 0x20fffcu, TIM, TIM + 4, TIM + 8, TIM + 12, TIM + 16, TIM + 0xfcu})
    p.push_back({a, 2});
  if (dma) for (uint32_t o = 0; o <= 20; o += 4) p.push_back({DMA + o, 2});
  return p;
}
static const uint32_t plain_words[] = {UART, UART + 4, UART + 8, UART + 0xfc, CLAIM - 4, CLAIM, CLAIM + 4, PLIC, PLIC + 0x28, PLIC + 0x2c, PLIC + 0x2000, PLIC + 0x20fffcu};

static std::vector<Op> alphabet(int fam) {
  std::vector<Op> o;
  auto sb = [&](uint32_t a, uint32_t v) { o.push_back({a, v, 0, 0}); };
  auto sh = [&](uint32_t a, uint32_t v) { o.push_back({a, v, 1, 0}); };
  auto sw = [&](uint32_t a, uint32_t v) { o.push_back({a, v, 2, 0}); };
  auto tm = [&](long long t) { o.push_back({0, 0, 0, t}); };
  if (fam == 0) { // the whole register file
    sb(UART, 'A'); sb(UART, 0x8a); sw(UART, 0x81f27342); sh(UART, 0xf043);
    sb(UART + 1, 7); sb(UART + 1, 5); sb(UART + 1, 0xff); sb(UART + 1, 0x17); sb(UART + 2, 0xff); sb(UART + 3, 0x87); sh(UART + 2, 0x8765);
    sw(UART + 4, 0x6000); sb(UART + 5, 7); sb(UART + 4, 0); sw(UART + 0xfc, 0xdeadbeef);
    sw(CLAIM, 0xa); sw(CLAIM, 0xb); sw(CLAIM, 0); sb(CLAIM, 0xa); sw(CLAIM - 4, 0x87654321);
    sw(PLIC + 0x28, 7); sb(PLIC + 0x29, 0x80); sw(PLIC + 0x2000, 0xc00); sw(PLIC + 0x20fffcu, 1);
    sw(TIM, 0xfffffff0u); sw(TIM + 4, 1); sw(TIM + 8, 5); sw(TIM + 12, 1); sw(TIM + 12, 0);
    sw(DMA, WIN); sw(DMA + 4, WIN + 64); sw(DMA + 8, 8); sw(DMA + 12, 3); sw(DMA + 16, 7);
    tm(1); tm(16);
  } else if (fam == 1) { // interrupt sources and the claim register
    sb(UART + 1, 7); sb(UART + 1, 5); sb(UART, 7); sw(CLAIM, 0xa); sw(CLAIM, 0xb); sw(CLAIM, 0xc); sb(CLAIM, 0xa); sw(DMA + 12, 3); sw(DMA + 12, 1); sw(DMA + 12, 2);
    sw(DMA + 8, 1); sw(DMA + 16, 2);
  } else if (fam == 2) { // timer
    for (uint32_t v : {0u, 1u, 0xffffffffu}) for (int r = 0; r < 4; ++r) sw(TIM + 4 * r, v);
    tm(1); tm(2); tm(1ll << 32);
  } else if (fam == 3) { // serial port: every command byte
    for (int v = 0; v < 256; ++v) sb(UART + 1, v);
    for (int v = 0; v < 256; ++v) sb(UART, v);
    sb(UART + 2, 0xff); sw(UART, 0xffffffffu);
  } else { // DMA programming
    for (uint32_t a : {WIN, WIN + 3, TAIL + WSZ - 8, 0x7ffffffcu, 0x1000u}) sw(DMA, a);
    for (uint32_t a : {WIN + 5, WIN + 64, TAIL + WSZ - 8, 0xc0000000u, 0u}) sw(DMA + 4, a);
    for (uint32_t n : {0u, 1u, 8u, 9u, 0xffffffffu}) sw(DMA + 8, n);
    sw(DMA + 12, 1); sw(DMA + 12, 3); sw(DMA + 16, 2); sw(CLAIM, 0xb);
  }
  return o;
}

// --------------------------------------------------------- the device model
static uint32_t hook_a, hook_n;
static bool hooked;
static void ram_hook(uint32_t a, size_t n) { hooked = true; hook_a = a; hook_n = uint32_t(n); }
static uint8_t *real_ram(uint32_t a) { return reinterpret_cast<uint8_t *>(pmem_ram_ptr()) + (a - RAM); }

static bool device_history(const std::vector<Op> &ops, const int *ix, int n, const std::vector<Probe> &pr, const char *pre) {
  CsrInterruptInjectIO inj{};
  PeripheralModel p;
  Model m;
  sim_time = 100;
  for (uint32_t a : plain_words) pmem_write(a, 0);
  for (int i = 0; i < WSZ; ++i) {
    m.ram[0][i] = *real_ram(WIN + i) = uint8_t(i * 37 + 11);
    m.ram[1][i] = *real_ram(TAIL + i) = uint8_t(i * 29 + 5);
  }
  p.bind(&inj, pmem_ram_ptr());
  p.set_ram_sync_hook(ram_hook);
  auto bad = [&](int at, const std::string &w) {
    mc::violation("P35:" + std::string(pre) + ":" + w.substr(0, w.find('=')), fmt("%s [%s]", pre, hist_str(ops, ix, at + 1).c_str()),
                  fmt("%s after %s", w.c_str(), hist_str(ops, ix, at + 1).c_str()));
    return false;
  };
  for (int i = 0; i < n; ++i) {
    const Op &o = ops[ix[i]];
    hooked = false;
    m.copied = false;
    m.out.clear();
    if (o.dt) sim_time += o.dt;
    else { p.on_commit_store(o.a, o.v, uint8_t(o.f3)); m.store(o.a, o.v, o.f3); }
    p.tick();
    mc::trans();
    std::string got = out_take();
    if (got != m.out) return bad(i, fmt("serial output=%zu byte(s) first %02x, expected %zu first %02x", got.size(), got.empty() ? 0 : uint8_t(got[0]), m.out.size(), m.out.empty() ? 0 : uint8_t(m.out[0])));
    for (auto &q : pr) {
      uint32_t g = p.read_load(q.a, uint8_t(q.f3)), w = m.load(q.a, q.f3);
      if (g != w) return bad(i, fmt("read %08x funct3 %d = %08x expected %08x", q.a, q.f3, g, w));
    }
    if (bool(inj.timer_irq_pending) != m.timer() || !inj.timer_irq_pending_valid || p.timer_irq_level() != m.timer()) return bad(i, fmt("timer interrupt line = %d expected %d", int(inj.timer_irq_pending), m.timer()));
    if (bool(inj.external_irq_pending) != m.ext() || !inj.external_irq_pending_valid) return bad(i, fmt("external interrupt line = %d expected %d", int(inj.external_irq_pending), m.ext()));
    if (memcmp(real_ram(WIN), m.ram[0], WSZ) || memcmp(real_ram(TAIL), m.ram[1], WSZ)) return bad(i, "RAM around the DMA ranges = differs from the expected copy");
    if (m.copied && (!hooked || hook_a > m.cdst || hook_a + hook_n < m.cdst + m.clen)) return bad(i, "DMA = destination range not announced to the checker");
    if (pmem_read(UART + 0x100) || pmem_read(PLIC + 0x210000u) || pmem_read(0) || pmem_read(UART - 4)) return bad(i, "words outside the windows = changed");
    mc::visit(key(m, 1));
  }
  return true;
}

// -------------------------------------------------------- the request port
struct Req { bool wen; uint32_t addr, data; int f3; uint32_t reply; };
struct Timing { int gap, acc, rsp; };
static bool port_history(const std::vector<Req> &rq, const int *rx, const Timing *tm, int n) {
  static PeripheralReqIO req;
  static PeripheralRespIO resp;
  CsrInterruptInjectIO inj{};
  PeripheralModel dev;
  Model m;
  PeripheralAxi x;
  sim_time = 100;
  for (uint32_t a : plain_words) pmem_write(a, 0);
  pmem_write(UART + 4, 0x86f57381u);
  m.wr(UART + 4, 0x86f57381u);
  dev.bind(&inj, pmem_ram_ptr());
  x.peripheral_req = &req;
  x.peripheral_resp = &resp;
  x.peripheral_model = &dev;
  req = {};
  resp = {};
  x.init();
  auto text = [&](int k) {
    std::string s;
    for (int i = 0; i <= k && i < n; ++i) {
      const Req &r = rq[rx[i]];
      s += fmt("%s%s %08x f3=%d data=%x (start+%d accept+%d answer+%d)", i ? "; " : "", r.wen ? "store" : "load", r.addr, r.f3, r.data, tm[i].gap, tm[i].acc, tm[i].rsp);
    }
    return s;
  };
  int k = 0, gap = tm[0].gap, acc = 0, rsp = 0;
  bool live = false, offered = false, accepted = false;
  for (int cyc = 0; k < n; ++cyc) {
    if (cyc > 60) { mc::violation("P35:port:no answer", text(k), "device request never answered: " + text(k)); return false; }
    x.comb_outputs();
    mc::trans();
    auto bad = [&](const std::string &w) { mc::violation("P35:port:" + w.substr(0, w.find('=')), text(k), fmt("%s: %s", w.c_str(), text(k).c_str())); return false; };
    if (resp.is_mmio) {
      if (!live) return bad("answer = without a request");
      const Req &r = rq[rx[k]];
      bool own = PeripheralModel::is_modeled_mmio(r.addr);
      if (!own && !(accepted && rsp < 0)) return bad("answer = before the bus answered");
      uint32_t want = own ? m.load(r.addr, r.f3) : r.f3 == 0 ? uint32_t(int32_t(int8_t(r.reply))) : r.f3 == 1 ? uint32_t(int32_t(int16_t(r.reply))) : r.f3 == 4 ? r.reply & 0xff : r.f3 == 5 ? r.reply & 0xffff : r.reply;
      if (!r.wen && resp.mmio_rdata != want) return bad(fmt("load data = %08x expected %08x", uint32_t(resp.mmio_rdata), want));
      live = false;
      ++k;
      if (k < n) gap = tm[k].gap;
    }
    if (k >= n) break;
    if (!live && gap == 0) { live = true; offered = accepted = false; acc = tm[k].acc; rsp = tm[k].rsp; gap = -1; }
    else if (gap > 0) --gap;
    const Req &r = rq[rx[k]];
    bool own = PeripheralModel::is_modeled_mmio(r.addr);
    req = {};
    if (live && resp.ready && !accepted) {
      req.is_mmio = true;
      req.wen = r.wen;
      req.mmio_addr = r.addr;
      req.mmio_wdata = r.data;
      req.mmio_fun3 = uint8_t(r.f3);
    }
    x.in = {};
    const bool rv = x.out.read.req_valid, wv = x.out.write.req_valid;
    if (rv || wv) {
      if (!live || own || accepted || (rv && wv) || wv != r.wen) return bad("bus request = not asked for");
      int bytes = (r.f3 & 3) == 0 ? 1 : (r.f3 & 3) == 1 ? 2 : 4;
      uint32_t msk = bytes == 4 ? ~0u : (1u << (8 * bytes)) - 1;
      if (rv && (x.out.read.req_addr != r.addr || x.out.read.req_total_size != bytes - 1)) return bad("bus read = wrong address or size");
      if (wv && (x.out.write.req_addr != r.addr || x.out.write.req_total_size != bytes - 1 || x.out.write.req_wstrb != (1ull << bytes) - 1 || (x.out.write.req_wdata[0] & msk) != (r.data & msk))) return bad("bus write = wrong address, size, strobe or data");
      offered = true;
      if (acc-- == 0) { (rv ? x.in.read.req_accepted : x.in.write.req_accepted) = true; accepted = true; }
      else (rv ? x.in.read.req_ready : x.in.write.req_ready) = false;
    } else if (live && accepted && rsp >= 0) {
      bool rdy = r.wen ? x.out.write.resp_ready : x.out.read.resp_ready;
      if (rsp == 0 || rdy) {
        if (rsp > 0) --rsp;
        else {
          (r.wen ? x.in.write.resp_valid : x.in.read.resp_valid) = true;
          x.in.read.resp_data[0] = r.reply;
          for (int i = 1; i < DCACHE_WORD_NUM; ++i) x.in.read.resp_data[i] = 0x5a5a0000u + i;
          if (rdy) rsp = -1;
        }
      }
    }
    (void)offered;
    x.comb_inputs();
    x.seq();
  }
  return true;
}

// ------------------------------------------------- devices of the reference
static RefCpu cpu;
static uint32_t *ref_ram;
static const uint32_t CODE = 0x80010000u;
static void ref_exec(uint32_t inst, uint32_t x5, uint32_t x6) {
  cpu.state.gpr[5] = x5;
  cpu.state.gpr[6] = x6;
  cpu.state.pc = CODE;
  ref_ram[(CODE - RAM) >> 2] = inst;
  cpu.exec();
}
static void ref_boot() {
  cpu.init(0);
  free(cpu.memory);
  ref_ram = (uint32_t *)mmap(nullptr, 1ull << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cpu.memory = ref_ram;
  cpu.ref_only = true;
  cpu.uart_print = true;
  cpu.privilege = 3;
}
static bool ref_history(const std::vector<Op> &ops, const int *ix, int n, const std::vector<Probe> &pr, const char *pre) {
  Model m;
  m.has_dma = false;
  sim_time = 100;
  cpu.io_words.clear();
  for (int i = 0; i < 32; ++i) cpu.state.gpr[i] = 0;
  for (int i = 0; i < 21; ++i) cpu.state.csr[i] = 0;
  ref_exec(0x0062a023, TIM, 100);
  ref_exec(0x0062a023, TIM + 4, 0);
  ref_exec(0x0062a023, TIM + 8, 0);
  ref_exec(0x0062a023, TIM + 12, 0);
  out_take();
  auto bad = [&](int at, const std::string &w) {
    mc::violation("P35:" + std::string(pre) + ":" + w.substr(0, w.find('=')), fmt("%s [%s]", pre, hist_str(ops, ix, at + 1).c_str()),
                  fmt("reference interpreter: %s after %s", w.c_str(), hist_str(ops, ix, at + 1).c_str()));
    return false;
  };
  for (int i = 0; i < n; ++i) {
    const Op &o = ops[ix[i]];
    m.out.clear();
    if (o.dt) sim_time += o.dt;
    else {
      ref_exec(0x00628023u | uint32_t(o.f3) << 12, o.a, o.v);
      m.store(o.a, o.v, o.f3);
    }
    mc::trans();
    std::string got = out_take();
    if (got != m.out) return bad(i, fmt("serial output=%zu byte(s) first %02x, expected %zu first %02x", got.size(), got.empty() ? 0 : uint8_t(got[0]), m.out.size(), m.out.empty() ? 0 : uint8_t(m.out[0])));
    for (auto &q : pr) {
      ref_exec(0x00028383u | uint32_t(q.f3) << 12, q.a, 0); // l? x7,0(x5)
      uint32_t g = cpu.state.gpr[7], w = m.load(q.a, q.f3);
      if (g != w) return bad(i, fmt("read %08x funct3 %d = %08x expected %08x", q.a, q.f3, g, w));
    }
    if (!out_take().empty()) return bad(i, "serial output=on a load");
    ref_exec(0x344023f3, 0, 0); // csrr x7,mip
    uint32_t want = (m.timer() ? 0x80u : 0) | (m.ext() ? 0x800u : 0);
    if ((cpu.state.gpr[7] & 0xa80u & ~0x200u) != want) return bad(i, fmt("mip = %08x expected %08x", cpu.state.gpr[7], want));
    mc::visit(key(m, 2));
  }
  return true;
}

// ------------------------- every word of every window keeps its own content
static void sweep(bool ref) {
  struct { uint32_t base, size; } win[] = {{UART, 0x100}, {PLIC, 0x210000}, {TIM, 0x100}, {DMA, 0x100}};
  CsrInterruptInjectIO inj{};
  PeripheralModel p;
  sim_time = 100;
  p.bind(&inj, pmem_ram_ptr());
  if (ref) cpu.io_words.clear();
  auto special = [&](uint32_t a) { return a == UART || a == CLAIM || (a >= TIM && a < TIM + 16) || (!ref && a >= DMA && a < DMA + 20); };
  auto st = [&](uint32_t a, uint32_t v, int f3) { if (ref) ref_exec(0x00628023u | uint32_t(f3) << 12, a, v); else p.on_commit_store(a, v, uint8_t(f3)); };
  auto ld = [&](uint32_t a, int f3) { if (ref) { ref_exec(0x00028383u | uint32_t(f3) << 12, a, 0); return cpu.state.gpr[7]; } return p.read_load(a, uint8_t(f3)); };
  auto val = [](uint32_t a, int r) { uint32_t h = (a ^ 0x5bd1e995u * r) * 0x9E3779B1u; return h ^ h >> 15; };
  for (int r = 0; r < 2; ++r) {
    for (auto &w : win) for (uint32_t a = w.base; a < w.base + w.size; a += 4) if (!special(a)) {
      uint32_t v = val(a, r);
      // word, then halves, then bytes in descending order: each must keep its neighbours
      if (r == 0) st(a, v, 2);
      else { st(a + 2, v >> 16, 1); st(a + 1, v >> 8, 0); st(a, v, 0); }
      mc::trans();
    }
    for (auto &w : win) for (uint32_t a = w.base; a < w.base + w.size; a += 4) if (!special(a)) {
      uint32_t g = ld(a, 2);
      if (g != val(a, r)) {
        mc::violation(fmt("P35:%s sweep", ref ? "reference" : "devices"), fmt("%08x", a), fmt("word %08x reads %08x after every word of the device windows was written once, expected %08x", a, g, val(a, r)));
        return;
      }
      mc::trans();
    }
    if (!out_take().empty()) mc::violation("P35:sweep output", "sweep", "serial output without a write to the data register");
    mc::beat();
  }
  if (ref) cpu.io_words = {};
  else for (auto &w : win) for (uint32_t a = w.base; a < w.base + w.size; a += 4) pmem_write(a, 0);
}

// --------------------------------------- DMA: every small layout, and long ones
static const uint32_t BIG = 0x80200000u, BIGN = 0x60000u;
static void dma_grid(int part, int parts) {
  CsrInterruptInjectIO inj{};
  PeripheralModel p;
  sim_time = 100;
  p.bind(&inj, pmem_ram_ptr());
  p.set_ram_sync_hook(ram_hook);
  std::vector<uint8_t> m(BIGN);
  for (uint32_t i = 0; i < BIGN; ++i) m[i] = uint8_t(mc::mix(i, 77) >> 11);
  memcpy(real_ram(BIG), m.data(), BIGN);
  std::vector<uint32_t> lens;
  for (uint32_t n = 1; n <= (thorough ? 300u : 140u); ++n) lens.push_back(n);
  for (uint32_t b : {256u, 512u, 1024u, 4096u, 65536u}) for (int k = -1; k <= 1; ++k) lens.push_back(b + k);
  int n = 0;
  for (uint32_t len : lens) {
    std::vector<int64_t> ds;
    for (int64_t d : {0, 1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 31, 32, 33, 63, 64, 65, 100, 128, 255, 256, 4095, 4096, 65535}) { ds.push_back(d); ds.push_back(-d); }
    for (int64_t d : {int64_t(len) - 1, int64_t(len), int64_t(len) + 1}) { ds.push_back(d); ds.push_back(-d); }
    for (int64_t d : ds) for (uint32_t al = 0; al < 4; ++al) {
      if (n++ % parts != part) continue;
      uint32_t src = BIG + 0x30000 - len / 2 + al, dst = uint32_t(src + d);
      uint32_t so = src - BIG, dn = dst - BIG;
      hooked = false;
      p.on_commit_store(DMA, src, 2);
      p.on_commit_store(DMA + 4, dst, 2);
      p.on_commit_store(DMA + 8, len, 2);
      p.on_commit_store(DMA + 12, 1, 2);
      memmove(&m[dn], &m[so], len);
      mc::trans();
      uint32_t lo = std::min(so, dn) - 16, hi = std::max(so, dn) + len + 16;
      if (memcmp(real_ram(BIG + lo), &m[lo], hi - lo) || p.read_load(DMA + 16, 2) != 2 || !hooked || hook_a > dst || hook_a + hook_n < dst + len) {
        mc::violation("P35:dma copy", fmt("src %08x dst %08x len %u", src, dst, len), fmt("DMA of %u bytes from %08x to %08x: memory, status or announced range differ from an exact copy", len, src, dst));
        return;
      }
      mc::trace();
    }
    mc::beat();
    if (memcmp(real_ram(BIG), m.data(), BIGN)) { mc::violation("P35:dma elsewhere", fmt("len %u", len), fmt("a DMA of %u bytes changed memory elsewhere", len)); return; }
  }
}

struct Job { int kind, fam, depth, first; };

int main(int argc, char **argv) {
  std::string tier = argc > 2 ? argv[2] : "quick";
  thorough = tier == "thorough";
  mc::init(1ull << 30);
  if (!pmem_init()) return 2;
  ref_boot();
  std::vector<Job> jobs;
  auto add = [&](int kind, int fam, int depth) {
    int n = int(alphabet(fam).size());
    for (int i = 0; i < n; ++i) jobs.push_back({kind, fam, depth, i});
  };
  jobs.push_back({3, 0, 0, 0});
  jobs.push_back({3, 1, 0, 0});
  for (int i = 0; i < 8; ++i) jobs.push_back({4, i, 0, 0});
  add(0, 0, thorough ? 5 : 4);
  add(0, 1, thorough ? 7 : 6);
  add(0, 2, thorough ? 6 : 5);
  add(0, 4, thorough ? 6 : 5);
  add(2, 0, thorough ? 4 : 3);
  add(2, 1, thorough ? 6 : 5);
  add(2, 2, thorough ? 5 : 4);
  add(0, 3, 2);
  add(2, 3, 2);
  // request port: register accesses inside the modelled windows and plain bus accesses
  std::vector<Req> rq;
  for (int f3 : {0, 1, 2, 4, 5}) { rq.push_back({false, UART + 4u + (f3 == 0 || f3 == 4 ? 3u : f3 == 1 || f3 == 5 ? 2u : 0u), 0, f3, 0}); rq.push_back({false, 0x1fb00004u, 0, f3, 0x9a8bfcedu}); }
  rq.push_back({false, 0x1fb00003u, 0, 4, 0x12345678u});
  for (int f3 : {0, 1, 2}) rq.push_back({true, 0x1fb00008u, 0xcafe8182u, f3, 0});
  rq.push_back({true, UART + 8, 0x55, 2, 0});
  rq.push_back({false, CLAIM, 0, 2, 0});
  rq.push_back({false, 0x0c210000u, 0, 2, 0x77777777u}); // first word behind the interrupt controller
  const int NR = int(rq.size());
  std::vector<Timing> tms;
  for (int g = 0; g < 2; ++g) for (int a = 0; a < 3; ++a) for (int r = 0; r < 3; ++r) tms.push_back({g, a, r});
  const int NT = int(tms.size());
  for (int i = 0; i < NR * NT; ++i) jobs.push_back({1, 0, thorough ? 3 : 2, i});

  mc::parallel([&](int, int) {
    out_open();
    std::vector<std::vector<Op>> al;
    for (int f = 0; f < 5; ++f) al.push_back(alphabet(f));
    const auto pd = probes(true), prf = probes(false);
    for (int64_t j; (j = mc::take(jobs.size())) >= 0;) {
      const Job &b = jobs[j];
      mc::current("kind %d family %d first %d", b.kind, b.fam, b.first);
      if (b.kind == 4) { dma_grid(b.fam, 8); continue; }
      if (b.kind == 3) { sweep(b.fam); mc::trace(); continue; }
      if (b.kind == 1) {
        int rx[3];
        Timing tm[3];
        rx[0] = b.first / NT;
        tm[0] = tms[b.first % NT];
        for (int i = 0; i < NR * NT; ++i) {
          rx[1] = i / NT;
          tm[1] = tms[i % NT];
          if (b.depth == 2) { port_history(rq, rx, tm, 2); mc::trace(); continue; }
          for (int k = 0; k < NR; ++k) { rx[2] = k; tm[2] = tms[0]; port_history(rq, rx, tm, 3); mc::trace(); }
        }
        continue;
      }
      const auto &ops = al[b.fam];
      int ix[8] = {b.first};
      bool go = true;
      while (go) {
        if (b.kind == 0) device_history(ops, ix, b.depth, pd, fmt("devices family %d", b.fam).c_str());
        else ref_history(ops, ix, b.depth, prf, fmt("reference family %d", b.fam).c_str());
        mc::trace();
        if (mc::W().nviol > 20) break;
        int k = b.depth - 1;
        while (k > 0 && ++ix[k] == int(ops.size())) ix[k--] = 0;
        go = k > 0;
      }
    }
  });
  return mc::report({{"bounds", fmt("register accesses: all sequences of %d over %zu accesses, %d over the interrupt sources, %d over the timer, %d over the DMA registers; reference: %d/%d/%d; DMA: every length to %d and around powers of two with 54 overlaps and 4 alignments; request port: all pairs of %d requests with start, accept and answer delays",
                                    thorough ? 5 : 4, alphabet(0).size(), thorough ? 7 : 6, thorough ? 6 : 5, thorough ? 6 : 5, thorough ? 4 : 3, thorough ? 6 : 5, thorough ? 5 : 4, thorough ? 300 : 140, NR)}});
}
