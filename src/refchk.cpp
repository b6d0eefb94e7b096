// Exhaustive bounded exploration of the reference interpreter (RefCpu) against
// the golden sequential model.  Sections: P01 P02 P03 P04 P05.
#include "RISCV.h"
#include "ref.h"
#include "Csr.h"
#include "golden.h"
#include "grids.h"
#include "mc.h"
#include <cinttypes>
#include <set>

long long sim_time = 0;
void push_oracle_timer(uint32_t) {}

using golden::Machine;
using mc::fmt;
namespace g = golden;

static bool thorough = false;
static RefCpu cpu{};
static Machine gm;
static const int csr_map[g::NCSR] = {csr_mtvec, csr_mepc, csr_mcause, csr_mie, csr_mip, csr_mtval, csr_mscratch,
  csr_mstatus, csr_mideleg, csr_medeleg, csr_sepc, csr_stvec, csr_scause, csr_sscratch, csr_stval, csr_sstatus,
  csr_sie, csr_sip, csr_satp, csr_mhartid, csr_misa};
static const char *csr_nm[g::NCSR] = {"mtvec","mepc","mcause","mie","mip","mtval","mscratch","mstatus","mideleg","medeleg",
  "sepc","stvec","scause","sscratch","stval","sstatus","sie","sip","satp","mhartid","misa"};
static const uint32_t csr_num[g::NCSR] = {0x305,0x341,0x342,0x304,0x344,0x343,0x340,0x300,0x303,0x302,0x141,0x105,0x142,
  0x140,0x143,0x100,0x104,0x144,0x180,0xF14,0x301};

// ------------------------------------------------------------ DUT set-up
// Guest RAM is a private mapping in which only the pages a case may write are
// writable: a stray store faults and is reported with the current case.
static const uint32_t CODE = 0x80010000u;   // instruction words
static const uint32_t DATA = 0x80020000u;   // data page 0 (writable)
static const uint32_t DATA2 = 0x80021000u;  // data page 1 (writable)
static uint32_t *ram;
static bool mtip = false; // platform timer line

static void arm_timer(bool pending) {
  // The platform timer is pending when now >= cmp. Programmed by guest stores.
  auto st = [&](uint32_t addr, uint32_t v) {
    g::State save = gm.s;
    cpu.privilege = 3;
    for (int i = 0; i < 32; ++i) cpu.state.gpr[i] = 0;
    for (int i = 0; i < 21; ++i) cpu.state.csr[i] = 0;
    cpu.state.gpr[5] = addr;
    cpu.state.gpr[6] = v;
    cpu.state.pc = CODE;
    ram[(CODE - 0x80000000u) >> 2] = 0x0062a023; // sw x6,0(x5)
    cpu.exec();
    gm.s = save;
  };
  if (pending == mtip) return;
  st(OPENSBI_TIMERCMP_LOW_ADDR, pending ? 0 : 0xFFFFFFFFu);
  st(OPENSBI_TIMERCMP_HIGH_ADDR, pending ? 0 : 0x7FFFFFFFu);
  mtip = pending;
}
static void open_page(uint32_t pa) { mprotect((char *)ram + (pa - 0x80000000u), 4096, PROT_READ | PROT_WRITE); }

static void boot() {
  cpu.init(0);
  free(cpu.memory);
  ram = (uint32_t *)mmap(nullptr, 1ull << 30, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cpu.memory = ram;
  cpu.ref_only = true;
  cpu.uart_print = false;
  open_page(CODE); open_page(DATA); open_page(DATA2);
  mtip = true; // cmp = 0 after reset
  sim_time = 1000;
  arm_timer(false);
  cpu.io_words.clear();
}
static uint32_t rref(uint32_t a) { return cpu.load_word(a); }
static void wboth(uint32_t a, uint32_t v) {
  if (a >= 0x80000000u && a < 0xC0000000u) ram[(a - 0x80000000u) >> 2] = v;
  else cpu.store_word(a, v);
  gm.mem.wr(a, v);
}
// copy golden state into the DUT
static void put() {
  for (int i = 0; i < 32; ++i) cpu.state.gpr[i] = gm.s.x[i];
  for (int i = 0; i < g::NCSR; ++i) cpu.state.csr[csr_map[i]] = gm.s.csr[i];
  cpu.state.pc = gm.s.pc;
  cpu.privilege = gm.s.priv;
  cpu.sim_end = false;
}
static void fresh() {
  gm.s = g::State();
  gm.s.csr[g::MISA] = 0x40141103u;
  gm.s.pc = CODE;
  // distinct recognisable register contents
  for (int i = 1; i < 32; ++i) gm.s.x[i] = 0x01010101u * i ^ 0xC3A50000u;
}
static std::string diff_state() {
  std::string d;
  for (int i = 0; i < 32; ++i)
    if (cpu.state.gpr[i] != gm.s.x[i]) d += fmt(" x%d=%08x want %08x;", i, cpu.state.gpr[i], gm.s.x[i]);
  for (int i = 0; i < g::NCSR; ++i)
    if (cpu.state.csr[csr_map[i]] != gm.s.csr[i]) d += fmt(" %s=%08x want %08x;", csr_nm[i], cpu.state.csr[csr_map[i]], gm.s.csr[i]);
  if (cpu.state.pc != gm.s.pc) d += fmt(" pc=%08x want %08x;", cpu.state.pc, gm.s.pc);
  if (cpu.privilege != gm.s.priv) d += fmt(" priv=%d want %d;", cpu.privilege, gm.s.priv);
  return d;
}
static bool same_state() {
  if (memcmp(cpu.state.gpr, gm.s.x, sizeof gm.s.x)) return false;
  for (int i = 0; i < g::NCSR; ++i) if (cpu.state.csr[csr_map[i]] != gm.s.csr[i]) return false;
  return cpu.state.pc == gm.s.pc && cpu.privilege == gm.s.priv;
}
static void golden_timer() {
  gm.s.csr[g::MIP] = (gm.s.csr[g::MIP] & ~0x80u) | (mtip ? 0x80u : 0);
  gm.s.csr[g::SIP] = gm.s.csr[g::MIP] & g::SIE_M;
}
// golden: interrupt if deliverable, else one instruction
static void golden_step() {
  golden_timer();
  g::Irq q = gm.pending_irq();
  if (q.any) gm.take_irq(q);
  else gm.step();
}
static uint64_t hash_case(uint32_t in) {
  uint64_t h = mc::hash_bytes(gm.s.x, sizeof gm.s.x, in);
  h = mc::hash_bytes(gm.s.csr, sizeof gm.s.csr, h);
  return mc::mix(h, (uint64_t(gm.s.pc) << 8) | gm.s.priv);
}
static std::string regs_txt(uint32_t in) {
  uint32_t r1 = g::bits(in, 19, 15), r2 = g::bits(in, 24, 20), r3 = in >> 27;
  return fmt("x%u=%08x x%u=%08x x%u=%08x", r1, gm.s.x[r1], r2, gm.s.x[r2], r3, gm.s.x[r3]);
}
static std::string opkey(uint32_t in) {
  uint32_t op = in & 0x7F, f3 = g::bits(in, 14, 12), f7 = in >> 25;
  if (op == 0x33 || op == 0x53) return fmt("op%02x.f3=%u.f7=%02x", op, f3, f7);
  if (op == 0x2F) return fmt("amo.f5=%u", in >> 27);
  if (op == 0x73) return f3 ? fmt("csr.f3=%u", f3) : fmt("sys.%08x", in);
  if (op == 0x13 && (f3 == 1 || f3 == 5)) return fmt("op13.f3=%u.f7=%02x", f3, f7);
  return fmt("op%02x.f3=%u", op, f3);
}
static const uint32_t I_EBREAK = 0x00100073, I_WFI = 0x10500073;
// One instruction from the state in gm.s (put into the DUT first).
// word_at: memory words that must agree afterwards.
static bool one(const char *prop, uint32_t in, const uint32_t *watch = nullptr, int nwatch = 0, const char *tag = "") {
  static uint32_t lastcode = 0;
  uint32_t idx = (gm.s.pc - 0x80000000u) >> 2;
  (void)lastcode;
  if (gm.s.pc >= 0x80000000u && gm.s.pc < 0xC0000000u) ram[idx] = in;
  gm.mem.wr(gm.s.pc, in);
  put();
  mc::visit(hash_case(in));
  snprintf(mc::W().current, 512, "%s %s inst=%08x pc=%08x", prop, tag, in, gm.s.pc);
  g::State pre = gm.s;
  golden_timer();
  // the run ends at an ebreak, and (reference alone) at a wfi that is not interrupted
  const bool ends = !gm.pending_irq().any && (in == I_EBREAK || (in == I_WFI && cpu.ref_only));
  golden_step();
  if (gm.e.unsupported) { gm.s = pre; return true; }
  cpu.exec();
  mc::trans();
  const bool faulted = (in == I_EBREAK || in == I_WFI) && gm.s.pc != pre.pc + 4;
  const bool end_ok = cpu.sim_end == (ends && !faulted);
  bool ok = same_state() && end_ok;
  std::string d;
  if (ok) for (int i = 0; i < nwatch; ++i) if (rref(watch[i]) != gm.mem.rd(watch[i])) { ok = false; break; }
  if (!ok) {
    d = diff_state();
    if (!end_ok) d += fmt(" end of the run %ssignalled;", cpu.sim_end ? "wrongly " : "not ");
    for (int i = 0; i < nwatch; ++i)
      if (rref(watch[i]) != gm.mem.rd(watch[i])) d += fmt(" mem[%08x]=%08x want %08x;", watch[i], rref(watch[i]), gm.mem.rd(watch[i]));
    std::swap(pre, gm.s);
    std::string rt = regs_txt(in);
    std::swap(pre, gm.s);
    mc::violation(fmt("%s:%s%s", prop, opkey(in).c_str(), tag), fmt("%s %s inst=%08x %s", prop, tag, in, rt.c_str()),
                  fmt("one step of the reference, inst=%08x %s priv=%d mstatus=%08x:%s", in, rt.c_str(), pre.priv, pre.csr[g::MSTATUS], d.c_str()));
  }
  return ok;
}

// ------------------------------------------------------------ encoders
static uint32_t R(uint32_t f7, uint32_t rs2, uint32_t rs1, uint32_t f3, uint32_t rd, uint32_t op = 0x33) {
  return (f7 << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) | (rd << 7) | op;
}
static uint32_t I(uint32_t imm, uint32_t rs1, uint32_t f3, uint32_t rd, uint32_t op = 0x13) {
  return ((imm & 0xFFF) << 20) | (rs1 << 15) | (f3 << 12) | (rd << 7) | op;
}
static uint32_t S(uint32_t imm, uint32_t rs2, uint32_t rs1, uint32_t f3) {
  return (((imm >> 5) & 0x7F) << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) | ((imm & 31) << 7) | 0x23;
}
static uint32_t B(uint32_t imm, uint32_t rs2, uint32_t rs1, uint32_t f3) {
  return (((imm >> 12) & 1) << 31) | (((imm >> 5) & 0x3F) << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) |
         (((imm >> 1) & 15) << 8) | (((imm >> 11) & 1) << 7) | 0x63;
}
static uint32_t J(uint32_t imm, uint32_t rd) {
  return (((imm >> 20) & 1) << 31) | (((imm >> 1) & 0x3FF) << 21) | (((imm >> 11) & 1) << 20) | (((imm >> 12) & 0xFF) << 12) | (rd << 7) | 0x6F;
}
// ------------------------------------------------------------ P01
static void p01() {
  const char *P = "P01";
  auto G = int_grid(true), G2 = int_grid(false);
  // (a) register-register over the full operand grid
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(uint64_t(NRR) * G.size())) >= 0;) {
      int o = k / G.size(); uint32_t a = G[k % G.size()];
      fresh();
      for (uint32_t b : G) {
        gm.s.pc = CODE; gm.s.x[5] = a; gm.s.x[6] = b; gm.s.x[7] = 0xA5A5A5A5;
        uint32_t in = R(RR[o][0], 6, 5, RR[o][1], 7);
        one(P, in);
      }
      if (k < 4) mc::sample("rr f7=%02x f3=%u a=%08x over %zu b values", RR[o][0], RR[o][1], a, G.size());
    }
  });
  // (a2) every aliasing of operands and result, x0 included, over boundary values
  static const uint32_t AV[] = {0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 32, 33, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x12345678, 0x55555555,
                                0x7FFFFFFF, 0x80000000u, 0x80000001u, 0xAAAAAAAAu, 0xDEADBEEFu, 0xFFFF0000u, 0xFFFF8000u, 0xFFFFFF80u, 0xFFFFFFFEu, 0xFFFFFFFFu};
  static const uint32_t AR[] = {0, 1, 5, 6, 31};
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(uint64_t(NRR) * 125)) >= 0;) {
      int o = k / 125; uint32_t rd = AR[k % 5], r1 = AR[k / 5 % 5], r2 = AR[k / 25 % 5];
      for (uint32_t a : AV) for (uint32_t b : AV) {
        fresh();
        if (r1) gm.s.x[r1] = a;
        if (r2) gm.s.x[r2] = b;
        one(P, R(RR[o][0], r2, r1, RR[o][1], rd));
      }
    }
  });
  // (a3) one-operand operations and single-bit immediates: every 16-bit window of the operand
  mc::parallel([&](int, int) {
    static const uint32_t U1[] = {0x600, 0x601, 0x602, 0x604, 0x605}, U5[] = {0x287, 0x698, 0x61F, 0x41F, 0x01F, 0x601, 0x401, 0x49F, 0x480};
    for (int64_t k; (k = mc::take(65536, 64)) >= 0;)
      for (uint32_t x = k; x < k + 64; ++x)
        for (uint32_t a : {x, x << 8, x << 16, x | 0xFFFF0000u, x << 16 | 0xFFFF, x * 0x10001u}) {
          fresh();
          for (uint32_t v : U1) { gm.s.pc = CODE; gm.s.x[5] = a; one(P, I(v, 5, 1, 7)); }
          for (uint32_t v : U5) { gm.s.pc = CODE; gm.s.x[5] = a; one(P, I(v, 5, 5, 7)); }
          gm.s.pc = CODE; gm.s.x[5] = a; one(P, R(4, 0, 5, 4, 7)); // zext.h
        }
  });
  // (b) all register triples, distinct contents, for every op; (c) register pairs for I-type
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(uint64_t(NRR) * 32)) >= 0;) {
      int o = k / 32; uint32_t rd = k % 32;
      for (uint32_t a = 0; a < 32; ++a) for (uint32_t b = 0; b < 32; ++b) { fresh(); one(P, R(RR[o][0], b, a, RR[o][1], rd)); }
    }
  });
  // (d) immediates: all 4096 x all funct3 x a-grid (legal shift encodings only)
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(4096 * 8)) >= 0;) {
      uint32_t f3 = k & 7, imm = k >> 3, r;
      if (!g::alu_ri(I(imm, 5, f3, 7), 0, r)) continue;
      fresh();
      for (uint32_t a : G2) { gm.s.pc = CODE; gm.s.x[5] = a; gm.s.x[7] = 0x5A5A5A5A; one(P, I(imm, 5, f3, 7)); }
      for (uint32_t rd = 0; rd < 32; ++rd) for (uint32_t rs = 0; rs < 32; ++rs) {
        if (((imm ^ (imm >> 5) ^ rd ^ rs) & 7) && imm != 1 && imm != 0xFFF) continue;
        fresh(); one(P, I(imm, rs, f3, rd));
      }
    }
  });
  // (e) U-type, JAL: all 2^20 immediates; several pcs, rds
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(1u << 10)) >= 0;) {
      fresh();
      for (uint32_t j = 0; j < 1024; ++j) {
        uint32_t im = uint32_t(k) << 10 | j, rd = (im * 7 + (im >> 5)) & 31;
        for (uint32_t pc : {CODE, CODE + 0xFFC}) {
          gm.s.pc = pc; one(P, (im << 12) | (rd << 7) | 0x37); 
          gm.s.pc = pc; one(P, (im << 12) | (rd << 7) | 0x17);
          gm.s.pc = pc; if (!(im & 1)) one(P, J(im, rd)), gm.s.pc = pc, one(P, J(im | 0, rd ? 0 : 1));
        }
      }
    }
  });
  // (f) JALR all immediates x base grid, rd==rs1 included; branches: all offsets x outcome, compare grid, registers
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(4096)) >= 0;) {
      uint32_t imm = k;
      fresh();
      for (uint32_t a : G2) for (uint32_t rd : {0u, 1u, 5u}) { gm.s.pc = CODE; gm.s.x[5] = a; gm.s.x[1] = 1; one(P, I(imm, 5, 0, rd, 0x67)); }
      for (uint32_t f3 : {0u, 1u, 4u, 5u, 6u, 7u}) {
        fresh();
        uint32_t off = imm << 1;
        const uint32_t pr[][2] = {{1, 1}, {1, 2}, {2, 1}, {0xFFFFFFFF, 1}, {1, 0xFFFFFFFF}, {0x80000000u, 0x7FFFFFFFu}, {0x7FFFFFFFu, 0x80000000u}};
        for (auto &q : pr) { gm.s.pc = CODE + 0x800; gm.s.x[5] = q[0]; gm.s.x[6] = q[1]; one(P, B(off, 6, 5, f3)); }
      }
    }
    return;
  });
  mc::parallel([&](int, int) {
    static const uint32_t F[6] = {0, 1, 4, 5, 6, 7};
    for (int64_t k; (k = mc::take(6 * G.size())) >= 0;) {
      uint32_t f3 = F[k / G.size()], a = G[k % G.size()];
      fresh();
      for (uint32_t b : G) { gm.s.pc = CODE; gm.s.x[5] = a; gm.s.x[6] = b; one(P, B(0x7FE, 6, 5, f3)); }
      for (uint32_t r1 = 0; r1 < 32; ++r1) { fresh(); gm.s.x[k % 31 + 1] = gm.s.x[r1]; one(P, B(64, r1, k % 32, f3)); }
    }
  });
  // (g) histories: all instruction sequences up to length 3 over one instance of
  // every operation (data flows through x5..x7), state carried across
  std::vector<uint32_t> A;
  for (int o = 0; o < NRR; ++o) A.push_back(RR[o][0] == 4 ? R(4, 0, 5, 4, 6) : R(RR[o][0], 6, 5, RR[o][1], o % 3 + 5));
  for (uint32_t f3 : {0u, 2u, 3u, 4u, 6u, 7u}) A.push_back(I(0xFF3, 5, f3, 6));
  for (uint32_t v : {0x001u, 0x2A1u, 0x4A1u, 0x6A1u, 0x600u, 0x601u, 0x602u, 0x604u, 0x605u}) A.push_back(I(v, 6, 1, 5));
  for (uint32_t v : {0x003u, 0x403u, 0x603u, 0x483u, 0x698u, 0x287u}) A.push_back(I(v, 6, 5, 7));
  A.push_back(0x123452B7u); A.push_back(0x12345317u); A.push_back(J(8, 5)); A.push_back(I(4, 7, 0, 6, 0x67));
  for (uint32_t f3 : {0u, 1u, 4u, 5u, 6u, 7u}) A.push_back(B(12, 6, 5, f3));
  A.push_back(0x0000000F); A.push_back(0x0000100F);
  const uint64_t n = A.size();
  const uint32_t seeds[][3] = {{0x80000000u, 0xFFFFFFFFu, 3}, {7, 0xFFFFFFF5u, 0x7FFFFFFFu}, {0, 0x12345678u, 0x80000001u}};
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(n * n)) >= 0;) {
      uint32_t seq[3] = {A[k / n], A[k % n], 0};
      for (uint64_t j = 0; j < n; ++j) {
        seq[2] = A[j];
        for (int sd = 0; sd < (thorough ? 3 : 1); ++sd) {
          fresh();
          gm.s.x[5] = seeds[sd][0]; gm.s.x[6] = seeds[sd][1]; gm.s.x[7] = seeds[sd][2] & ~3u;
          mc::trace();
          bool ok = true;
          for (int i = 0; i < 3 && ok; ++i) {
            if (gm.s.pc < CODE || gm.s.pc >= CODE + 0x1000 || (gm.s.pc & 3)) gm.s.pc = CODE;
            ok = one(P, seq[i], nullptr, 0, i ? ":seq" : "");
            if (!ok) mc::violation(fmt("P01:seq:%s", opkey(seq[i]).c_str()), fmt("P01 seq %08x %08x %08x seed %d", seq[0], seq[1], seq[2], sd), "sequence diverges");
          }
        }
      }
    }
  });
}

// ------------------------------------------------------------ P02
static void p02() {
  const char *P = "P02";
  auto G2 = fp_grid(1);                     // two-operand
  std::vector<uint32_t> G3;                 // three-operand
  for (uint32_t e : {0u, 1u, 24u, 103u, 126u, 127u, 128u, 150u, 253u, 254u, 255u})
    for (uint32_t m : {0u, 1u, 0x400000u, 0x7FFFFFu}) { G3.push_back(e << 23 | m); if (m != 1 || thorough) G3.push_back(1u << 31 | e << 23 | m); }
  if (thorough) for (uint32_t e : {2u, 104u, 125u, 151u}) for (uint32_t m : {2u, 0x3FFFFFu, 0x7FFFFEu}) { G3.push_back(e << 23 | m); G3.push_back(1u << 31 | e << 23 | m); }
  static const uint32_t rms[] = {0, 1, 2, 3, 4, 7};
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(G2.size())) >= 0;) {
      uint32_t a = G2[k];
      fresh();
      for (uint32_t b : G2) {
        auto go = [&](uint32_t in) { gm.s.pc = CODE; gm.s.x[5] = a; gm.s.x[6] = b; gm.s.x[7] = 0x1111; one(P, in); };
        for (uint32_t f7 : {0x00u, 0x04u, 0x08u, 0x0Cu}) for (uint32_t rm : rms) go(R(f7, 6, 5, rm, 7, 0x53));
        for (uint32_t f3 : {0u, 1u, 2u}) go(R(0x10, 6, 5, f3, 7, 0x53)), go(R(0x50, 6, 5, f3, 7, 0x53));
        for (uint32_t f3 : {0u, 1u}) go(R(0x14, 6, 5, f3, 7, 0x53));
      }
      if (k < 3) mc::sample("fadd/fsub/fmul/fdiv/fsgnj/cmp/minmax a=%08x over %zu b values, 6 rounding modes", a, G2.size());
    }
  });
  // one-operand: sqrt, cvt, class: grid plus every exponent x mantissa pattern, and integers for fcvt.s.w
  std::vector<uint32_t> G1 = G2;
  for (uint32_t e = 0; e < 256; ++e) for (uint32_t m : {0u, 1u, 2u, 0x3FFFFFu, 0x400000u, 0x400001u, 0x600000u, 0x7FFFFEu, 0x7FFFFFu, 0x2AAAABu}) { G1.push_back(e << 23 | m); G1.push_back(1u << 31 | e << 23 | m); }
  // every halfway/adjacent pattern of the integer range for conversions
  for (uint32_t e = 126; e < 160; ++e) for (int b = 0; b < 23; ++b) for (uint32_t m : {1u << b, (1u << b) - 1, (1u << b) | 1, 0x7FFFFFu ^ (1u << b), (3u << b) & 0x7FFFFF}) { G1.push_back(e << 23 | m); G1.push_back(1u << 31 | e << 23 | m); }
  auto IG = int_grid(true);
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(G1.size() + IG.size())) >= 0;) {
      uint32_t a = k < (int64_t)G1.size() ? G1[k] : IG[k - G1.size()];
      fresh();
      auto go = [&](uint32_t in) { gm.s.pc = CODE; gm.s.x[5] = a; gm.s.x[7] = 0x1111; one(P, in); };
      for (uint32_t rm : rms) {
        go(R(0x2C, 0, 5, rm, 7, 0x53));
        for (uint32_t u : {0u, 1u}) go(R(0x60, u, 5, rm, 7, 0x53)), go(R(0x68, u, 5, rm, 7, 0x53));
      }
      go(R(0x70, 0, 5, 1, 7, 0x53));
    }
  });
  // fused: 4 opcodes x 6 rm x G3^3
  mc::parallel([&](int, int) {
    uint64_t n = G3.size();
    for (int64_t k; (k = mc::take(n * n)) >= 0;) {
      uint32_t a = G3[k / n], b = G3[k % n];
      fresh();
      for (uint32_t c : G3) for (uint32_t op : {0x43u, 0x47u, 0x4Bu, 0x4Fu}) for (uint32_t rm : rms) {
        if (!thorough && rm == 7) continue;
        gm.s.pc = CODE; gm.s.x[5] = a; gm.s.x[6] = b; gm.s.x[8] = c; gm.s.x[7] = 0x1111;
        one(P, (8u << 27) | (6 << 20) | (5 << 15) | (rm << 12) | (7 << 7) | op);
      }
    }
  });
  // every aliasing of two operands and the result, x0 included
  mc::parallel([&](int, int) {
    static const uint32_t AV[] = {0, 0x80000000u, 1, 0x80000001u, 0x007FFFFF, 0x00800000, 0x33800000, 0x3F7FFFFF, 0x3F800000, 0xBF800000u, 0x3F800001, 0x4B000001, 0x4F000000,
                                  0xCF000000u, 0x7F7FFFFF, 0x7F800000, 0xFF800000u, 0x7FC00000, 0x7F800001, 0xFFC12345u};
    static const uint32_t AR[] = {0, 5, 6, 31};
    static const uint32_t F7[] = {0x00, 0x04, 0x08, 0x0C, 0x10, 0x14, 0x50};
    for (int64_t k; (k = mc::take(64 * 7)) >= 0;) {
      uint32_t rd = AR[k & 3], r1 = AR[k >> 2 & 3], r2 = AR[k >> 4 & 3], f7 = F7[k >> 6];
      for (uint32_t a : AV) for (uint32_t b : AV) for (uint32_t f3 = 0; f3 < (f7 < 0x10 ? 5u : f7 == 0x14 ? 2u : 3u); ++f3) {
        fresh();
        if (r1) gm.s.x[r1] = a;
        if (r2) gm.s.x[r2] = b;
        one(P, R(f7, r2, r1, f3, rd, 0x53));
        if (f7) continue;
        for (uint32_t r3 : {0u, 5u, 6u}) { // fused
          fresh();
          if (r1) gm.s.x[r1] = a;
          if (r2) gm.s.x[r2] = b;
          one(P, (r3 << 27) | (r2 << 20) | (r1 << 15) | (f3 << 12) | (rd << 7) | (f3 < 4 ? 0x43 + 4 * f3 : 0x43));
        }
      }
    }
  });
  // register routing incl. aliasing, and rounding-mode histories (mode must not leak between instructions)
  mc::parallel([&](int, int) {
    static const uint32_t vals[4] = {0x3F800001, 0x33800000, 0xBF7FFFFF, 0x4B000001};
    for (int64_t k; (k = mc::take(1024)) >= 0;) {
      uint32_t r1 = k >> 5, r2 = k & 31;
      for (uint32_t rd = 0; rd < 32; ++rd) {
        fresh();
        for (int i = 1; i < 32; ++i) gm.s.x[i] = vals[i & 3] + i * 3;
        gm.s.pc = CODE; one(P, R(0, r2, r1, 0, rd, 0x53));
        gm.s.pc = CODE; one(P, (rd << 27) | (r2 << 20) | (r1 << 15) | (1 << 12) | (((r1 + r2) & 31) << 7) | 0x43);
        gm.s.pc = CODE; one(P, R(0x14, r2, r1, rd & 1, rd, 0x53));
        gm.s.pc = CODE; one(P, R(0x0C, r2, r1, rd % 5, rd, 0x53));
      }
    }
    std::vector<uint32_t> A;
    for (uint32_t rm : rms) {
      for (uint32_t f7 : {0x00u, 0x04u, 0x08u, 0x0Cu}) A.push_back(R(f7, 6, 5, rm, 7, 0x53));
      A.push_back(R(0x2C, 0, 5, rm, 7, 0x53));
      A.push_back(R(0x60, 0, 5, rm, 7, 0x53)); A.push_back(R(0x68, 0, 8, rm, 7, 0x53)); A.push_back(R(0x68, 1, 8, rm, 7, 0x53));
      A.push_back((6u << 27) | (5 << 20) | (5 << 15) | (rm << 12) | (7 << 7) | 0x43);
    }
    for (uint32_t f3 : {0u, 1u, 2u}) A.push_back(R(0x10, 6, 5, f3, 7, 0x53)), A.push_back(R(0x50, 6, 5, f3, 7, 0x53));
    if (mc::me() == 0)
      for (uint32_t x : A) for (uint32_t y : A) {
        fresh(); gm.s.x[5] = 0x3F800001; gm.s.x[6] = 0x33800001; gm.s.x[8] = 0x7FFFFFFF;
        mc::trace();
        one(P, x, nullptr, 0, ":seq"); gm.s.pc = CODE; one(P, y, nullptr, 0, ":seq");
      }
  });
}

// ------------------------------------------------------------ P03
static void p03() {
  const char *P = "P03";
  // (a) every size x every offset in a window straddling lines and a page x data patterns x sign
  mc::parallel([&](int, int) {
    static const uint32_t pat[] = {0, 0xFFFFFFFF, 0x80808080, 0x7F7F7F7F, 0x01020304, 0x8000FFFE, 0x00FF8001};
    for (int64_t k; (k = mc::take(0x1080)) >= 0;) {
      uint32_t a = DATA + 0xF80 + uint32_t(k);
      if (a >= DATA2 + 0x1000 - 8) continue;
      uint32_t w[5];
      for (int i = 0; i < 5; ++i) w[i] = (a & ~3u) - 8 + 4 * i;
      if (w[0] < DATA) continue;
      for (uint32_t bg : pat) for (uint32_t v : pat) {
        for (uint32_t f3 : {0u, 1u, 2u}) {
          if (a & ((1u << f3) - 1)) continue;
          for (uint32_t x : w) wboth(x, bg ^ x * 0x9E3779B1u);
          fresh(); gm.s.x[5] = a - 5; gm.s.x[6] = v;
          one(P, S(5, 6, 5, f3), w, 5);
        }
        for (uint32_t f3 : {0u, 1u, 2u, 4u, 5u}) {
          if (a & ((1u << (f3 & 3)) - 1)) continue;
          wboth(w[2], v); wboth(w[3], ~v);
          fresh(); gm.s.x[5] = a + 7; one(P, I(0u - 7, 5, f3, 7, 0x03), w, 5);
        }
        if (thorough == false && (k & 63) > 16 && bg) break;
      }
    }
  });
  // immediates: all 4096 for a load and a store
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(4096)) >= 0;) {
      for (uint32_t f3 : {0u, 1u, 2u}) {
        uint32_t imm = uint32_t(k), se = g::sx(imm, 12), a = (DATA + 0x800) & ~3u;
        uint32_t w[3] = {(a & ~3u) - 4, a & ~3u, (a & ~3u) + 4};
        fresh(); gm.s.x[5] = a - se; gm.s.x[6] = 0x89ABCDEFu ^ imm;
        one(P, S(imm, 6, 5, f3), w, 3);
        fresh(); gm.s.x[5] = a - se;
        one(P, I(imm, 5, f3, 7, 0x03), w, 3);
        fresh(); gm.s.x[5] = a - se;
        one(P, I(imm, 5, f3 & 1 | 4, 5, 0x03), w, 3);
      }
    }
  });
  // (b) atomics over the operand grid and register aliasings
  auto G = int_grid(false);
  static const uint32_t F5[] = {0, 1, 4, 8, 12, 16, 20, 24, 28};
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(9 * G.size())) >= 0;) {
      uint32_t f5 = F5[k / G.size()], m = G[k % G.size()];
      uint32_t a = DATA + 0x40 + 4 * (k % 7), w[3] = {a - 4, a, a + 4};
      for (uint32_t b : G) {
        wboth(a, m); fresh(); gm.s.x[5] = a; gm.s.x[6] = b;
        one(P, R(f5 << 2 | (b & 3), 6, 5, 2, 7, 0x2F), w, 3);
      }
      for (uint32_t rd = 0; rd < 32; ++rd) for (uint32_t rs2 = 0; rs2 < 32; ++rs2) {
        if ((k % G.size()) % 64) break;
        for (uint32_t rs1 : {5u, 6u, rd ? rd : 9u, rs2 ? rs2 : 9u}) {
        wboth(a, m); fresh(); gm.s.x[rs1] = a; one(P, R(f5 << 2, rs2, rs1, 2, rd, 0x2F), w, 3); }
      }
    }
  });
  // (c) histories: all sequences up to depth D over memory operations on 2 words
  struct Op { uint32_t in; const char *n; };
  std::vector<Op> A = {
    {S(0, 6, 5, 2), "sw a"}, {S(1, 6, 5, 0), "sb a+1"}, {S(2, 7, 5, 1), "sh a+2"}, {S(4, 7, 5, 2), "sw b"},
    {I(0, 5, 2, 8, 3), "lw a"}, {I(3, 5, 0, 9, 3), "lb a+3"}, {I(4, 5, 5, 7, 3), "lhu b"},
    {R(0, 6, 5, 2, 7, 0x2F), "amoadd a"}, {R(1 << 2, 7, 10, 2, 6, 0x2F), "amoswap b"},
    {R(2 << 2, 0, 5, 2, 8, 0x2F), "lr a"}, {R(2 << 2, 0, 10, 2, 9, 0x2F), "lr b"},
    {R(3 << 2, 6, 5, 2, 9, 0x2F), "sc a"}, {R(3 << 2, 7, 10, 2, 8, 0x2F), "sc b"},
    {I(1, 6, 0, 6), "addi"}, {0x00000073, "ecall"}, {R(3 << 2, 6, 5, 2, 0, 0x2F), "sc a,x0"}};
  const int D = thorough ? 6 : 5;
  const uint64_t n = A.size();
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(n * n)) >= 0;) {
      // DFS by replaying from the start: D-2 more levels
      uint64_t tot = 1;
      for (int i = 2; i < D; ++i) tot *= n;
      for (uint64_t r = 0; r < tot; ++r) {
        int seq[8]; seq[0] = k / n; seq[1] = k % n;
        uint64_t q = r; for (int i = 2; i < D; ++i) { seq[i] = q % n; q /= n; }
        uint32_t w[4] = {DATA + 0xFC, DATA + 0x100, DATA + 0x104, DATA + 0x108};
        wboth(w[0], 0x11111111); wboth(w[1], 0xF2345678); wboth(w[2], 0x8000FF80); wboth(w[3], 0x22222222);
        fresh(); gm.s.x[5] = w[1]; gm.s.x[10] = w[2]; gm.s.csr[g::MTVEC] = CODE + 0x200;
        cpu.state.reserve_valid = false; cpu.state.reserve_addr = 0;
        mc::trace();
        for (int i = 0; i < D; ++i) {
          gm.s.pc = CODE + 4 * i;
          if (!one(P, A[seq[i]].in, w, 4, ":seq")) {
            std::string t; for (int j = 0; j <= i; ++j) t += std::string(A[seq[j]].n) + "; ";
            mc::violation("P03:seq:" + std::string(A[seq[i]].n), "P03 seq " + t, "sequence diverges: " + t);
            break;
          }
        }
        if (k == 0 && r < 2) { std::string t; for (int j = 0; j < D; ++j) t += std::string(A[seq[j]].n) + "; "; mc::sample("%s", t.c_str()); }
      }
    }
  });
  // (d) RAM edges and io words: loads and stores at the ends of RAM
  mc::parallel([&](int w0, int) {
    if (w0) return;
    open_page(0xBFFFF000u); open_page(0x80000000u);
    for (uint32_t a : {0x80000000u, 0x80000001u, 0x80000002u, 0x80000003u, 0x80000004u, 0xBFFFFFFCu, 0xBFFFFFFDu, 0xBFFFFFFEu, 0xBFFFFFFFu, 0xBFFFFFF8u})
      for (uint32_t f3 : {0u, 1u, 2u}) {
        if (a & ((1u << f3) - 1)) continue;
        uint32_t w[2] = {a & ~3u, 0x80000000u};
        wboth(a & ~3u, 0x80C0E0F1); fresh(); gm.s.x[5] = a; gm.s.x[6] = 0x5566F788; one(P, S(0, 6, 5, f3), w, 2);
        fresh(); gm.s.x[5] = a; one(P, I(0, 5, f3, 7, 3), w, 2);
        fresh(); gm.s.x[5] = a; one(P, I(0, 5, (f3 & 1) | 4, 7, 3), w, 2);
      }
  });
}

// ------------------------------------------------------------ P04
static const uint32_t NOPI = 0x00000013, I_ECALL = 0x73, I_MRET = 0x30200073, I_SRET = 0x10200073;
static void p04() {
  const char *P = "P04";
  static const int IB[6] = {1, 3, 5, 7, 9, 11};
  auto spread = [](uint32_t m) { uint32_t v = 0; for (int i = 0; i < 6; ++i) if (m >> i & 1) v |= 1u << IB[i]; return v; };
  auto setst = [](uint32_t v) { gm.s.csr[g::MSTATUS] = v; gm.s.csr[g::SSTATUS] = v & g::SSTATUS_M; };
  // (a) interrupt delivery: mode x MIE x SIE x mip x mie x mideleg x next instruction
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(64 * 64)) >= 0;) {
      uint32_t mip = spread(k & 63), mie = spread(k >> 6);
      arm_timer(mip & 0x80);
      for (uint32_t dl = 0; dl < 64; ++dl)
        for (uint8_t pv : {0, 1, 3})
          for (uint32_t en = 0; en < 4; ++en)
            for (uint32_t in : {NOPI, I_ECALL, I_MRET, I_SRET, I_WFI, I_WFI | 1u << 31, I_EBREAK}) {
              if (in == I_MRET && pv != 3) continue;
              if (in == I_SRET && pv == 0) continue;
              fresh();
              const bool alone = in != (I_WFI | 1u << 31); // the second wfi: reference run beside a design
              if (!alone) in = I_WFI;
              gm.s.priv = pv;
              setst((en & 1 ? 8 : 0) | (en & 2 ? 2 : 0) | 0x800);
              gm.s.csr[g::MIP] = mip; gm.s.csr[g::SIP] = mip & g::SIE_M;
              gm.s.csr[g::MIE] = mie; gm.s.csr[g::SIE] = mie & g::SIE_M;
              gm.s.csr[g::MIDELEG] = spread(dl);
              gm.s.csr[g::MEDELEG] = (dl & 1 ? 0x300 : dl & 2 ? 0x200 : 0);
              gm.s.csr[g::MTVEC] = CODE + 0x400 + ((dl >> 2) & 1);
              gm.s.csr[g::STVEC] = CODE + 0x800 + ((dl >> 3) & 1);
              gm.s.csr[g::MEPC] = CODE + 0x44; gm.s.csr[g::SEPC] = CODE + 0x48;
              golden_timer();
              if (in == I_EBREAK && gm.pending_irq().any) continue; // ends the run either way
              const bool ro = cpu.ref_only;
              if (!alone) cpu.ref_only = false;
              one(P, in, nullptr, 0, alone ? ":irq" : ":irq:beside");
              cpu.ref_only = ro;
            }
      if (k == 4095) mc::sample("irq delivery: mip=%03x mie=%03x x 64 mideleg x 3 modes x MIE/SIE x {nop,ecall,mret,sret}", mip, mie);
    }
  });
  // (a') the same while the next instruction cannot be fetched: the interrupt wins, else the page fault is taken
  mc::parallel([&](int, int) {
    const uint32_t RT = 0x80100000u, VA = 0x40000000u;
    open_page(RT); open_page(RT + 0x1000);
    for (uint32_t o = 0; o < 4096; o += 4) wboth(RT + o, 0);
    for (int64_t k; (k = mc::take(64 * 64)) >= 0;) {
      uint32_t mip = spread(k & 63), mie = spread(k >> 6);
      arm_timer(mip & 0x80);
      for (uint32_t dl = 0; dl < 64; ++dl)
        for (uint8_t pv : {0, 1})
          for (uint32_t en = 0; en < 8; ++en) {
            fresh();
            gm.s.priv = pv;
            setst((en & 1 ? 8 : 0) | (en & 2 ? 2 : 0) | 0x80000);
            gm.s.csr[g::MIP] = mip; gm.s.csr[g::SIP] = mip & g::SIE_M;
            gm.s.csr[g::MIE] = mie; gm.s.csr[g::SIE] = mie & g::SIE_M;
            gm.s.csr[g::MIDELEG] = spread(dl);
            gm.s.csr[g::MEDELEG] = en & 4 ? 0x1000 : 0;
            gm.s.csr[g::MTVEC] = CODE + 0x400 + ((dl >> 2) & 1);
            gm.s.csr[g::STVEC] = CODE + 0x800 + ((dl >> 3) & 1);
            gm.s.csr[g::SATP] = 0x80000000u | RT >> 12;
            gm.s.csr[g::MTVAL] = 0x7777; gm.s.csr[g::STVAL] = 0x8888;
            gm.s.pc = VA;
            put();
            mc::visit(hash_case(0));
            mc::current("P04 interrupt at a fetch fault mip=%03x mie=%03x mideleg=%03x priv=%d en=%u", mip, mie, spread(dl), pv, en);
            golden_step();
            cpu.exec();
            mc::trans();
            if (!same_state())
              mc::violation("P04:interrupt at a fetch fault", mc::W().current, std::string(mc::W().current) + ":" + diff_state());
          }
    }
  });
  // (b) synchronous traps and returns over status/delegation/vector values
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(1u << 12)) >= 0;) {
      // bits: MIE SIE MPIE SPIE SPP MPRV SUM MXR MPP(2: skip 2) + TVM.. others
      uint32_t mpp = (k >> 8) & 3;
      if (mpp == 2) continue;
      uint32_t st = (k & 1 ? 8 : 0) | (k & 2 ? 2 : 0) | (k & 4 ? 0x80 : 0) | (k & 8 ? 0x20 : 0) | (k & 16 ? 0x100 : 0) |
                    (k & 32 ? 0x20000 : 0) | (k & 64 ? 0x40000 : 0) | (k & 128 ? 0x80000 : 0) | (mpp << 11) |
                    (k & 1024 ? 0x700000 : 0) | (k & 2048 ? 0x8001E000u : 0);
      for (uint8_t pv : {0, 1, 3})
        for (uint32_t md = 0; md < 64; ++md) {
          uint32_t medeleg = (md & 1 ? 1u << 8 : 0) | (md & 2 ? 1u << 9 : 0) | (md & 4 ? 1u << 2 : 0) | (md & 8 ? 1u << 11 : 0) | (md & 16 ? 0xB000 : 0) | (md & 32 ? 1u << 3 : 0);
          for (uint32_t in : {I_ECALL, I_MRET, I_SRET, 0xC0102373u /*csrr x6,time*/, 0xC8102373u}) {
            if (in == I_MRET && pv != 3) continue;
            if (in == I_SRET && pv == 0) continue;
            fresh(); arm_timer(false);
            gm.s.priv = pv; setst(st);
            gm.s.csr[g::MEDELEG] = medeleg;
            gm.s.csr[g::MTVEC] = CODE + 0x400 + (md & 1); gm.s.csr[g::STVEC] = CODE + 0x800 + ((md >> 1) & 1);
            gm.s.csr[g::MEPC] = CODE + 0x44; gm.s.csr[g::SEPC] = CODE + 0x48;
            gm.s.csr[g::MCAUSE] = 0x5555; gm.s.csr[g::SCAUSE] = 0x6666; gm.s.csr[g::MTVAL] = 0x7777; gm.s.csr[g::STVAL] = 0x8888;
            one(P, in, nullptr, 0, fmt(":trap%s", pv == 3 ? ":M" : "").c_str());
          }
        }
    }
  });
  // (c) CSR instructions: every implemented CSR, every form, operand values, rd/rs1 aliasing
  std::vector<uint32_t> V = {0, 1, 0xFFFFFFFF, 0x80000000u, 0x55555555, 0xAAAAAAAA, 0x12345678, 0xFFFF0000, 0x0000FFFF, 0x333, 0xBBB, 0x888, 0x222, 0x800DE133, 0x807FF9BB, 0x7F800644};
  for (int i = 0; i < 32; ++i) V.push_back(1u << i), V.push_back(~(1u << i));
  auto legalize = [](int c, uint32_t v) -> uint32_t { // keep only values the ISA allows the field to hold
    if (c == g::MSTATUS || c == g::SSTATUS) { if (((v >> 11) & 3) == 2) v ^= 0x800; }
    return v;
  };
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(19 * V.size())) >= 0;) {
      int c = k / V.size(); uint32_t old = legalize(c, V[k % V.size()]);
      for (uint32_t f3 : {1u, 2u, 3u, 5u, 6u, 7u})
        for (size_t vi = 0; vi < ((f3 & 4) ? 32 : V.size()); ++vi)
          for (uint32_t rd : {0u, 5u, 7u})
            for (int x0 = 0; x0 < ((f3 & 4) ? 1 : 2); ++x0) {
              fresh(); arm_timer(false);
              // initial state reachable by writes
              gm.s.csr[g::MSTATUS] = 0x1800; gm.s.csr[g::SSTATUS] = 0;
              gm.csr_write(c, old);
              uint32_t val = (f3 & 4) ? 0 : legalize(c, V[vi]);
              if (!(f3 & 4) && (f3 & 3) != 1 && (c == g::MSTATUS)) { // avoid producing MPP=2
                uint32_t nv = (f3 & 3) == 2 ? (gm.s.csr[c] | val) : (gm.s.csr[c] & ~val);
                if (((nv >> 11) & 3) == 2) continue;
              }
              uint32_t rs1 = (f3 & 4) ? uint32_t(vi) : x0 ? 0 : 5;
              if (!(f3 & 4) && !x0) gm.s.x[5] = val;
              // no interrupt may fire in this section
              if (gm.pending_irq().any) { gm.s.csr[g::MSTATUS] &= ~0xAu; gm.s.csr[g::SSTATUS] &= ~2u; }
              if (c == g::MIP || c == g::SIP) gm.s.csr[g::MIE] = gm.s.csr[g::SIE] = 0;
              bool uimm0 = (f3 == 5) && rs1 == 0;
              one(P, (csr_num[c] << 20) | (rs1 << 15) | (f3 << 12) | (rd << 7) | 0x73, nullptr, 0,
                  fmt(":%s%s", csr_nm[c], uimm0 ? ":uimm0" : "").c_str());
            }
    }
  });
  // unknown CSR numbers are no-ops (platform choice); reads of read-only ids
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(4096)) >= 0;) {
      int c = g::csr_of(k);
      if (c >= 0 && c < 19) continue;
      for (uint32_t f3 : {1u, 2u, 3u, 5u, 6u, 7u}) {
        if (c >= 0 && f3 != 2) continue; // mhartid, misa: reads only
        fresh(); arm_timer(false); gm.s.csr[g::MTVEC] = CODE + 0x400;
        uint32_t rs1 = c >= 0 ? 0 : 6;
        one(P, (uint32_t(k) << 20) | (rs1 << 15) | (f3 << 12) | (7 << 7) | 0x73, nullptr, 0, ":unknown");
      }
    }
  });
  // (d) histories: all sequences of privileged operations up to depth D
  auto CSR = [](uint32_t num, uint32_t f3, uint32_t rs1, uint32_t rd) { return (num << 20) | (rs1 << 15) | (f3 << 12) | (rd << 7) | 0x73; };
  struct Op { uint32_t in; const char *n; };
  std::vector<Op> A = {
    {I_ECALL, "ecall"}, {I_MRET, "mret"}, {I_SRET, "sret"}, {NOPI, "nop"},
    {CSR(0x300, 2, 10, 7), "csrs mstatus,MIE|SIE|.."}, {CSR(0x300, 3, 10, 7), "csrc mstatus"}, {CSR(0x300, 3, 11, 0), "csrc mstatus,MPP"}, {CSR(0x300, 2, 12, 0), "csrs mstatus,MPP=1"},
    {CSR(0x100, 1, 13, 7), "csrw sstatus"}, {CSR(0x304, 1, 14, 0), "csrw mie,all"}, {CSR(0x104, 3, 14, 7), "csrc sie"},
    {CSR(0x344, 1, 15, 7), "csrw mip,SSIP|SEIP|MSIP"}, {CSR(0x144, 2, 16, 7), "csrs sip,SSIP"}, {CSR(0x344, 3, 14, 7), "csrc mip"},
    {CSR(0x303, 1, 17, 0), "csrw mideleg"}, {CSR(0x302, 1, 18, 0), "csrw medeleg"}, {CSR(0x302, 1, 0, 0), "csrw medeleg,0"},
    {CSR(0x342, 2, 0, 8), "csrr mcause"}, {CSR(0x142, 2, 0, 9), "csrr scause"}, {CSR(0x144, 2, 0, 6), "csrr sip"},
    {0xC0102373u, "rdtime"}};
  const uint64_t n = A.size();
  const int D = thorough ? 5 : 4;
  mc::parallel([&](int, int) {
    for (int64_t k; (k = mc::take(n * n * 3)) >= 0;) {
      int ini = k / (n * n), a0 = (k / n) % n, a1 = k % n;
      uint64_t tot = 1; for (int i = 2; i < D; ++i) tot *= n;
      for (uint64_t r = 0; r < tot; ++r) {
        int seq[8] = {a0, a1}; uint64_t q = r; for (int i = 2; i < D; ++i) { seq[i] = q % n; q /= n; }
        fresh(); arm_timer(false);
        gm.s.priv = ini == 0 ? 3 : ini == 1 ? 1 : 0;
        gm.s.csr[g::MTVEC] = CODE + 0x401; gm.s.csr[g::STVEC] = CODE + 0x801;
        gm.s.csr[g::MEPC] = CODE + 0x100; gm.s.csr[g::SEPC] = CODE + 0x140;
        if (ini) { gm.s.csr[g::MIE] = 0x222; gm.s.csr[g::SIE] = 0x222; }
        gm.s.x[10] = 0xAA; gm.s.x[11] = 0x1800; gm.s.x[12] = 0x800; gm.s.x[13] = 0x122; gm.s.x[14] = 0xBBB; gm.s.x[15] = 0x20A; gm.s.x[16] = 2; gm.s.x[17] = 0x2AA; gm.s.x[18] = 0x304;
        mc::trace();
        for (int i = 0; i < D; ++i) {
          uint32_t in = A[seq[i]].in;
          if (gm.s.priv < 3 && (in == I_MRET || (in & 0x7F) == 0x73 && ((in >> 12) & 7) && ((in >> 28) & 3) == 3 && (in >> 20) != 0xC01)) continue; // not permitted in this mode
          if (gm.s.priv == 0 && (in == I_SRET || ((in >> 12) & 7) && (in & 0x7F) == 0x73 && (in >> 20) != 0xC01)) continue;
          if ((in == CSR(0x300, 2, 12, 0)) && (gm.s.csr[g::MSTATUS] & 0x1000)) continue;
          if (in == CSR(0x300, 3, 11, 0) && 0) continue;
          if (!one(P, in, nullptr, 0, ":seq")) {
            std::string t; for (int j = 0; j <= i; ++j) t += std::string(A[seq[j]].n) + "; ";
            mc::violation("P04:seq:" + std::string(A[seq[i]].n), fmt("P04 seq ini=%d %s", ini, t.c_str()), "sequence diverges: " + t);
            break;
          }
          // keep the pc inside the code page
          if (gm.s.pc < CODE || gm.s.pc >= CODE + 0x1000) gm.s.pc = CODE;
        }
      }
    }
  });
  // (e) timer line against compare register: now below/equal/above cmp for low/high words
  mc::parallel([&](int w0, int) {
    if (w0) return;
    for (uint64_t cmp : {0ull, 1ull, 5ull, 0xFFFFFFFFull, 0x100000000ull, 0x100000001ull, 0x1FFFFFFFFull})
      for (int64_t d : {-1ll, 0ll, 1ll}) {
        if ((int64_t)cmp + d < 0) continue;
        auto run = [&](uint32_t addr, uint32_t v) {
          fresh(); gm.s.x[5] = addr; gm.s.x[6] = v; gm.s.pc = CODE; put();
          ram[(CODE - 0x80000000u) >> 2] = S(0, 6, 5, 2); cpu.exec();
        };
        run(OPENSBI_TIMERCMP_LOW_ADDR, uint32_t(cmp)); run(OPENSBI_TIMERCMP_HIGH_ADDR, uint32_t(cmp >> 32));
        sim_time = (long long)cmp + d;
        fresh(); gm.s.csr[g::MIE] = 0x80; gm.s.csr[g::MSTATUS] = 8; gm.s.csr[g::MTVEC] = CODE + 0x400;
        mtip = d >= 0;
        one(P, NOPI, nullptr, 0, fmt(":timer cmp+%d", (int)d).c_str());
      }
    sim_time = 1000;
  });
}

// ------------------------------------------------------------ P05
static void p05() {
  const char *P = "P05";
  const uint32_t ROOT = 0x80100000u, L0 = 0x80101000u, PG = 0x80200000u, SP = 0x80400000u; // SP: 4MB aligned
  const uint32_t VA = 0x40000000u; // vpn1 = 0x100, vpn0 = 0
  struct Acc { uint32_t in; int type; const char *n; };
  const std::vector<Acc> acc = {
    {NOPI, 0, "fetch"}, {I(0, 5, 2, 7, 3), 1, "lw"}, {I(0, 5, 4, 7, 3), 1, "lbu"}, {S(0, 6, 5, 2), 2, "sw"}, {S(0, 6, 5, 0), 2, "sb"},
    {R(2 << 2, 0, 5, 2, 7, 0x2F), 1, "lr"}, {R(3 << 2, 6, 5, 2, 7, 0x2F), 2, "sc"}, {R(0, 6, 5, 2, 7, 0x2F), 2, "amoadd"}, {R(1 << 2, 6, 5, 2, 7, 0x2F), 2, "amoswap"}};
  auto prep = [&](uint8_t pv, uint32_t st, uint32_t satp) {
    fresh();
    gm.s.priv = pv;
    gm.s.csr[g::MSTATUS] = st; gm.s.csr[g::SSTATUS] = st & g::SSTATUS_M;
    gm.s.csr[g::SATP] = satp;
    gm.s.csr[g::MTVEC] = CODE + 0x400; gm.s.csr[g::STVEC] = CODE + 0x800;
    gm.s.csr[g::MEDELEG] = 0;
    cpu.state.reserve_valid = false;
  };
  auto run = [&](const Acc &ac, uint32_t va, uint32_t pa, const char *tag) {
    // the accessed translation is the fetch itself, or the data access of an instruction fetched in an identity-mapped page
    static uint32_t w[3];
    w[0] = pa & ~3u; w[1] = ROOT + (va >> 22) * 4; w[2] = L0 + ((va >> 12) & 1023) * 4;
    if (ac.type == 0) {
      // place an instruction at the physical page, fetch at va
      wboth(pa & ~3u, I(0x123, 0, 0, 7));
      gm.s.pc = va;
      put();
      uint64_t h = hash_case(gm.mem.rd(w[1]) * 31 + gm.mem.rd(w[2]));
      mc::visit(h);
      mc::trans();
      mc::current("P05 fetch %s va=%08x pte1=%08x pte0=%08x", tag, va, gm.mem.rd(w[1]), gm.mem.rd(w[2]));
      g::State pre = gm.s;
      golden_step();
      if (gm.e.unsupported) return;
      cpu.exec();
      if (!same_state())
        mc::violation(fmt("P05:fetch%s", tag), fmt("P05 fetch va=%08x pte1=%08x pte0=%08x priv=%d mstatus=%08x satp=%08x", va, gm.mem.rd(w[1]), gm.mem.rd(w[2]), pre.priv, pre.csr[g::MSTATUS], pre.csr[g::SATP]),
                      fmt("fetch va=%08x pte1=%08x pte0=%08x priv=%d mstatus=%08x:%s", va, gm.mem.rd(w[1]), gm.mem.rd(w[2]), pre.priv, pre.csr[g::MSTATUS], diff_state().c_str()));
      return;
    }
    gm.s.x[5] = va; gm.s.x[6] = 0x31415926;
    wboth(pa & ~3u, 0x27182818);
    // instruction fetched through a superpage mapping valid for the current mode
    uint32_t idx = CODE >> 22;
    wboth(ROOT + idx * 4, ((0x80000000u >> 12) << 10) | 0xCB | (gm.s.priv == 0 ? 0x10 : 0));
    mc::visit(mc::mix(hash_case(gm.mem.rd(w[1])), gm.mem.rd(w[2])));
    one(P, ac.in, w, 3, fmt(":%s%s", ac.n, tag).c_str());
  };
  mc::parallel([&](int, int) {
    for (uint32_t p = ROOT; p < ROOT + 0x4000; p += 4096) open_page(p);
    for (uint32_t p = PG; p < PG + 0x2000; p += 4096) open_page(p);
    for (uint32_t p = SP; p < SP + 0x2000; p += 4096) open_page(p);
    arm_timer(false);
    // (a) level-1 leaf: all 256 flag bytes x modes x status x access; (b) level-0 leaf: all 256 flags under a pointer with all flag variants
    for (int64_t k; (k = mc::take(512 + 64)) >= 0;) {
      for (uint8_t pv : {0, 1, 3})
        for (uint32_t sb = 0; sb < 8 * 3; ++sb) {
          uint32_t mpp = (sb / 8) == 2 ? 3 : sb / 8;
          uint32_t st = (sb & 1 ? 1u << 17 : 0) | (sb & 2 ? 1u << 18 : 0) | (sb & 4 ? 1u << 19 : 0) | (mpp << 11);
          for (auto &ac : acc) {
            prep(pv, st, 0x80000000u | (ROOT >> 12));
            gm.s.csr[g::MEDELEG] = (sb * 7 + k) % 3 == 0 ? 0xB000 : (k % 3) ? 0 : 0x1000 << (k % 4);
            uint32_t pa;
            if (k < 256) { // superpage leaf (or invalid, or pointer)
              bool ptr = !(k & 0xA) && (k & 1);
              wboth(ROOT + (VA >> 22) * 4, ptr ? ((L0 >> 12) << 10) | uint32_t(k) : ((SP >> 12) << 10) | uint32_t(k));
              wboth(L0, ((PG >> 12) << 10) | 0xDF);
              pa = ptr ? PG : SP;
            } else if (k < 512) {
              wboth(ROOT + (VA >> 22) * 4, ((L0 >> 12) << 10) | 1);
              wboth(L0, ((PG >> 12) << 10) | uint32_t(k - 256));
              pa = PG;
            } else { // pointer with software/global/user/A/D bits, level-0 with RSW bits
              uint32_t j = k - 512;
              wboth(ROOT + (VA >> 22) * 4, ((L0 >> 12) << 10) | 1 | ((j & 15) << 4) | ((j >> 4 & 1) ? 0x300 : 0));
              wboth(L0, ((PG >> 12) << 10) | 0xCF | ((j >> 5 & 1) ? 0x310 : 0x20));
              pa = PG;
            }
            const char *tag = k < 256 ? ":l1" : k < 512 ? ":l0" : ":ptr";
            run(ac, VA, pa, tag);
          }
        }
      if (k < 3) mc::sample("level-1 PTE flags %02x x 3 modes x 24 status settings x 9 access kinds", (unsigned)k);
    }
  });
  // (c) address bits: every VA bit, every PPN bit at both levels, superpage misalignment bits, satp PPN bits, satp.mode=0
  mc::parallel([&](int, int) {
    for (uint32_t p = ROOT; p < ROOT + 0x4000; p += 4096) open_page(p);
    arm_timer(false);
    for (int64_t k; (k = mc::take(1024 + 1024 + 20 + 10 + 18)) >= 0;) {
      for (auto &ac : acc) {
        if (k < 1024) { // every vpn1 (superpage -> SP frame)
          uint32_t va = (uint32_t(k) << 22) | 0x1234 & ~3u;
          if (va >> 22 == CODE >> 22) continue;
          open_page((SP + (va & 0x3FF000)));
          prep(1, 0x40000, 0x80000000u | (ROOT >> 12));
          wboth(ROOT + (va >> 22) * 4, ((SP >> 12) << 10) | 0xCF);
          run(ac, va, SP | (va & 0x3FFFFF), ":vpn1");
          wboth(ROOT + (va >> 22) * 4, 0);
        } else if (k < 2048) { // every vpn0
          uint32_t v0 = uint32_t(k - 1024), va = VA | (v0 << 12) | 0x5A8;
          open_page(PG);
          prep(1, 0, 0x80000000u | (ROOT >> 12));
          wboth(ROOT + (VA >> 22) * 4, ((L0 >> 12) << 10) | 1);
          wboth(L0 + v0 * 4, ((PG >> 12) << 10) | 0xCF);
          run(ac, va, PG | (va & 0xFFF), ":vpn0");
          wboth(L0 + v0 * 4, 0);
        } else if (k < 2068) { // every 4K frame number bit
          uint32_t fr = (0x80000000u >> 12) ^ (1u << (k - 2048)), pa = (fr << 12) | 0x7FC;
          bool inram = pa >= 0x80000000u && pa < 0xC0000000u;
          if (inram) open_page(pa & ~0xFFFu);
          if (!inram && ac.type == 0) continue;
          if (!inram && (pa >> 28) == 1) continue; // device window
          prep(1, 0, 0x80000000u | (ROOT >> 12));
          wboth(ROOT + (VA >> 22) * 4, ((L0 >> 12) << 10) | 1);
          wboth(L0, (fr << 10) | 0xCF);
          run(ac, VA | 0x7FC, pa, ":ppn");
        } else if (k < 2078) { // misaligned superpage: each low PPN bit
          prep(1, 0, 0x80000000u | (ROOT >> 12));
          wboth(ROOT + (VA >> 22) * 4, (((SP >> 12) | (1u << (k - 2068))) << 10) | 0xCF);
          open_page(SP);
          run(ac, VA, SP, ":misaligned");
        } else { // satp: bare mode and root position
          uint32_t j = uint32_t(k - 2078), root = 0x80800000u + (1u << (12 + (j % 9)));
          open_page(root); open_page(PG);
          prep(j < 9 ? 1 : 3, j < 9 ? 0 : 0x20800, (j & 1 ? 0x80000000u : 0) | (0x155 << 22 & 0x7FC00000u) | (root >> 12));
          if (!(j & 1)) { if (ac.type) { gm.s.priv = 1; } }
          uint32_t va = (j & 1) ? VA : PG + 0x10;
          wboth(root + (VA >> 22) * 4, ((SP >> 12) << 10) | 0xCF);
          open_page(SP);
          wboth(root + (CODE >> 22) * 4, ((0x80000000u >> 12) << 10) | 0xCB);
          run(ac, va, (j & 1) ? SP : va, ":satp");
        }
      }
    }
  });
  // (d) histories: fault then interrupt/ecall/other access: sequences over accesses with page-table edits between
  struct St { int kind; uint32_t v; const char *n; };
  const std::vector<St> A = {{0, 0, "fetch-fault page"}, {1, 0, "lw"}, {1, 1, "sw"}, {1, 2, "amoadd"}, {1, 3, "ecall"}, {1, 4, "nop"},
    {2, 0xCF, "pte:=rwx"}, {2, 0xC9, "pte:=x"}, {2, 0x00, "pte:=0"}, {2, 0xDF, "pte:=u rwx"}, {3, 0x40000, "sum"}, {3, 0, "nosum"}, {4, 0, "pend STI"}, {4, 1, "clear STI"}};
  const int D = thorough ? 7 : 6;
  uint64_t n = A.size(), tot = 1;
  for (int i = 0; i < D; ++i) tot *= n;
  mc::parallel([&](int, int) {
    for (uint32_t p = ROOT; p < ROOT + 0x4000; p += 4096) open_page(p);
    open_page(PG);
    arm_timer(false);
    static const uint32_t ins[] = {I(0, 5, 2, 7, 3), S(0, 6, 5, 2), R(0, 6, 5, 2, 8, 0x2F), 0x73, NOPI};
    for (int64_t k; (k = mc::take(tot, 64)) >= 0;) for (int64_t kk = k; kk < k + 64 && kk < (int64_t)tot; ++kk) {
      prep(1, 2, 0x80000000u | (ROOT >> 12));
      for (uint32_t i = 0; i < 4; ++i) wboth(ROOT + 0x800 + i * 4, 0);
      wboth(ROOT + (VA >> 22) * 4, ((L0 >> 12) << 10) | 1);
      wboth(L0, ((PG >> 12) << 10) | 0xCF);
      wboth(ROOT + (CODE >> 22) * 4, ((0x80000000u >> 12) << 10) | 0xCB);
      wboth(PG, 0x01);
      gm.s.csr[g::MEDELEG] = 0xB300; gm.s.csr[g::MIDELEG] = 0x222; gm.s.csr[g::MIE] = gm.s.csr[g::SIE] = 0x20;
      gm.s.csr[g::STVEC] = CODE + 0x800;
      mc::trace();
      uint64_t q = kk;
      std::string t;
      for (int i = 0; i < D; ++i) {
        const St &a = A[q % n]; q /= n;
        t += std::string(a.n) + "; ";
        if (a.kind == 2) { wboth(L0, ((PG >> 12) << 10) | a.v); continue; }
        if (a.kind == 3) { gm.s.csr[g::MSTATUS] = (gm.s.csr[g::MSTATUS] & ~0x40000u) | a.v; gm.s.csr[g::SSTATUS] = gm.s.csr[g::MSTATUS] & g::SSTATUS_M; continue; }
        if (a.kind == 4) { gm.s.csr[g::MIP] = gm.s.csr[g::SIP] = a.v ? 0 : 0x20; if (!a.v) { gm.s.csr[g::MSTATUS] |= 2; gm.s.csr[g::SSTATUS] |= 2; } continue; }
        gm.s.x[5] = VA; gm.s.x[6] = 3;
        uint32_t w[2] = {PG, L0};
        if (a.kind == 0) {
          gm.s.pc = 0x50000000u; put(); mc::trans();
          mc::visit(mc::mix(hash_case(1), gm.mem.rd(L0)));
          g::State pre = gm.s;
          golden_step(); cpu.exec();
          if (!same_state()) {
            mc::violation(fmt("P05:seq:fetch-fault%s", gm.e.interrupt ? ":irq-pending" : ""), "P05 seq " + t, "after " + t + diff_state()); break; }
        } else {
          gm.s.pc = CODE;
          if (!one(P, ins[a.v], w, 2, ":seq")) { mc::violation("P05:seq:" + std::string(a.n), "P05 seq " + t, "sequence diverges: " + t); break; }
        }
      }
    }
  });
}

int main(int argc, char **argv) {
  std::string sec = argc > 1 ? argv[1] : "P01";
  thorough = argc > 2 && std::string(argv[2]) == "thorough";
  mc::init(1ull << (thorough ? 33 : 31));
  boot();
  if (sec == "P01") p01();
  else if (sec == "P02") p02();
  else if (sec == "P03") p03();
  else if (sec == "P04") p04();
  else if (sec == "P05") p05();
  return mc::report();
}
