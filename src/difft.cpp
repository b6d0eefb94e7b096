// P50: the lock-step comparison (diff/diff.cpp with the repository's own
// reference interpreter behind it). The core under test is played by the
// sequential model, so each step's reported state is known to be right; every
// program over the alphabet must then pass, and every single wrong field at
// every step must stop the run at that step.
#include "e2e.h"

long long sim_time = 0;
using namespace e2e;
namespace {
constexpr u32 PT = 0x80020000u, PT0 = 0x80021000u, VDATA = 0x00400000u; // VDATA: page-mapped region in the paged set-up
constexpr u32 DEV = 0x10000000u;
enum Special : u32 { DEV_LOAD = 0xFFFFFF01u, DEV_LOAD0, DEV_STORE, IRQ, READ_MIP, DMA };
struct Elem { const char *name; Code code; };
std::vector<Elem> A; // x20 data base, x21 other line, x22 unmapped, x23 read-only, x24 device
void alphabet() {
  A = {{"alu", {addi(5, 5, 3)}},
       {"lui", {lui(6, 0x12345000u)}},
       {"mul", {mul(7, 5, 6)}},
       {"div", {div_(7, 6, 5)}},
       {"x0", {addi(0, 5, 1)}},
       {"bt", {B(8, 5, 5, 0), addi(5, 5, 1)}},
       {"bn", {B(8, 5, 5, 1)}},
       {"jal", {J(8, 1), addi(5, 5, 1)}},
       {"lw", {lw(8, 0, 20)}},
       {"lb", {ld_(0, 8, 3, 20)}},
       {"sb1", {st_(0, 6, 1, 20)}},
       {"sb3", {st_(0, 5, 3, 20)}},
       {"sh2", {st_(1, 6, 2, 20)}},
       {"sw", {sw(6, 0, 20)}},
       {"sw2", {sw(5, 0, 21)}},
       {"amo", {amo(0, 9, 5, 20)}},
       {"swp", {amo(1, 9, 6, 21)}},
       {"lr", {amo(2, 9, 0, 20)}},
       {"sc", {amo(3, 10, 5, 20)}},
       {"sc2", {amo(3, 10, 5, 21)}},
       {"csr", {csrrw(11, 0x140, 5)}},  // sscratch
       {"sst", {csrrs(11, 0x100, 19)}}, // sstatus |= sum
       {"sip", {csrrs(11, 0x144, 0)}},
       {"ecall", {I_ECALL}},
       {"lpf", {lw(8, 0, 22)}},
       {"spf", {sw(5, 0, 23)}},
       {"apf", {amo(0, 9, 5, 23)}},
       {"jpf", {jalr(1, 22, 0)}},
       {"fence", {I_FENCE}},
       {"devl", {DEV_LOAD}},
       {"devl0", {DEV_LOAD0}},
       {"devs", {DEV_STORE}},
       {"irq", {IRQ}},
       {"rmip", {READ_MIP}},
       {"dma", {DMA}}};
}
const char *const field_name[] = {"next pc", "instruction", "fetch fault", "load fault", "store fault", "store kept from it",
                                  "store of its own", "store data", "store address", "register", "csr", "memory"};
enum Field { F_PC, F_INST, F_PFI, F_PFL, F_PFS, F_DROP, F_ADD, F_SDATA, F_SADDR, F_GPR, F_CSR };

Machine m;
bool synced;
u32 handled;
bool is_mip_access(u32 i) { return (i & 0x7F) == 0x73 && (i >> 20 == 0x344 || i >> 20 == 0x144); }
void report_state() {
  auto &d = dut_cpu;
  for (int i = 0; i < 32; ++i) d.gpr[i] = m.s.x[i];
  for (int i = 0; i < golden::NCSR; ++i) d.csr[i] = m.s.csr[i];
  if (!is_mip_access(m.e.inst)) d.csr[golden::MIP] &= ~0x880u;
  d.csr[golden::SIP] = d.csr[golden::MIP] & 0x333u;
  d.pc = m.s.pc;
  d.instruction = m.e.inst;
  d.commit_pc = m.e.pc;
  d.page_fault_inst = m.e.pf_inst;
  d.page_fault_load = m.e.pf_load;
  d.page_fault_store = m.e.pf_store;
  d.store = m.e.store;
  if (m.e.store) {
    d.store_addr = m.e.sraw_addr;
    d.store_data = m.e.sdata & m.e.smask;
  }
}
// memory of both sides: ours through the simulator's RAM
void both(u32 a, u32 v) { m.mem.wr(a, v); pmem_write(a, v); }

struct Setup { const char *name; bool paged; uint8_t priv; u32 mstatus, mie; };
const Setup setups[] = {{"M", false, 3, 0x1888, 0x80}, {"S", true, 1, 0x8, 0x80}, {"U", true, 0, 0x0, 0x80}};

// what all cases start from, made once before the workers
Machine base_image;
void image() {
  Code hand = {csrrs(12, 0x342, 0), csrrs(13, 0x341, 0), addi(13, 13, 4), csrrw(0, 0x341, 13), I_MRET};
  for (size_t i = 0; i < hand.size(); ++i) both(HANDLER + 4 * i, hand[i]);
  for (u32 i = 0; i < 32; ++i) both(DATA + 4 * i, 0x01020304u * (i + 1)), both(DATA + 64 + 4 * i, 0x80808080u ^ i);
  base_image = m;
  difftest_sync_ram_range_from_dut(0x80000000u, 0x30000);
}
void begin(const Setup &su, const std::vector<const Elem *> &prog, Code &code, u32 &end) {
  m = base_image;
  for (auto *e : prog) code = code + e->code;
  end = CODE + 4 * code.size();
  code.push_back(J(0, 0));
  for (size_t i = 0; i < code.size(); ++i) both(CODE + 4 * i, code[i]);
  const u32 u = su.priv == 0 ? 0x10 : 0;
  both(PT + 4 * 512, (0x80000000u >> 12 << 10) | 0xCF | u);       // 0x80000000: superpage
  both(PT + 4 * 1, (PT0 >> 12 << 10) | 1);
  both(PT0 + 0, (DATA >> 12 << 10) | 0xCF | u);                   // VDATA -> DATA
  both(PT0 + 4, 0);                                               // unmapped
  both(PT0 + 8, (DATA >> 12 << 10) | 0x43 | u);                   // read-only
  u32 *x = m.s.x;
  x[5] = 7; x[6] = 0x89ABCDEFu; x[19] = 1u << 18;
  x[20] = su.paged ? VDATA : DATA;
  x[21] = x[20] + 64;
  x[22] = su.paged ? VDATA + 4096 : DATA + 128;
  x[23] = su.paged ? VDATA + 8192 : DATA + 132;
  x[24] = DEV;
  m.set_mstatus(su.mstatus);
  m.s.csr[golden::MIE] = su.mie;
  m.s.csr[golden::MTVEC] = HANDLER;
  m.s.csr[golden::STVEC] = HANDLER;
  m.s.csr[golden::MEPC] = end;
  m.s.csr[golden::SATP] = su.paged ? 0x80000000u | PT >> 12 : 0;
  m.s.priv = su.priv;
  m.s.pc = CODE;
  m.e = golden::Effect();
  report_state();
  difftest_sync_ram_range_from_dut(CODE, 4 * code.size());
  difftest_sync_ram_range_from_dut(PT, 0x2000);
  difftest_sync_from_dut(m.s.priv);
}
// next event; false: program is over
bool next_event(const Code &code, u32 end) {
  synced = false;
  if (m.s.pc == end) return false;
  const u32 at = (m.s.pc - CODE) / 4;
  const u32 w = m.s.pc >= CODE && at < code.size() ? code[at] : 0;
  auto skip = [&](u32 inst) { m.e = golden::Effect(); m.e.pc = m.s.pc; m.e.inst = inst; m.s.pc += 4; synced = true; };
  switch (w) {
  case DEV_LOAD: skip(lw(14, 0, 24)); m.s.x[14] = 0xDEADBEEFu; return true;
  case DEV_LOAD0: skip(lw(14, 0, 24)); m.s.x[14] = 0; return true;
  case DEV_STORE:
    skip(sw(5, 0, 24));
    m.e.store = true; m.e.sraw_addr = DEV; m.e.sdata = m.s.x[5]; m.e.smask = ~0u;
    return true;
  case IRQ: {
    m.s.csr[golden::MIP] |= 0x80;
    auto q = m.pending_irq();
    m.s.csr[golden::MIP] &= ~0x80u;
    if (!q.any || handled++) { skip(I_NOP); return true; }
    m.take_irq(q);
    synced = true;
    return true;
  }
  case READ_MIP:
    skip(csrrs(14, 0x344, 0));
    m.s.x[14] = m.s.csr[golden::MIP];
    return true;
  case DMA: // a device wrote memory
    skip(I_NOP);
    both(DATA, 0x5A5A0001u);
    both(DATA + 64, 0x5A5A0002u);
    difftest_sync_ram_range_from_dut(DATA, 4);
    difftest_sync_ram_range_from_dut(DATA + 64, 4);
    return true;
  }
  m.step();
  return !m.e.unsupported;
}

bool survives(const std::function<void()> &f) {
  pid_t p = fork();
  if (!p) { f(); _exit(77); }
  int st = 0;
  waitpid(p, &st, 0);
  mc::trans();
  return WIFEXITED(st) && WEXITSTATUS(st) == 77;
}
std::string names(const Setup &su, const std::vector<const Elem *> &p) {
  std::string s = su.name;
  for (auto *e : p) s += std::string(" ") + e->name;
  return s;
}
void missed(const std::string &n, u32 k, Field f, int idx, const char *what) {
  mc::violation(mc::fmt("P50:wrong %s not reported", field_name[f]), n,
                mc::fmt("step %u (pc %08x inst %08x) reports a wrong %s%s (index %d), the comparison accepts it\n  program: %s", k, m.e.pc, m.e.inst,
                        field_name[f], what, idx, n.c_str()));
}
// every single wrong field of the step the model just made
void corrupt_all(const std::string &n, u32 k, bool dense) {
  auto &d = dut_cpu;
  auto try1 = [&](Field f, int idx, const char *what, const std::function<void()> &change) {
    if (survives([&] { change(); difftest_step(true); })) missed(n, k, f, idx, what);
    mc::count(2);
  };
  const std::vector<u32> pats = dense ? std::vector<u32>{1, 0x80000000u, 0x00010000u, ~0u} : std::vector<u32>{1};
  for (u32 p : {4u, 0x80000000u}) try1(F_PC, 0, "", [&] { d.pc ^= p; });
  if (!m.e.pf_inst) for (u32 b = dense ? 0 : 7; b < 32; b += dense ? 1 : 25) try1(F_INST, b, "", [&] { d.instruction ^= 1u << b; });
  try1(F_PFI, 0, "", [&] { d.page_fault_inst ^= 1; });
  try1(F_PFL, 0, "", [&] { d.page_fault_load ^= 1; });
  try1(F_PFS, 0, "", [&] { d.page_fault_store ^= 1; });
  if (m.e.store) {
    try1(F_DROP, 0, "", [&] { d.store = false; });
    for (u32 b = 0; b < 32; b += dense ? 1 : 7)
      if (m.e.smask >> b & 1) try1(F_SDATA, b, "", [&] { d.store_data ^= 1u << b; });
    for (u32 b = 0; b < 32; b += dense ? 1 : 6) try1(F_SADDR, b, "", [&] { d.store_addr ^= 1u << b; });
  } else {
    try1(F_ADD, 0, "", [&] { d.store = true; d.store_addr = DATA; d.store_data = 1; });
    try1(F_ADD, 1, "", [&] { d.store = true; }); // as the previous one
  }
  for (int i = 1; i < 32; ++i)
    for (u32 p : pats) try1(F_GPR, i, "", [&] { d.gpr[i] ^= p; });
  for (int i = 0; i < golden::NCSR; ++i) {
    if (i == golden::SIP) continue; // a view of mip
    for (u32 p : pats) {
      u32 v = p;
      if (i == golden::MIP) v = p == 1 ? 2 : 0x20; // the external and timer bits are not compared
      try1(F_CSR, i, "", [&] { d.csr[i] ^= v; });
    }
  }
}
// mode: 0 no wrong fields, 1 in the last element's steps, 2 in all steps
void program(const Setup &su, const std::vector<const Elem *> &prog, int mode) {
  const std::string n = names(su, prog);
  mc::current("%s", n.c_str());
  mc::beat();
  pid_t p = fork();
  if (!p) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    Code code;
    u32 end;
    handled = 0;
    begin(su, prog, code, end);
    // mode 1: wrong fields only in the steps of the last element
    const u32 last = end - 4 * prog.back()->code.size();
    for (u32 k = 0; k < 16; ++k) {
      if (!next_event(code, end)) break;
      report_state();
      mc::visit(mc::hash_bytes(&m.s, sizeof m.s, mc::hash_bytes(n.data(), n.size(), k)));
      if (synced) { difftest_sync_from_dut(m.s.priv); continue; }
      if (mode == 2 || (mode == 1 && m.e.pc >= last && m.e.pc < end)) corrupt_all(n, k, mode == 2);
      mc::current("%s step %u pc %08x inst %08x", n.c_str(), k, m.e.pc, m.e.inst);
      difftest_step(true);
      mc::trans();
    }
    mc::trace();
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st))
    mc::violation("P50:agreement reported as divergence", n, mc::fmt("the comparison stops the run (status %x) although every effect agrees\n  at: %s", st, mc::W().current));
}
// ranges a device hands over: exactly those bytes reach the reference
void ranges() {
  std::vector<std::pair<u32, u32>> undo;
  for (u32 a = 0; a < 8; ++a)
    for (u32 len = 0; len <= 12; ++len) {
      mc::current("range %u+%u", a, len);
      const bool ok = survives([&] {
        Code code;
        u32 end;
        Elem rd{"rd", {}};
        for (u32 i = 0; i < 8; ++i) rd.code.push_back(lw(8, 4 * i, 20));
        begin(setups[0], {&rd}, code, end);
        for (u32 i = 0; i < 32; ++i) { // new content, of which only the range is handed over
          const u32 old = m.mem.load(DATA + i, 1), v = uint8_t(0xE0 + i);
          m.mem.store(DATA + i, v, 1);
          pmem_write(DATA + (i & ~3u), m.mem.rd(DATA + (i & ~3u)));
          if (i < a || i >= a + len) undo.push_back({DATA + i, old});
        }
        difftest_sync_ram_range_from_dut(DATA + a, len);
        for (auto &u : undo) m.mem.store(u.first, u.second, 1);
        while (next_event(code, end)) { report_state(); difftest_step(true); }
      });
      if (!ok) mc::violation("P50:memory range", mc::fmt("range %u+%u", a, len), mc::fmt("after handing over %u bytes at offset %u the reference's memory is not what it should be", len, a));
      undo.clear();
      mc::trace();
    }
}
} // namespace

int main(int argc, char **argv) {
  const bool deep = argc > 2 && !strcmp(argv[2], "thorough");
  mc::init();
  alphabet();
  pmem_init();
  madvise((void *)(((uintptr_t)pmem_ram_ptr() + 4095) & ~uintptr_t(4095)), 0x3FFF0000u, MADV_DONTNEED); // still all zero
  init_difftest(0x30000);
  image();
  const int NS = 3, N = A.size();
  mc::parallel([&](int w, int) {
    int out = dup(1), nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    int64_t i;
    // families: single elements with every wrong field; pairs with wrong
    // fields in the last step; longer programs without wrong fields
    const int64_t n1 = N, n2 = (int64_t)N * N, n3 = n2 * N, n4 = deep ? n3 * N : 0;
    const int64_t tot = NS * (n1 + n2 + n3 + n4) + 1;
    while ((i = mc::take(tot, 4)) >= 0) {
      for (int64_t j = i; j < std::min(i + 4, tot); ++j) {
        if (j == tot - 1) { ranges(); continue; }
        const Setup &su = setups[j % NS];
        int64_t k = j / NS;
        auto P = [&](int64_t v, int len) {
          std::vector<const Elem *> r;
          for (int t = 0; t < len; ++t, v /= N) r.push_back(&A[v % N]);
          return r;
        };
        if (k < n1) program(su, P(k, 1), 2);
        else if ((k -= n1) < n2) program(su, P(k, 2), deep ? 2 : 1);
        else if ((k -= n2) < n3) program(su, P(k, 3), 0);
        else program(su, P(k - n3, 4), 0);
      }
    }
    fflush(stdout);
    dup2(out, 1);
    (void)w;
  });
  return mc::report();
}
