// P51: the oracle front end (diff/br_oracle.cpp with the repository's own
// interpreter behind it). The core is played by the sequential model: it takes
// the delivered groups, executes them, and asks for a refetch where the oracle
// waits for it, or, at every possible point, earlier.
#include "e2e.h"
#include "front_IO.h"
#include "oracle.h"

long long sim_time = 0;
CPU_state dut_cpu;
using namespace e2e;
namespace {
constexpr u32 PT = 0x80020000u, PTU = 0x80021000u, PROGS = 0x80100000u, SLOT = 192;
constexpr u32 DEVW = PLIC_ADDR_BASE + 0x100; // a plain device register
struct Elem { const char *name; Code code; bool again; bool priv; bool paged; }; // again: may be executed twice; priv: not in user mode; paged: needs translation
std::vector<Elem> A;
void alphabet() {
  A = {{"alu", {addi(5, 5, 3)}, true},
       {"nop", {addi(0, 5, 1)}, true},
       {"lui", {lui(6, 0x92345000u)}, true},
       {"bt", {B(8, 5, 5, 0), addi(5, 5, 1)}, true},
       {"bn", {B(8, 5, 5, 1)}, true},
       {"bl", {B(12, 5, 6, 4), addi(6, 6, 1), addi(5, 0, 9)}, true},
       {"bu", {B(12, 6, 5, 6), addi(6, 6, 1), addi(5, 0, 9)}, true},
       {"bg", {B(12, 5, 6, 5), addi(6, 6, 1), addi(5, 0, 9)}, true},
       {"loop", {addi(7, 0, 3), addi(7, 7, -1), B(-4, 0, 7, 1)}, true},
       {"jal", {J(12, 1), addi(5, 5, 1), addi(5, 5, 1)}, true},
       {"far", {J(8, 0), J(12, 0), J(-4, 0), addi(5, 5, 7)}, true},
       {"jalr", {auipc(1, 0), jalr(2, 1, 12), addi(5, 5, 1)}, true},
       {"sw", {sw(5, 0, 20)}, true},
       {"sb", {st_(0, 6, 5, 20)}, true},
       {"lw", {lw(8, 0, 20)}, false},
       {"lbr", {ld_(4, 8, 5, 20), B(8, 0, 8, 0), addi(5, 5, 1)}, false},
       {"amo", {amo(0, 9, 5, 20)}, false},
       {"lr", {amo(2, 9, 0, 20)}, false},
       {"sc", {amo(3, 10, 5, 20), B(8, 0, 10, 0), addi(5, 5, 1)}, false},
       {"devl", {lw(8, 0, 24), B(8, 5, 8, 0), addi(6, 6, 1)}, false},
       {"devs", {sw(5, 0, 24)}, false},
       {"csr", {csrrw(11, 0x140, 5)}, true, true},
       {"csrr", {csrrs(11, 0x140, 0)}, true, true},
       {"ecall", {I_ECALL}, true},
       {"sret", {auipc(1, 0), addi(1, 1, 20), csrrw(0, 0x141, 1), csrrs(0, 0x100, 19), I_SRET}, true, true},
       {"fence", {I_FENCE}, true},
       {"fencei", {I_FENCE_I}, true},
       {"sfence", {I_SFENCE}, true, true},
       {"jbad", {jalr(1, 25, 0)}, true, false, true},
       {"lbad", {lw(8, 0, 25)}, true, false, true}};
}
struct Setup { const char *name; bool paged; uint8_t priv; u32 mstatus; };
const Setup setups[] = {{"M", false, 3, 0x1800}, {"S", true, 1, 0x100}, {"U", true, 0, 0}};
Machine m;
CsrStatusIO cs;
front_top_in in;
front_top_out out;
void both(u32 a, u32 v) { m.mem.wr(a, v); pmem_write(a, v); }
struct Prog { u32 at, end; int e[4]; int len; int reg = 0; }; // reg: the program that changes only this register
std::vector<Prog> progs;
u32 x5(const Prog &p) { return 7 + (p.at & 0xFF00) * 3; }

void image(int len) {
  // a fetch fault returns to the caller, an interrupt to where it was, everything else behind the instruction
  Code hand = {csrrs(12, 0x342, 0), csrrs(13, 0x341, 0), B(8, 0, 12, 4), addi(13, 13, 4), addi(14, 0, 12), B(8, 14, 12, 1), addi(13, 1, 0), csrrw(0, 0x341, 13), I_MRET};
  for (size_t i = 0; i < hand.size(); ++i) both(HANDLER + 4 * i, hand[i]);
  for (u32 i = 0; i < 32; ++i) both(DATA + 4 * i, 0x01020300u * (i + 1));
  for (u32 t : {PT, PTU}) {
    const u32 f = t == PTU ? 0xDF : 0xCF;
    for (u32 i = 0; i < 64; ++i) both(t + 4 * (512 + i), ((0x80000000u + (i << 22)) >> 12 << 10) | f);
    // the handler's page is not mapped: only machine mode fetches from there
    for (u32 i = 1; i < 1024; ++i) both(t + 0x2000 + 4 * i, ((0x80000000u >> 12) + i) << 10 | f);
    both(t + 4 * 512, (t + 0x2000) >> 12 << 10 | 1);
    both(t + 4 * (DEVW >> 22), ((DEVW >> 22 << 22) >> 12 << 10) | f);
  }
  u32 at = PROGS;
  const int N = A.size();
  for (int L = 1; L <= len; ++L) {
    int64_t tot = 1;
    for (int i = 0; i < L; ++i) tot *= N;
    for (int64_t v = 0; v < tot; ++v)
      for (u32 off : {0u, 0x34u}) {
        if (L == 4 && !off) continue;
        Prog p{at + off, 0, {0}, L};
        Code c;
        int64_t r = v;
        for (int i = 0; i < L; ++i, r /= N) { p.e[i] = r % N; c = c + A[p.e[i]].code; }
        p.end = p.at + 4 * c.size();
        c.push_back(J(0, 0));
        for (size_t i = 0; i < c.size(); ++i) both(p.at + 4 * i, c[i]);
        progs.push_back(p);
        at += SLOT;
      }
  }
  for (u32 r = 1; r < 32; ++r, at += SLOT) {
    Prog p{at, 0, {0}, 0, int(r)};
    const Code c = {addi(r, r, 1), B(8, 0, r, 0), addi(r, r, 1), B(8, 0, r, 0), I_NOP, J(0, 0)};
    p.end = p.at + 4 * (c.size() - 1);
    for (size_t i = 0; i < c.size(); ++i) both(p.at + 4 * i, c[i]);
    progs.push_back(p);
  }
  for (auto &p : progs)
    if (p.len == 1 && !strcmp(A[p.e[0]].name, "devl")) { both(DEVW, x5(p)); break; }
  init_oracle(at - 0x80000000u);
}
std::string name(const Setup &su, const Prog &p) {
  std::string s = mc::fmt("%s @%02x", su.name, p.at & 63);
  for (int i = 0; i < p.len; ++i) s += std::string(" ") + A[p.e[i]].name;
  if (p.reg) s += mc::fmt(" only x%d", p.reg);
  return s;
}
void tell_core_state() {
  auto &d = dut_cpu;
  for (int i = 0; i < 32; ++i) d.gpr[i] = m.s.x[i];
  for (int i = 0; i < golden::NCSR; ++i) d.csr[i] = m.s.csr[i];
  d.pc = m.s.pc;
  d.reserve_valid = m.s.resv;
  d.reserve_addr = m.s.resv_addr;
  cs.mstatus = m.s.csr[golden::MSTATUS];
  cs.sstatus = m.s.csr[golden::SSTATUS];
  cs.satp = m.s.csr[golden::SATP];
  cs.privilege = m.s.priv;
}
void call(bool refetch) {
  in = front_top_in();
  static bool odd;
  memset((void *)&out, (odd = !odd) ? 0xAA : 0, sizeof out); // left over from elsewhere
  in.csr_status = &cs;
  in.FIFO_read_enable = true;
  in.refetch = refetch;
  in.refetch_address = refetch ? m.s.pc : 0xDEAD0000u;
  if (refetch) tell_core_state();
  get_oracle(in, out);
  mc::trans();
}
// after group `at`, the core drops the last `back` instructions (if it still can); irq: and takes an interrupt there
bool fetch(const Setup &su, const Prog &p, int at, int back, int *groups = nullptr, bool boot = false, bool irq = false) {
  const std::string n = name(su, p) + (at >= 0 ? mc::fmt(" refetch after group %d, %d back%s", at, back, irq ? ", interrupt" : "") : boot ? " from a checkpoint" : "");
  mc::current("%s", n.c_str());
  m.s = golden::State();
  m.s.csr[golden::MISA] = 0x40141103u;
  u32 *x = m.s.x;
  x[5] = x5(p); x[6] = 0x89ABCDEFu;
  x[19] = 0x100; x[20] = DATA; x[24] = DEVW; x[25] = 0x40000000u;
  static u32 starts;
  x[28] = x[29] = ++starts; // no start looks like the end of the program before
  if (p.reg) x[p.reg] = ~1u;
  m.set_mstatus(su.mstatus);
  m.s.csr[golden::MTVEC] = HANDLER;
  m.s.csr[golden::SATP] = su.paged ? 0x80000000u | (su.priv ? PT : PTU) >> 12 : 0;
  m.s.priv = su.priv;
  m.s.pc = p.at;
  m.s.resv = !(p.at & 63); // half of the programs start with a reservation
  m.s.resv_addr = m.s.resv ? DATA : 0;
  bool refetch = true, waits = false;
  if (boot) {
    x[5] = 0x01020377u;
    both(DEVW, x[5]);
    tell_core_state();
    const CPU_state saved = dut_cpu;
    dut_cpu = CPU_state();
    init_oracle_ckpt(saved, m.s.priv);
    refetch = false;
  }
  std::vector<golden::State> since; // states the core may still return to
  auto bad = [&](const char *key, const std::string &t) {
    mc::violation(std::string("P51:") + key, n, t + "\n  program: " + n);
    return false;
  };
  for (int g = 0, idle = 0; m.s.pc != p.end; ) {
    call(refetch);
    refetch = false;
    golden::State h = m.s;
    h.x[28] = h.x[29] = 0;
    mc::visit(mc::hash_bytes(&h, sizeof h, g * 64 + at * 8 + back));
    if (out.commit_stall) return bad("holds back retirement", "the oracle front end stalls the back end's retirement");
    if (!out.FIFO_valid) {
      for (int i = 0; i < FETCH_WIDTH; ++i)
        if (out.inst_valid[i]) return bad("instruction in an empty group", mc::fmt("no group is delivered but instruction %d is marked valid", i));
      if (!waits) return bad("stops", mc::fmt("nothing is delivered at pc %08x although nothing has to be waited for", m.s.pc));
      if (++idle < 2) continue; // keeps waiting
      refetch = true; waits = false; idle = 0;
      since.clear();
      continue;
    }
    if (idle) return bad("goes on by itself", mc::fmt("instructions are delivered at pc %08x without the refetch", m.s.pc));
    if (waits) { // may not have waited for this instruction: only where that is not required
      waits = false;
    }
    int last = -1;
    for (int i = 0; i < FETCH_WIDTH; ++i) if (out.inst_valid[i]) { if (last != i - 1) return bad("hole in a group", "a valid instruction follows an invalid one"); last = i; }
    if (last < 0) return bad("empty group", mc::fmt("a group without instructions is delivered at pc %08x", m.s.pc));
    u32 prev = 0;
    bool must_wait = false, over = false;
    for (int i = 0; i <= last; ++i) {
      if (must_wait) return bad("goes past", mc::fmt("instructions are delivered after %08x (%08x), whose outcome is the core's", m.e.pc, m.e.inst));
      if (out.pc[i] != m.s.pc) return bad("wrong pc", mc::fmt("delivers pc %08x, the program continues at %08x", (u32)out.pc[i], m.s.pc));
      if (i && (out.pc[i] != prev + 4 || ((out.pc[i] ^ prev) & ~u32(ICACHE_LINE_SIZE - 1))))
        return bad("group not in one line", mc::fmt("one group holds %08x and %08x", prev, (u32)out.pc[i]));
      prev = out.pc[i];
      since.push_back(m.s);
      m.step();
      if (bool(out.page_fault_inst[i]) != m.e.pf_inst) return bad("fetch fault", mc::fmt("a fetch fault is %sreported at %08x", m.e.pf_inst ? "not " : "", prev));
      if (!m.e.pf_inst && out.instructions[i] != m.e.inst) return bad("wrong instruction", mc::fmt("delivers %08x at pc %08x, memory holds %08x", (u32)out.instructions[i], prev, m.e.inst));
      const u32 op = m.e.pf_inst ? 0 : m.e.inst & 0x7F, f3 = m.e.inst >> 12 & 7;
      const bool jump = op == 0x6F || op == 0x67, taken = !m.e.trap && (jump || (op == 0x63 && m.s.pc != prev + 4));
      must_wait = m.e.trap || m.e.inst == I_MRET || m.e.inst == I_SRET || (op == 0x73 && f3);
      if (op == 0x73) { waits = true; since.clear(); }
      if (bool(out.predict_dir[i]) != taken) return bad("wrong direction", mc::fmt("%08x at %08x is delivered as %s", m.e.inst, prev, taken ? "not taken" : "taken"));
      if (m.s.pc == p.end) { over = true; break; }
    }
    if (over) break;
    if (!must_wait && out.predict_next_fetch_address != m.s.pc)
      return bad("wrong next address", mc::fmt("after the group ending at %08x the next address is given as %08x, the program continues at %08x", prev, (u32)out.predict_next_fetch_address, m.s.pc));
    if (must_wait) { // the very next call has to wait
      call(false);
      if (out.FIFO_valid) return bad("does not wait", mc::fmt("goes on after %08x (%08x), whose outcome is the core's", m.e.pc, m.e.inst));
      refetch = true; waits = false;
      since.clear();
    }
    if (g == at && (back || irq) && (int)since.size() >= back) {
      if (back) m.s = since[since.size() - back];
      if (irq && m.s.pc - HANDLER >= 64) m.trap_to(true, 0x80000007u, 0);
      since.clear();
      refetch = true; waits = false;
      mc::count(1);
    }
    if (++g > 60) return bad("no end", "the program does not come to its end");
    if (groups) *groups = g;
  }
  mc::trace();
  return true;
}
} // namespace

int main(int argc, char **argv) {
  const bool deep = argc > 2 && !strcmp(argv[2], "thorough");
  mc::init();
  alphabet();
  pmem_init();
  madvise((void *)(((uintptr_t)pmem_ram_ptr() + 4095) & ~uintptr_t(4095)), 0x3FFF0000u, MADV_DONTNEED); // still all zero
  image(deep ? 4 : 3);
  // starting at a checkpoint, one process: each start copies the whole memory
  mc::parallel([&](int w, int) {
    if (w) return;
    for (auto &su : setups)
      for (auto &p : progs) {
        std::string q;
        for (int i = 0; i < p.len; ++i) q += std::string(A[p.e[i]].name) + " ";
        if ((q == "devl alu lbr " || q == "alu sc lbr " || (su.priv && q == "devl csrr lbr ") || (su.paged && q == "devl lbad lbr ")) && !(p.at & 63) && !fetch(su, p, -1, 0, nullptr, true)) return;
      }
  });
  mc::parallel([&](int, int) {
    const int64_t tot = progs.size() * 3;
    for (int64_t k; (k = mc::take(tot, 16)) >= 0;)
      for (int64_t j = k; j < std::min(k + 16, tot); ++j) {
        const Setup &su = setups[j % 3];
        const Prog &p = progs[j / 3];
        bool skip = false, again = true;
        for (int i = 0; i < p.len; ++i) { skip |= (su.priv == 0 && A[p.e[i]].priv) || (!su.paged && A[p.e[i]].paged); again &= A[p.e[i]].again; }
        if (skip) continue;
        int groups = 0;
        if (!fetch(su, p, -1, 0, &groups)) return;
        if (!again || p.len > 3) continue;
        for (int at = 0; at < groups; ++at)
          for (int b = 0; b <= 8; ++b)
            if ((b && !fetch(su, p, at, b)) || !fetch(su, p, at, b, nullptr, false, true)) return;
      }
  });
  return mc::report();
}
