// P25: the core's CSR and trap unit against the privileged-ISA model.
#include "golden.h"
#include "mc.h"
#include "Csr.h"
#include <memory>
namespace G = golden;
long long sim_time = 0;

static const int NUM[] = {0x305, 0x341, 0x342, 0x304, 0x344, 0x343, 0x340, 0x300, 0x303, 0x302, 0x141, 0x105, 0x142, 0x140, 0x143, 0x100, 0x104, 0x144, 0x180, 0xf14, 0x301};
static const char *NAME[] = {"mtvec", "mepc", "mcause", "mie", "mip", "mtval", "mscratch", "mstatus", "mideleg", "medeleg", "sepc", "stvec", "scause", "sscratch", "stval", "sstatus", "sie", "sip", "satp", "mhartid", "misa"};
enum Ev : uint8_t { IDLE, EXEC, COMMIT, IRQ, ECALL_, PFI, PFL, PFS, ILL, MRET_, SRET_, NEV };
static const char *EVN[] = {"idle", "exec", "commit", "interrupt", "ecall", "fetch-fault", "load-fault", "store-fault", "illegal", "mret", "sret"};
struct Op { int csr; int cmd; bool we, re; uint32_t v; };
struct Act { Ev ev = IDLE; Op op{}; int ext = -1, tim = -1; uint32_t pc = 0x80001234, tval = 0; };
static std::string str(const Act &a) {
  std::string s = EVN[a.ev];
  if (a.ev == EXEC) s += mc::fmt(" %s cmd%d%s%s %08x", NAME[a.op.csr], a.op.cmd, a.op.we ? " we" : "", a.op.re ? " re" : "", a.op.v);
  if (a.ext >= 0) s += mc::fmt(" ext=%d", a.ext);
  if (a.tim >= 0) s += mc::fmt(" timer=%d", a.tim);
  return s;
}
static bool bad;
struct Sys {
  Csr c;
  ExeCsrIO e2c; RobCsrIO r2c; RobBroadcastIO rb; CsrInterruptInjectIO inj;
  CsrExeIO c2e; CsrRobIO c2r; CsrFrontIO c2f; CsrStatusIO st;
  G::State g;
  bool pend = false; Op op{};
  struct Fresh {};
  Sys(Fresh) { G::Machine m; g = m.s; bind(); c.init(); }
  static const Sys &image() { static Sys *p = new (calloc(1, sizeof(Sys))) Sys(Fresh()); return *p; }
  Sys() { *this = image(); }
  uint64_t hash() const { Sys t(*this); t.c.in = {}; t.c.out = {}; return mc::hash_bytes(&t.c, sizeof t.c, mc::hash_bytes(&g, sizeof g)); }
  void bind() { c.in = {&e2c, &r2c, &rb, &inj}; c.out = {&c2e, &c2r, &c2f, &st}; }
  Sys(const Sys &o) { *this = o; }
  Sys &operator=(const Sys &o) { memcpy((void *)this, (const void *)&o, sizeof *this); bind(); return *this; }
};
static std::vector<std::string> hist;
static std::string ctxs;
static void fail(Sys &s, const char *what, const std::string &t) {
  bad = true;
  std::string h = ctxs;
  for (auto &x : hist) h += "; " + x;
  mc::violation(std::string("P25:") + what, h, mc::fmt("history [%s]: %s", h.c_str(), t.c_str()));
}
static G::Machine &M() { static G::Machine m; return m; }
// one clock cycle; false if the action is not possible in this state
static bool cycle(Sys &s, const Act &a, bool full = true) {
  G::Machine &m = M();
  m.s = s.g;
  G::Irq q = m.pending_irq();
  if (a.ev == IRQ && !q.any) return false;
  if (a.ev >= COMMIT && a.ev != IRQ && q.any) return false; // the interrupt is taken instead
  if (a.ev == COMMIT && !s.pend) return false;
  if (s.pend && a.ev != COMMIT && a.ev != IRQ && a.ev != IDLE) return false; // a CSR instruction executes alone
  Csr &c = s.c;
  s.e2c = ExeCsrIO(); s.c2e = CsrExeIO(); s.r2c = RobCsrIO(); s.c2r = CsrRobIO(); s.c2f = CsrFrontIO();
  { RobBroadcastIO z; s.rb = z; }
  s.inj.external_irq_pending_valid = a.ext >= 0; s.inj.external_irq_pending = a.ext == 1;
  s.inj.timer_irq_pending_valid = a.tim >= 0; s.inj.timer_irq_pending = a.tim == 1;
  c.comb_csr_status();
  c.comb_begin();
  c.comb_interrupt();
  if ((bool)s.c2r.interrupt_req != q.any) { fail(s, "interrupt-request", mc::fmt("before %s: interrupt request %d, expected %d", str(a).c_str(), (int)s.c2r.interrupt_req, q.any)); return true; }
  m.s.pc = a.pc;
  bool trap = false, ret = false;
  s.rb.pc = a.ev >= COMMIT ? a.pc : 0; s.rb.flush = a.ev >= COMMIT;
  switch (a.ev) {
  case EXEC: s.e2c.we = a.op.we; s.e2c.re = a.op.re; s.e2c.idx = NUM[a.op.csr]; s.e2c.wcmd = a.op.cmd; s.e2c.wdata = a.op.v; s.pend = true; s.op = a.op; break;
  case COMMIT: s.r2c.commit = 1; break;
  case IRQ: s.r2c.interrupt_resp = 1; s.rb.interrupt = s.rb.exception = 1; m.take_irq(q); trap = true; s.pend = false; break;
  case ECALL_: s.rb.ecall = s.rb.exception = 1; m.except(m.s.priv == 3 ? 11 : 8 + m.s.priv, 0); trap = true; break;
  case PFI: s.rb.page_fault_inst = s.rb.exception = 1; s.rb.trap_val = a.tval; m.except(12, a.tval); trap = true; break;
  case PFL: s.rb.page_fault_load = s.rb.exception = 1; s.rb.trap_val = a.tval; m.except(13, a.tval); trap = true; break;
  case PFS: s.rb.page_fault_store = s.rb.exception = 1; s.rb.trap_val = a.tval; m.except(15, a.tval); trap = true; break;
  case ILL: s.rb.illegal_inst = s.rb.exception = 1; s.rb.trap_val = a.tval; m.except(2, a.tval); trap = true; break;
  case MRET_: s.rb.mret = 1; ret = true; break;
  case SRET_: s.rb.sret = 1; ret = true; break;
  default: break;
  }
  if (ret) m.xret(a.ev == MRET_);
  if (a.ev == COMMIT) {
    uint32_t old = m.s.csr[s.op.csr], v = s.op.v;
    if (s.op.we) m.csr_write(s.op.csr, s.op.cmd == 1 ? v : s.op.cmd == 2 ? (old | v) : (old & ~v));
    s.pend = false;
  }
  c.comb_csr_read();
  if (a.ev == EXEC && a.op.re && s.c2e.rdata != s.g.csr[a.op.csr]) { fail(s, "read", mc::fmt("%s reads %08x, expected %08x", NAME[a.op.csr], (uint32_t)s.c2e.rdata, s.g.csr[a.op.csr])); return true; }
  c.comb_exception();
  c.comb_csr_write();
  c.comb_interrupt_inject();
  if (trap && s.c2f.trap_pc != m.s.pc) { fail(s, "trap-pc", mc::fmt("%s redirects to %08x, expected %08x (cause %08x)", str(a).c_str(), (uint32_t)s.c2f.trap_pc, m.s.pc, m.e.cause)); return true; }
  if (ret && s.c2f.epc != m.s.pc) { fail(s, "return-pc", mc::fmt("%s redirects to %08x, expected %08x", str(a).c_str(), (uint32_t)s.c2f.epc, m.s.pc)); return true; }
  if (a.ext >= 0) { m.s.csr[G::MIP] = (m.s.csr[G::MIP] & ~0x800u) | (a.ext ? 0x800u : 0); m.s.csr[G::SIP] = m.s.csr[G::MIP] & G::SIE_M; }
  if (a.tim >= 0) { m.s.csr[G::MIP] = (m.s.csr[G::MIP] & ~0x80u) | (a.tim ? 0x80u : 0); m.s.csr[G::SIP] = m.s.csr[G::MIP] & G::SIE_M; }
  c.seq();
  s.g = m.s;
  mc::trans();
  c.comb_csr_status();
  if (s.st.privilege != m.s.priv) { fail(s, "privilege", mc::fmt("after %s: privilege %d, expected %d", str(a).c_str(), (int)s.st.privilege, m.s.priv)); return true; }
  if (s.st.mstatus != m.s.csr[G::MSTATUS] || s.st.sstatus != m.s.csr[G::SSTATUS] || s.st.satp != m.s.csr[G::SATP]) { fail(s, "status", mc::fmt("after %s: mstatus %08x sstatus %08x satp %08x, expected %08x %08x %08x", str(a).c_str(), (uint32_t)s.st.mstatus, (uint32_t)s.st.sstatus, (uint32_t)s.st.satp, m.s.csr[G::MSTATUS], m.s.csr[G::SSTATUS], m.s.csr[G::SATP])); return true; }
  if (full) {
    ExeCsrIO keep = s.e2c;
    for (int i = 0; i < G::NCSR; ++i) {
      s.e2c = ExeCsrIO(); s.e2c.re = 1; s.e2c.idx = NUM[i];
      c.comb_csr_read();
      if (s.c2e.rdata != m.s.csr[i]) { fail(s, mc::fmt("state-%s-%s", EVN[a.ev], NAME[i]).c_str(), mc::fmt("after %s: %s is %08x, expected %08x", str(a).c_str(), NAME[i], (uint32_t)s.c2e.rdata, m.s.csr[i])); return true; }
    }
    s.e2c = keep;
  }
  return true;
}
static void put(Sys &s, int csr, uint32_t v) { // csrrw without interference from interrupts
  Act a; a.ev = EXEC; a.op = {csr, 1, true, false, v}; cycle(s, a, false);
  a.ev = COMMIT; cycle(s, a, false);
}
static void enter(Sys &s, int priv, uint32_t mst) { // reach a privilege mode with a given mstatus image
  if (priv != 3) {
    put(s, G::MSTATUS, (uint32_t)priv << 11);
    Act a; a.ev = MRET_; cycle(s, a, false);
  }
  put(s, G::MSTATUS, mst);
}
static bool one(Sys &s, const Act &a) {
  bad = false; hist = {str(a)};
  return cycle(s, a);
}
static void base(Sys &s) {
  static const std::pair<int, uint32_t> v[] = {{G::MTVEC, 0x80010000}, {G::STVEC, 0x80020000}, {G::MEPC, 0x80003004}, {G::SEPC, 0x80005008}, {G::MCAUSE, 0x5}, {G::SCAUSE, 0x6}, {G::MTVAL, 0x1111}, {G::STVAL, 0x2222}, {G::MSCRATCH, 0xABCD0123}, {G::SSCRATCH, 0x12340567}, {G::SATP, 0x80080123}};
  for (auto &x : v) put(s, x.first, x.second);
}
static uint32_t spread(int bits, const uint32_t *b, int n) { uint32_t r = 0; for (int i = 0; i < n; ++i) if (bits >> i & 1) r |= b[i]; return r; }
static const uint32_t IB[] = {0x8, 0x80, 0x800, 0x2, 0x20, 0x200};
static const uint32_t EB[] = {1u << 2, 1u << 8, 1u << 9, 1u << 12, 1u << 13, 1u << 15};
static const uint32_t SB[] = {0x8, 0x2, 0x80, 0x20, 0x100}; // MIE SIE MPIE SPIE SPP
static const int PR[] = {0, 1, 3};

// every interrupt configuration: request and, if requested, delivery
static void irqs(bool quick) {
  mc::parallel([&](int, int) {
    for (int64_t i; (i = mc::take(3 * 4 * 64)) >= 0;) {
      int pr = PR[i % 3], en = (i / 3) % 4, dl = (int)(i / 12);
      mc::current("interrupts priv %d mie/sie %d mideleg bits %x", pr, en, dl);
      Sys b; base(b);
      put(b, G::MIDELEG, spread(dl, IB, 6));
      put(b, G::MTVEC, 0x80010000 | (dl & 1)); put(b, G::STVEC, 0x80020000 | (en & 1));
      enter(b, pr, spread(en, SB, 2) | (dl & 2 ? 0x1800 : dl & 4 ? 0x800 : 0) | (dl & 8 ? 0x120 : 0));
      for (int ie = 0; ie < 64; ++ie) {
        Sys s1(b); put(s1, G::MIE, spread(ie, IB, 6));
        for (int ip = 0; ip < 64; ++ip) {
          Sys s(s1); put(s, G::MIP, spread(ip, IB, 6));
          ctxs = mc::fmt("priv %d mie/sie %d mideleg %03x mie %03x mip %03x", pr, en, spread(dl, IB, 6), spread(ie, IB, 6), spread(ip, IB, 6));
          mc::visit(mc::hash_bytes(&s.g, sizeof s.g));
          mc::trace();
          Act a; a.ev = IRQ; a.tval = 0xdead; a.pc = 0x80004444;
          bool poss = one(s, a);
          if (!poss) { a.ev = IDLE; one(s, a); } // request must stay low
          else mc::count(1);
        }
      }
    }
  });
  (void)quick;
}
// every exception and return under every delegation, status and vector mode
static void traps(bool) {
  mc::parallel([&](int, int) {
    for (int64_t i; (i = mc::take(3 * 64 * 4)) >= 0;) {
      int pr = PR[i % 3], dl = (int)(i / 3) % 64, tv = (int)(i / 192);
      mc::current("traps priv %d medeleg bits %x vectors %d", pr, dl, tv);
      Sys b; base(b);
      put(b, G::MEDELEG, spread(dl, EB, 6) | 0x1u);
      put(b, G::MTVEC, 0x80010000 | (tv & 1)); put(b, G::STVEC, 0x80020000 | (tv >> 1));
      Sys p(b); enter(p, pr, 0);
      for (int st = 0; st < 32; ++st) for (int mpp = 0; mpp < 3; ++mpp) for (int x = 0; x < 2; ++x) {
        Sys q(p); put(q, G::MSTATUS, spread(st, SB, 5) | (uint32_t)PR[mpp] << 11 | (x ? 0x807E2000u : 0));
        ctxs = mc::fmt("priv %d mstatus %08x medeleg %08x mtvec %08x stvec %08x", pr, q.g.csr[G::MSTATUS], q.g.csr[G::MEDELEG], q.g.csr[G::MTVEC], q.g.csr[G::STVEC]);
        mc::visit(mc::hash_bytes(&q.g, sizeof q.g));
        for (int e = ECALL_; e < NEV; ++e) {
          Sys s(q);
          Act a; a.ev = (Ev)e; a.tval = 0x30002000u + e * 4; a.pc = 0x80004444;
          one(s, a); mc::trace(); mc::count(2);
        }
      }
    }
  });
}
// every CSR x access form x value over states, plus the shadows
static void accesses(bool quick) {
  static const uint32_t V[] = {0, 0xFFFFFFFF, 0x80000000, 0xAAAAAAAA, 0x55555555, 0x1800, 0x888, 0x222, 0x22, 0x100, 0x7FF9BB, 0x12345678, 0x333, 0x444, 0xBBB, 0x1F};
  const int nv = sizeof V / sizeof *V;
  mc::parallel([&](int, int) {
    for (int64_t i; (i = mc::take(19 * nv * 3)) >= 0;) {
      int csr = (int)(i % 19), pre = (int)(i / 19) % nv, pr = PR[i / (19 * nv)];
      mc::current("access to %s holding %08x in priv %d", NAME[csr], V[pre], pr);
      Sys b; base(b); enter(b, pr, 0);
      ctxs = mc::fmt("priv %d, %s written %08x", pr, NAME[csr], V[pre]);
      bad = false; hist = {};
      put(b, csr, V[pre]);
      for (int bg = 0; bg < 2 && !bad; ++bg) {
        Sys c(b);
        if (bg) { put(c, G::MIDELEG, 0x222); put(c, G::MEDELEG, 0xB1FF); if (!c.pend && csr != G::MIE) put(c, G::MIE, 0x800); }
        for (int cmd = 1; cmd <= 3; ++cmd) for (int v = 0; v < nv + 32; ++v) for (int f = 0; f < (quick ? 2 : 3); ++f) {
          uint32_t val = v < nv ? V[v] : 1u << (v - nv);
          Sys s(c); bad = false;
          Act a; a.ev = EXEC; a.op = {csr, cmd, f != 1, f != 2, val}; // both, read only, write only
          hist = {str(a)};
          cycle(s, a); if (bad) continue;
          Act d; 
          if (!cycle(s, d) || bad) continue; // stays unwritten until retirement
          a.ev = COMMIT; hist.push_back("commit");
          if (cycle(s, a)) { mc::visit(mc::hash_bytes(&s.g, sizeof s.g)); mc::trace(); mc::count(3); }
        }
      }
    }
  });
}
// all histories to a depth
static std::vector<Act> alpha() {
  std::vector<Act> r;
  auto ex = [&](int csr, int cmd, bool we, bool re, uint32_t v) { Act a; a.ev = EXEC; a.op = {csr, cmd, we, re, v}; r.push_back(a); };
  ex(G::MSCRATCH, 1, true, true, 0x11112222);
  ex(G::MSCRATCH, 2, false, true, 0);
  ex(G::MSTATUS, 2, true, true, 0xA);
  ex(G::MSTATUS, 1, true, true, 0x1880);
  ex(G::MIE, 1, true, false, 0xAAA);
  ex(G::MIP, 1, true, true, 0x222);
  ex(G::SIP, 3, true, true, 0x202);
  ex(G::MIDELEG, 1, true, true, 0x2A2);
  ex(G::MEDELEG, 1, true, true, 0xB305);
  ex(G::SSTATUS, 2, true, true, 0x122);
  ex(G::MEPC, 2, false, true, 0);
  Act a;
  for (int e : {COMMIT, IRQ, ECALL_, PFL, ILL, MRET_, SRET_}) { a = Act(); a.ev = (Ev)e; a.tval = 0x4000; r.push_back(a); }
  a = Act(); a.ext = 1; r.push_back(a);
  a = Act(); a.ext = 0; r.push_back(a);
  a = Act(); a.tim = 1; r.push_back(a);
  a = Act(); a.tim = 0; r.push_back(a);
  a = Act(); a.ev = COMMIT; a.ext = 1; r.push_back(a);
  a = Act(); a.ev = COMMIT; a.ext = 0; a.tim = 1; r.push_back(a);
  a = Act(); a.ev = IRQ; a.ext = 0; a.tim = 0; r.push_back(a);
  a = Act(); a.ev = ECALL_; a.tim = 1; r.push_back(a);
  return r;
}
static void dfs(const Sys &s, int depth, const std::vector<Act> &al) {
  for (auto &a : al) {
    Sys n(s); bad = false;
    hist.push_back(str(a));
    mc::trace();
    if (cycle(n, a) && !bad) {
      uint64_t h = mc::mix(n.hash(), n.pend * 1000003ull + depth);
      if (n.pend) h = mc::mix(h, n.op.csr + n.op.cmd * 64 + n.op.we * 256 + n.op.re * 512);
      if (mc::visit(h) && depth > 1) dfs(n, depth - 1, al);
      mc::beat();
    }
    hist.pop_back();
  }
}
static void histories(bool quick) {
  auto al = alpha();
  int n = (int)al.size(), depth = quick ? 9 : 11;
  mc::parallel([&](int, int) {
    for (int64_t i; (i = mc::take(2 * n * n)) >= 0;) {
      Sys s; base(s);
      ctxs = i % 2 ? "U-mode" : "M-mode";
      if (i % 2) { put(s, G::MIE, 0x0A0); enter(s, 0, 0); }
      bad = false; hist = {str(al[i / 2 % n])};
      mc::current("%s: %s; %s; ...", ctxs.c_str(), str(al[i / 2 % n]).c_str(), str(al[i / 2 / n]).c_str());
      if (!cycle(s, al[i / 2 % n]) || bad) continue;
      hist.push_back(str(al[i / 2 / n]));
      if (!cycle(s, al[i / 2 / n]) || bad) continue;
      dfs(s, depth - 2, al);
    }
  });
}
int main(int argc, char **argv) {
  bool quick = argc < 3 || !strcmp(argv[2], "quick");
  mc::init(1ull << 32);
  irqs(quick);
  traps(quick);
  accesses(quick);
  histories(quick);
  return mc::report({{"bounds", quick ? "all interrupt configurations, all traps x delegation x status, all accesses, histories to depth 9" : "as quick, histories to depth 11"}});
}
