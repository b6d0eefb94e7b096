// P21: the reorder buffer against a program-order list of instructions.
#include "mc.h"
#include "Rob.h"
#include "SimCpu.h"
#include "types.h"
#include "util.h"
#include <deque>
#include <memory>

long long sim_time = 0;

enum K : uint8_t { _, A, L, S, B, M, Z, CS, EC, IL, FE, FI, SV, MR, SR, WF, EB, LF, SF, PF, MM, AM, MS, AF, NK };
static const char *KN[] = {"-", "alu", "load", "store", "br", "br-mis", "jalr-mis", "csr", "ecall", "illegal", "fence", "fence.i", "sfence", "mret", "sret", "wfi", "ebreak", "load-fault", "store-fault", "fetch-fault", "mmio-load", "amo", "mmio-store", "amo-fault"};
static int expect_of(int k) { switch (k) { case S: case SF: case MS: return ROB_CPLT_G1 | ROB_CPLT_G2; case B: case M: return ROB_CPLT_G1; case Z: return ROB_CPLT_G0 | ROB_CPLT_G1; case AM: case AF: return ROB_CPLT_G0 | ROB_CPLT_G1 | ROB_CPLT_G2; default: return ROB_CPLT_G0; } }
static InstType type_of(int k) { switch (k) { case L: case LF: case MM: return LOAD; case S: case SF: case MS: return STORE; case B: case M: return BR; case Z: return JALR; case CS: return CSR; case EC: return ECALL; case FE: return FENCE; case FI: return FENCE_I; case SV: return SFENCE_VMA; case MR: return MRET; case SR: return SRET; case WF: return WFI; case EB: return EBREAK; case AM: case AF: return AMO; default: return ADD; } }
static bool alone(int k) { return k == CS || k == AM || k == AF; }
static bool flushes(int k) { return k == CS || k == EC || k == IL || k == FI || k == SV || k == MR || k == SR || k == EB || k == LF || k == SF || k == PF || k == MM || k == MS || k == AF; }
static bool fences(int k) { return k == FE || k == FI || k == SV; }
static bool traps(int k) { return k == EC || k == IL || k == LF || k == SF || k == PF || k == AF; }

struct E { int k, id, rob, flag, expect, done; };
struct Grp { uint8_t k[DECODE_WIDTH]; };
struct Act { const Grp *g; int comp; bool irq, sp, fs; }; // comp: -1 none, -2 all, -3 newest, n>=0 nth pending operation
struct Sys {
  SimContext ctx;
  Rob r{&ctx};
  DisRobIO d2r; CsrRobIO c2r; LsuRobIO l2r; DecBroadcastIO bc; ExuRobIO x2r; FtqRobPcRespIO pcr; wire<1> fs;
  RobDisIO r2d; RobCsrIO r2c; RobCommitIO rc; RobBroadcastIO rb; FtqRobPcReqIO pcq;
  std::deque<E> fl;
  int mis = -1; // id of the mispredicted branch announced next
  int next = 1, idle = 0;
  bool bad = false, accepted = false;
  std::string hist;
  Sys() { bind(); r.init(); }
  Sys(const Sys &o) : ctx(o.ctx), r(o.r), fl(o.fl), mis(o.mis), next(o.next), idle(o.idle), bad(o.bad), hist(o.hist) { r.ctx = &ctx; bind(); }
  void bind() { r.in = {&d2r, &c2r, &l2r, &bc, &x2r, &pcr, &fs}; r.out = {&r2d, &r2c, &rc, &rb, &pcq}; }
};
static std::string pre;
static void fail(Sys &s, const char *w, const std::string &t) {
  s.bad = true;
  mc::violation(std::string("P21:") + w, pre + s.hist, mc::fmt("history [%s%s]: %s", pre.c_str(), s.hist.c_str(), t.c_str()));
}
static uint32_t pc_of(int id) { return 0x80000000u + id * 4; }
static void fill_uop(DisRobIO::DisRobInst &u, const E &e) {
  u = DisRobIO::DisRobInst();
  u.diag_val = 0xFACE0000u + e.id; u.dest_areg = e.id % 31 + 1; u.dest_preg = e.id % PRF_NUM; u.old_dest_preg = (e.id * 7) % PRF_NUM;
  u.ftq_idx = e.id % FTQ_SIZE; u.ftq_offset = (e.id / FTQ_SIZE) % FETCH_WIDTH; u.ftq_is_last = e.id & 1;
  u.type = encode_inst_type(type_of(e.k)); u.dest_en = (e.id >> 1) & 1; u.is_atomic = e.k == AM || e.k == AF; u.func3 = 2; u.func7 = u.is_atomic ? 0 : (e.id & 0x7f);
  u.rob_idx = e.rob; u.rob_flag = e.flag; u.stq_idx = e.id % STQ_SIZE; u.stq_flag = (e.id >> 2) & 1; u.expect_mask = e.expect;
  u.page_fault_inst = e.k == PF; u.illegal_inst = e.k == IL; u.is_ret = (e.id >> 3) & 1;
  u.tma.mem_commit_is_load = e.k == L || e.k == LF || e.k == MM || e.k == AM || e.k == AF; u.tma.mem_commit_is_store = e.k == S || e.k == SF || e.k == AM || e.k == MS || e.k == AF;
  u.dbg.inst_idx = e.id; u.dbg.pc = pc_of(e.id);
}
static bool complete(const E &e) { return e.done == e.expect; }
// is a older than b, as the core compares them
static bool older(const E &a, const E &b) { return a.flag == b.flag ? a.rob < b.rob : a.rob > b.rob; }
struct Opn { int i, g; };
static std::vector<Opn> pending(const Sys &s) {
  std::vector<Opn> r;
  for (int i = 0; i < (int)s.fl.size(); ++i) for (int g = 1; g <= 4; g <<= 1) if ((s.fl[i].expect & g) && !(s.fl[i].done & g)) r.push_back({i, g});
  return r;
}
// false: not applicable
static bool cycle(Sys &s, const Act &a) {
  Rob &r = s.r;
  mc::trans();
  std::string ev = " {";
  if (a.g) for (int i = 0; i < DECODE_WIDTH; ++i) ev += std::string(i ? "," : "") + KN[a.g->k[i]];
  if (a.irq) ev += " irq"; if (a.sp) ev += " store-pending"; if (a.fs) ev += " front-stall";
  if (s.mis >= 0) ev += mc::fmt(" mispredict#%d", s.mis);
  std::vector<Opn> todo;
  { auto p = pending(s);
    if (a.comp == -2) todo = p; else if (a.comp == -3) { if (p.empty()) return false; todo = {p.back()}; }
    else if (a.comp >= 0) { if (a.comp >= (int)p.size()) return false; todo = {p[a.comp]}; } }
  int sq = -1; // index of the redirecting branch
  if (s.mis >= 0) for (int i = 0; i < (int)s.fl.size(); ++i) if (s.fl[i].id == s.mis) sq = i;
  s.bc = DecBroadcastIO();
  if (s.mis >= 0) { s.bc.mispred = 1; s.bc.redirect_rob_idx = s.fl[sq].rob; }
  s.c2r.interrupt_req = a.irq; s.l2r.committed_store_pending = a.sp; s.fs = a.fs;
  s.rc = RobCommitIO(); s.rb = RobBroadcastIO(); s.r2c = RobCsrIO(); s.x2r = ExuRobIO(); s.d2r = DisRobIO(); s.pcr = FtqRobPcRespIO();
  s.ctx.exit_reason = ExitReason::NONE;
  r.comb_begin(); r.comb_ready(); r.comb_ftq_pc_req();
  if (s.pcq.req[0].valid) {
    int id = -1;
    for (auto &e : s.fl) { DisRobIO::DisRobInst u; fill_uop(u, e); if (u.ftq_idx == s.pcq.req[0].ftq_idx && u.ftq_offset == s.pcq.req[0].ftq_offset) { id = e.id; break; } }
    s.pcr.resp[0].valid = s.pcr.resp[0].entry_valid = 1; s.pcr.resp[0].pc = id < 0 ? 0xDEAD0000u : pc_of(id);
  }
  r.comb_commit();
  std::vector<int> got; std::vector<const RobCommitIO::RobCommitInst *> gu;
  for (int i = 0; i < COMMIT_WIDTH; ++i) if (s.rc.commit_entry[i].valid) { got.push_back((int)s.rc.commit_entry[i].uop.dbg.inst_idx); gu.push_back(&s.rc.commit_entry[i].uop); }
  const bool flush = s.rb.flush;
  auto H = [&] { s.hist += ev + "}"; };
  // what the other units are told about the oldest instruction
  if ((bool)s.rb.head_valid != !s.fl.empty()) { H(); fail(s, "head", mc::fmt("oldest instruction announced %d with %zu in flight", (int)s.rb.head_valid, s.fl.size())); return true; }
  if (!s.fl.empty() && (int)s.rb.head_rob_idx != s.fl[0].rob) { H(); fail(s, "head", "announced oldest instruction is not the oldest"); return true; }
  if (s.rb.head_incomplete_valid) {
    int i = 0; while (i < (int)s.fl.size() && complete(s.fl[i])) ++i;
    if (i == (int)s.fl.size() || s.fl[i].rob != (int)s.rb.head_incomplete_rob_idx) { H(); fail(s, "head-incomplete", "announced next instruction to complete is not the oldest incomplete one"); return true; }
  } else if (!s.fl.empty() && !complete(s.fl[0])) { H(); fail(s, "head-incomplete", "the oldest instruction is incomplete but not announced"); return true; }
  if (s.r2d.empty && !s.fl.empty()) { H(); fail(s, "empty", "reported empty with instructions in flight"); return true; }
  // retirement
  bool cleared = false;
  if (s.r2c.interrupt_resp || s.rb.interrupt) {
    if (!a.irq || s.fl.empty()) { H(); fail(s, "spurious-interrupt", "interrupt taken without a request or an instruction"); return true; }
    if (!s.r2c.interrupt_resp || !s.rb.interrupt || !flush || !s.rb.exception || s.rb.pc != pc_of(s.fl[0].id)) { H(); fail(s, "interrupt", mc::fmt("interrupt at pc %08x, expected %08x", (uint32_t)s.rb.pc, pc_of(s.fl[0].id))); return true; }
    if (sq >= 0) { H(); fail(s, "interrupt", "interrupt taken while a misprediction is being repaired"); return true; }
    if (s.rb.ecall || s.rb.mret || s.rb.sret || s.rb.page_fault_inst || s.rb.page_fault_load || s.rb.page_fault_store || s.rb.illegal_inst || s.rb.fence || s.rb.fence_i || s.r2c.commit || got.size() > 1 || (got.size() && got[0] != s.fl[0].id)) { H(); fail(s, "interrupt", "another event reported together with the interrupt"); return true; }
    cleared = true;
    mc::count(1);
  } else {
    for (size_t i = 0; i < got.size(); ++i) {
      if (i >= s.fl.size() || s.fl[i].id != got[i]) { H(); fail(s, "order", mc::fmt("instruction #%d retires, expected #%d", got[i], i < s.fl.size() ? s.fl[i].id : -1)); return true; }
      const E &e = s.fl[i];
      if (!complete(e)) { H(); fail(s, "incomplete", mc::fmt("%s #%d retires before all its operations completed", KN[e.k], e.id)); return true; }
      if (sq >= 0 && (int)i > sq) { H(); fail(s, "squashed", mc::fmt("squashed #%d retires", e.id)); return true; }
      if (fences(e.k) && a.sp) { H(); fail(s, "fence", mc::fmt("%s #%d retires with committed stores pending", KN[e.k], e.id)); return true; }
      if (i && (flushes(s.fl[i].k) || flushes(s.fl[i - 1].k))) { H(); fail(s, "not-alone", mc::fmt("%s retires together with others", KN[e.k])); return true; }
      DisRobIO::DisRobInst u; fill_uop(u, e);
      auto &c = *gu[i];
      bool br = e.k == B || e.k == M || e.k == Z;
      if (c.dest_areg != u.dest_areg || c.dest_preg != u.dest_preg || c.old_dest_preg != u.old_dest_preg || c.dest_en != u.dest_en || c.ftq_idx != u.ftq_idx || c.ftq_offset != u.ftq_offset ||
          c.rob_idx != u.rob_idx || c.rob_flag != u.rob_flag || c.stq_idx != u.stq_idx || c.stq_flag != u.stq_flag || c.func7 != u.func7 || c.type != u.type || c.is_ret != u.is_ret ||
          c.page_fault_inst != (e.k == PF) || (e.k != AF && c.page_fault_load != (e.k == LF)) || c.page_fault_store != (e.k == SF || e.k == AF) || c.illegal_inst != (e.k == IL) || c.flush_pipe != (e.k == MM || e.k == MS)) { H(); fail(s, "payload", mc::fmt("%s #%d retires with altered fields", KN[e.k], e.id)); return true; }
      if (br && (c.mispred != (e.k != B) || c.br_taken != (e.id & 1))) { H(); fail(s, "branch-outcome", mc::fmt("%s #%d retires with another outcome", KN[e.k], e.id)); return true; }
      bool last = u.ftq_is_last || e.k == M || e.k == Z;
      if (c.ftq_is_last != last) { H(); fail(s, "fetch-block-end", mc::fmt("%s #%d: end of fetch block %d, expected %d", KN[e.k], e.id, (int)c.ftq_is_last, last)); return true; }
    }
    int k = got.empty() ? 0 : s.fl[0].k;
    if (flush != (k && flushes(k))) { H(); fail(s, "flush", mc::fmt("flush %d when %s retires", (int)flush, KN[k])); return true; }
    if (s.rb.exception != (k && traps(k)) || s.rb.ecall != (k == EC) || s.rb.mret != (k == MR) || s.rb.sret != (k == SR) || s.rb.page_fault_inst != (k == PF) || s.rb.page_fault_load != (k == LF) || s.rb.page_fault_store != (k == SF || k == AF) || s.rb.illegal_inst != (k == IL) || s.rb.fence != (k == SV) || s.rb.fence_i != (k == FI) || s.r2c.commit != (k == CS)) { H(); fail(s, "event", mc::fmt("wrong event reported when %s retires", KN[k])); return true; }
    if (flush) {
      const E &e = s.fl[0];
      if (s.rb.pc != pc_of(e.id)) { H(); fail(s, "pc", mc::fmt("event pc %08x, expected %08x", (uint32_t)s.rb.pc, pc_of(e.id))); return true; }
      uint32_t tv = k == PF ? pc_of(e.id) : k == IL ? 0xFACE0000u + e.id : 0x30000000u + e.id;
      if ((k == PF || k == IL || k == LF || k == SF || k == AF) && s.rb.trap_val != tv) { H(); fail(s, "trap-value", mc::fmt("trap value %08x, expected %08x", (uint32_t)s.rb.trap_val, tv)); return true; }
      cleared = true;
      mc::count(2);
    }
    ExitReason want = k == EB ? ExitReason::EBREAK : k == WF ? ExitReason::WFI : ExitReason::NONE;
    if (s.ctx.exit_reason != want) { H(); fail(s, "exit", mc::fmt("exit reason %d when %s retires", (int)s.ctx.exit_reason, KN[k])); return true; }
    bool blocked = a.fs || a.irq || sq >= 0 || (!s.fl.empty() && fences(s.fl[0].k) && a.sp);
    if (!s.fl.empty() && complete(s.fl[0]) && got.empty() && !blocked) { if (++s.idle > 2) { H(); fail(s, "stuck", mc::fmt("complete oldest instruction %s #%d does not retire", KN[s.fl[0].k], s.fl[0].id)); return true; } }
    else s.idle = 0;
  }
  size_t retired = cleared ? 0 : got.size();
  // completions (execution drops those of squashed instructions)
  int nalu = 0, nld = 0, nsta = 0, nstd = 0, nbr = 0, newmis = -1;
  if (!cleared) for (auto &o : todo) {
    if (o.i < (int)retired || (sq >= 0 && o.i > sq)) continue;
    E &e = s.fl[o.i];
    int port; UopType op;
    bool mem = e.k == L || e.k == LF || e.k == MM || e.k == AM || e.k == S || e.k == SF || e.k == MS || e.k == AF, br = e.k == B || e.k == M || e.k == Z;
    if (o.g == ROB_CPLT_G0 && mem) { if (nld >= LSU_LOAD_WB_WIDTH) continue; port = IQ_LD_PORT_BASE + nld++; op = UOP_LOAD; }
    else if (o.g == ROB_CPLT_G0) { if (nalu >= ALU_NUM) continue; port = IQ_ALU_PORT_BASE + nalu++; op = UOP_ADD; }
    else if (o.g == ROB_CPLT_G1 && br) { if (nbr >= BRU_NUM) continue; port = IQ_BR_PORT_BASE + nbr++; op = e.k == Z ? UOP_JUMP : UOP_BR; }
    else if (o.g == ROB_CPLT_G1) { if (nsta >= LSU_STA_COUNT) continue; port = IQ_STA_PORT_BASE + nsta++; op = UOP_STA; }
    else { if (nstd >= 2) continue; port = IQ_STD_PORT_BASE + nstd++; op = UOP_STD; }
    auto &w = s.x2r.entry[port];
    w.valid = 1; w.uop.rob_idx = e.rob; w.uop.op = encode_uop_type(op); w.uop.diag_val = 0x80000000u + e.id * 64; w.uop.result = 0x30000000u + e.id;
    if (e.k == LF) w.uop.page_fault_load = 1;
    if (e.k == SF && o.g == ROB_CPLT_G1) w.uop.page_fault_store = 1;
    if (e.k == AF) (o.g == ROB_CPLT_G0 ? w.uop.page_fault_load : w.uop.page_fault_store) = o.g != ROB_CPLT_G2;
    if (e.k == MM || (e.k == MS && o.g == ROB_CPLT_G1)) w.uop.flush_pipe = 1;
    if (br && o.g == ROB_CPLT_G1) { w.uop.mispred = e.k != B; w.uop.br_taken = e.id & 1; w.uop.diag_val = 0x80000000u; if (e.k != B && (newmis < 0 || e.id < newmis)) newmis = e.id; }
    e.done |= o.g;
    ev += mc::fmt(" done#%d.%d", e.id, o.g);
  }
  r.comb_complete();
  r.comb_branch();
  // dispatch
  s.accepted = false;
  const bool can = s.r2d.ready && !s.r2d.stall && !flush && sq < 0;
  std::vector<E> add;
  if (a.g && can) {
    bool ok = true;
    for (int i = 0; i < DECODE_WIDTH; ++i) if (a.g->k[i] != _ && alone(a.g->k[i]) && (!s.r2d.empty || i)) ok = false;
    if (ok) {
      for (int i = 0; i < DECODE_WIDTH; ++i) if (a.g->k[i] != _) {
        E e{a.g->k[i], s.next++, (int)make_rob_idx(s.r2d.enq_idx, i), (int)s.r2d.rob_flag, expect_of(a.g->k[i]), 0};
        fill_uop(s.d2r.uop[i], e); s.d2r.valid[i] = s.d2r.dis_fire[i] = 1;
        add.push_back(e);
        ev += mc::fmt(" +#%d", e.id);
        if (alone(e.k)) break;
      }
      s.accepted = true;
    }
  }
  H();
  r.comb_fire(); r.comb_flush(); r.seq();
  for (size_t i = 0; i < retired; ++i) s.fl.pop_front();
  if (cleared) { s.fl.clear(); add.clear(); newmis = -1; s.idle = 0; }
  if (sq >= 0) while (!s.fl.empty() && s.fl.back().id > s.mis) s.fl.pop_back();
  for (auto &e : add) {
    for (auto &o : s.fl) { if (o.rob == e.rob) { fail(s, "slot-twice", mc::fmt("#%d is given the slot of #%d, still in flight", e.id, o.id)); return true; }
      if (!older(o, e)) { fail(s, "age", mc::fmt("#%d compares older than #%d", e.id, o.id)); return true; } }
    s.fl.push_back(e);
  }
  s.mis = newmis;
  return true;
}
// everything left completes and retires
static void drain(Sys &s) {
  Act a{nullptr, -2, false, false, false};
  for (int t = 0; t < 300 && !s.bad; ++t) {
    if (s.fl.empty() && s.mis < 0) break;
    cycle(s, a);
  }
  if (s.bad) return;
  if (!s.fl.empty()) { fail(s, "stuck", mc::fmt("%zu instructions never retire", s.fl.size())); return; }
  a.comp = -1;
  cycle(s, a); if (s.bad) return;
  s.r.comb_begin(); s.r.comb_ready();
  if (!s.r2d.ready || !s.r2d.empty || s.r2d.stall) fail(s, "idle", mc::fmt("with nothing in flight: ready %d empty %d stall %d", (int)s.r2d.ready, (int)s.r2d.empty, (int)s.r2d.stall));
}
static void prelude(Sys &s, int off) { // move the ring by off lines
  static const Grp g{{A, A}};
  pre = mc::fmt("ring offset %d:", off);
  for (int i = 0; i < off && !s.bad; ++i) { Act a{&g, -1, false, false, false}; cycle(s, a); }
  Act a{nullptr, -2, false, false, false};
  for (int t = 0; t < 80 && !s.fl.empty() && !s.bad; ++t) cycle(s, a);
  if (!s.fl.empty() && !s.bad) fail(s, "stuck", "prelude does not retire");
  s.hist.clear();
}
static const Grp NONE{{_, _}};
struct Env { int irq0 = -1, irq1 = -1, sp1 = 0, fs1 = 0; };
static uint64_t leaves;
static void dfs(const Sys &s, const std::vector<Grp> &prog, size_t at, int t, int depth, bool full, const Env &v) {
  int nc = full ? (int)pending(s).size() : 1;
  for (int q = 0; q < (at < prog.size() ? 2 : 1); ++q)
    for (int c = -3; c < nc; ++c) {
      if (!full && c == -3 && nc == 0) continue;
      if (at < prog.size() && c == -1 && q == 1) continue; // a cycle without any event
      Sys n(s);
      Act a{q == 0 && at < prog.size() ? &prog[at] : nullptr, c, t >= v.irq0 && t < v.irq1, t < v.sp1, t < v.fs1};
      if (!cycle(n, a)) continue;
      if (n.bad) continue;
      if (a.g && !n.accepted && n.r2d.empty) continue;
      mc::beat();
      if (t + 1 < depth) dfs(n, prog, at + (n.accepted ? 1 : 0), t + 1, depth, full, v);
      else { drain(n); mc::trace(); }
    }
}
int main(int argc, char **argv) {
  bool quick = argc < 3 || !strcmp(argv[2], "quick");
  mc::init();
  // 1: all schedules of two groups, every kind in every slot, all events
  std::vector<Grp> g1;
  for (int k = A; k < NK; ++k) { g1.push_back({{(uint8_t)k, _}}); if (!alone(k)) { g1.push_back({{(uint8_t)k, A}}); g1.push_back({{A, (uint8_t)k}}); g1.push_back({{_, (uint8_t)k}}); } }
  std::vector<Grp> g2 = {{{A, A}}, {{S, L}}, {{M, A}}, {{FE, L}}, {{L, LF}}};
  std::vector<Env> envs = {{}, {1, 2, 0, 0}, {2, 4, 0, 0}, {3, 9, 0, 0}, {-1, -1, 4, 0}, {-1, -1, 0, 4}};
  mc::parallel([&](int, int) {
    size_t n = g1.size() * g2.size() * 2 * envs.size() * 2;
    for (int64_t i; (i = mc::take(n)) >= 0;) {
      size_t j = i;
      const Grp &x = g1[j % g1.size()]; j /= g1.size();
      const Grp &y = g2[j % g2.size()]; j /= g2.size();
      bool swap = j % 2; j /= 2;
      const Env &v = envs[j % envs.size()]; j /= envs.size();
      int off = j ? ROB_LINE_NUM - 1 : 0;
      mc::current("groups %s,%s + %s,%s", KN[x.k[0]], KN[x.k[1]], KN[y.k[0]], KN[y.k[1]]);
      Sys s; prelude(s, off); if (s.bad) continue;
      mc::visit(mc::mix(i, 1));
      dfs(s, swap ? std::vector<Grp>{y, x} : std::vector<Grp>{x, y}, 0, 0, quick ? 4 : 5, true, v);
    }
  });
  // 2: three groups, completion in and out of order
  std::vector<Grp> g3 = {{{A, A}}, {{_, L}}, {{S, L}}, {{M, A}}, {{A, M}}, {{Z, B}}, {{LF, A}}, {{A, FE}}, {{FE, S}}, {{B, SF}}, {{L, EC}}, {{MM, M}}};
  mc::parallel([&](int, int) {
    size_t m = g3.size();
    for (int64_t i; (i = mc::take(m * m * m * 2)) >= 0;) {
      mc::current("three groups %d", (int)i);
      Sys s; prelude(s, i / (m * m * m) ? ROB_LINE_NUM - 2 : 3); if (s.bad) continue;
      size_t j = i % (m * m * m);
      mc::visit(mc::mix(i, 2));
      dfs(s, {g3[j % m], g3[j / m % m], g3[j / m / m]}, 0, 0, quick ? 5 : 6, false, Env());
    }
  });
  // 3: every ring offset, fill level and position of a mispredicted branch, then refill to capacity
  mc::parallel([&](int, int) {
    for (int64_t i; (i = mc::take(ROB_LINE_NUM * ROB_LINE_NUM)) >= 0;) {
      int off = (int)i % ROB_LINE_NUM, fill = (int)i / ROB_LINE_NUM + 1;
      for (int p = 0; p < fill * 2; ++p) for (int second = 0; second < 3; ++second) {
        int p2 = second == 0 ? -1 : second == 1 ? p / 2 : 0;
        if (p2 == p) continue;
        Sys s; prelude(s, off); if (s.bad) continue;
        mc::current("offset %d fill %d branch at %d, older branch at %d", off, fill, p, p2);
        pre = mc::fmt("ring offset %d, %d groups, mispredicted branch in slot %d, older one in slot %d:", off, fill, p, p2);
        std::vector<Grp> g(fill, Grp{{A, S}});
        g[p / 2].k[p % 2] = M; if (p2 >= 0) g[p2 / 2].k[p2 % 2] = M;
        for (auto &x : g) { Act a{&x, -1, false, false, false}; cycle(s, a); if (!s.bad && !s.accepted) fail(s, "refused", "group refused although there is room"); if (s.bad) break; }
        if (s.bad) continue;
        mc::visit(mc::mix(i * 4096 + p * 4 + second, 3));
        static const Grp aa{{A, B}};
        // complete the branch, repair, refill to capacity while the older one waits
        auto fire = [&](int id) { auto q = pending(s); for (int n = 0; n < (int)q.size(); ++n) if (s.fl[q[n].i].id == id) { Act a{nullptr, n, false, false, false}; cycle(s, a); return; } };
        int first = s.fl[0].id;
        fire(first + p); if (s.bad) continue;
        Act a{nullptr, -1, false, false, false}; cycle(s, a); if (s.bad) continue;
        for (int n = 0; n <= ROB_LINE_NUM && !s.bad; ++n) {
          int lines = 0;
          for (size_t e = 0; e < s.fl.size(); ++e) lines += !e || get_rob_line(s.fl[e].rob) != get_rob_line(s.fl[e - 1].rob);
          Act b{&aa, -1, false, false, false}; cycle(s, b);
          if (!s.bad && s.accepted != (lines < ROB_LINE_NUM)) fail(s, s.accepted ? "overfull" : "refused", mc::fmt("%d groups in flight: group %s", lines, s.accepted ? "accepted" : "refused"));
        }
        if (s.bad) continue;
        if (p2 >= 0 && p2 < p) { fire(first + p2); if (s.bad) continue; }
        drain(s); mc::trace(); mc::count(3);
      }
    }
  });
  return mc::report({{"bounds", "see DESIGN.md"}});
}
