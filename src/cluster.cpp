// P22, P23, P24: the real decode, rename, dispatch, issue, register-file and
// execution stages connected as in the core; the reorder buffer and the
// load/store unit are replaced by models whose timing is enumerated.  Programs
// (dataflow shapes x operation kinds x arrival gaps x memory latency x
// mispredictions x flushes) are run to completion and every issue, operand,
// result, memory request and branch outcome is compared with the ISA model.
#include "mc.h"
#include "golden.h"
#include "grids.h"
#include "Dispatch.h"
#include "Exu.h"
#include "Idu.h"
#include "Isu.h"
#include "Prf.h"
#include "Ren.h"
#include "types.h"
#include "util.h"
#include <deque>

long long sim_time = 0;
void SimContext::run_commit_inst(InstEntry *, int) {}
void SimContext::run_difftest_inst(InstEntry *) {}
static SimContext ctx;

// ---------------------------------------------------------------- programs
enum Kind : uint8_t { ADD_, MUL_, DIV_, FADD_, FMUL_, FDIV_, FCVT_, LD_, ST_, BOK, BMIS, JOK, JMIS, JAL_, AMO_, LUI_, AUI_, CSR_, LR_, SC_, RAW_, NKIND };
static const char *KN[] = {"add", "mul", "div", "fadd", "fmul", "fdiv", "fcvt", "ld", "st", "br", "br!", "jalr", "jalr!", "jal", "amo", "lui", "auipc", "csrrw", "lr", "sc", "raw"};
struct El { uint8_t k, d, a, b, gap, lat; uint32_t w = 0; }; // RAW_: the instruction word is w
struct Prog { std::vector<El> e, wp; std::vector<uint32_t> init; std::string name; int flush_at = -1; };
static std::string show(const Prog &p) {
  if (!p.name.empty()) return p.name;
  std::string s;
  auto one = [&](const El &e) { s += mc::fmt("%s%s x%d,x%d,x%d", e.gap ? mc::fmt("(+%d) ", e.gap).c_str() : "", KN[e.k], e.d, e.a, e.b); if (e.k == LD_ || e.k == AMO_) s += mc::fmt(" lat%d", e.lat); s += "; "; };
  for (auto &e : p.e) one(e);
  if (!p.wp.empty()) { s += "wrong path: "; for (auto &e : p.wp) one(e); }
  if (p.flush_at >= 0) s += mc::fmt("flush from cycle %d", p.flush_at);
  return s;
}
static uint32_t R(int f7, int rs2, int rs1, int f3, int rd, int op) { return (f7 << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) | (rd << 7) | op; }
static uint32_t word(const El &e) {
  switch (e.k) {
  case RAW_: return e.w;
  case LR_: return R(2 << 2, 0, e.a, 2, e.d, 0x2f);
  case SC_: return R(3 << 2, e.b, e.a, 2, e.d, 0x2f);
  case ADD_: return R(0, e.b, e.a, 0, e.d, 0x33);
  case MUL_: return R(1, e.b, e.a, 0, e.d, 0x33);
  case DIV_: return R(1, e.b, e.a, 5, e.d, 0x33);
  case FADD_: return R(0, e.b, e.a, 0, e.d, 0x53);
  case FMUL_: return R(8, e.b, e.a, 0, e.d, 0x53);
  case FDIV_: return R(12, e.b, e.a, 0, e.d, 0x53);
  case FCVT_: return R(0x68, 0, e.a, 0, e.d, 0x53);
  case LD_: return (8u << 20) | (e.a << 15) | (2 << 12) | (e.d << 7) | 0x03;
  case ST_: return R(0, e.b, e.a, 2, 12, 0x23);
  case BOK: case BMIS: return R(0, e.b, e.a, 1, 16, 0x63); // bne +16
  case JOK: case JMIS: return (4u << 20) | (e.a << 15) | (e.d << 7) | 0x67;
  case JAL_: return (0x10u << 20) | (e.d << 7) | 0x6f;
  case AMO_: return R(0, e.b, e.a, 2, e.d, 0x2f); // amoadd.w
  case LUI_: return 0x12345037u | (e.d << 7);
  case AUI_: return 0x00012017u | (e.d << 7);
  case CSR_: return (0x340u << 20) | (e.a << 15) | (1 << 12) | (e.d << 7) | 0x73;
  }
  return 0x13;
}
constexpr uint32_t CSRVAL = 0xc5a50f3cu;
static uint32_t memval(uint32_t a) { return a * 2246822519u + 0x1234567; }

// ---------------------------------------------------------------- the run
struct Dyn {
  El e; int pidx; bool wrong; uint32_t inst, pc; int ftq, off;
  int kind; uint32_t s1, s2, res, addr, sdata, f3; bool n1, n2, has_rd; bool taken, mis; uint32_t target, pred_next; bool pred_taken;
  bool killed = false, gone = false;
  int rob = -1, preg = -1, old = -1, areg = 0; bool den = false;
  uint32_t expect = 0, done = 0, issued = 0, memreq = 0; int wb = 0;
  int p1 = -1, p2 = -1; // producing instructions
  int last[32];
  uint32_t regs[32]; // register values after this instruction
  std::string nm() const { return e.k == RAW_ ? mc::fmt("%08x(rs1=%08x,rs2=%08x,pc=%08x)", inst, s1, s2, pc) : KN[e.k]; }
};
struct Run {
  const Prog &p;
  Idu idu{&ctx, MAX_BR_PER_CYCLE}; Ren ren{&ctx}; Dispatch dis{&ctx}; Isu isu{&ctx}; Prf prf{&ctx}; Exu exu{&ctx};
  PreIduIssueIO issue; IduConsumeIO cons; DecRenIO dec2ren; DecBroadcastIO bc; RenDecIO ren2dec; RenDisIO ren2dis; DisRenIO dis2ren;
  DisRobIO dis2rob; DisIssIO dis2iss; DisLsuIO dis2lsu; RobDisIO rob2dis; IssDisIO iss2dis; LsuDisIO lsu2dis; PrfAwakeIO pawake; IssAwakeIO iawake;
  RobBroadcastIO rb; RobCommitIO rc; IssPrfIO iss2prf; ExePrfIO exe2prf; PrfExeIO prf2exe; FtqPrfPcReqIO pcreq; FtqPrfPcRespIO pcresp;
  ExeIssIO exe2iss; ExeCsrIO exe2csr; ExeLsuIO exe2lsu; ExuIdIO exu2id; ExuRobIO exu2rob; CsrExeIO csr2exe; LsuExeIO lsu2exe; CsrStatusIO cst;
  std::vector<Dyn> dyn;
  std::deque<int> fetched;              // given to decode, not yet dispatched (program order)
  std::deque<int> rob;                  // dispatched, not retired (program order)
  int robmap[ROB_NUM];
  int tail = 0, flag = 0;
  int pi = 0, wi = 0; bool wrong = false; int gap = 0;
  uint32_t regs[32];
  int last[32];
  int dflag[ROB_NUM] = {};
  int ftqn = 0;
  struct Ld { int d; long due; uint32_t mask; uint32_t val; bool sta; };
  std::vector<Ld> lq;
  bool bad = false;
  int retired = 0, quiet = 0;
  long t = 0;
  uint64_t h = 0; // execution prefix
  bool did_flush = false;

  Run(const Prog &pp) : p(pp) {
    sim_time = 0;
    idu.in = {&issue, &ren2dec, &rb, &exu2id}; idu.out = {&dec2ren, &bc, &cons};
    ren.in = {&dec2ren, &bc, &dis2ren, &rb, &rc}; ren.out = {&ren2dec, &ren2dis};
    dis.in = {&ren2dis, &rob2dis, &iss2dis, &lsu2dis, &pawake, &iawake, &rb, &bc}; dis.out = {&dis2ren, &dis2rob, &dis2iss, &dis2lsu};
    isu.in = {&dis2iss, &pawake, &exe2iss, &rb, &bc}; isu.out = {&iss2prf, &iss2dis, &iawake};
    prf.in = {&iss2prf, &exe2prf, &bc, &rb, &pcresp}; prf.out = {&prf2exe, &pawake, &pcreq};
    auto *f2e = exu.in.fu2exu; auto *e2f = exu.out.exu2fu;
    exu.in = {&prf2exe, &bc, &rb, &csr2exe, &lsu2exe, &cst, f2e}; exu.out = {&exe2prf, &exe2iss, &exe2csr, &exe2lsu, &exu2id, &exu2rob, e2f};
    idu.init(); ren.init(); dis.init(); isu.init(); prf.init(); exu.init();
    for (auto &m : robmap) m = -1;
    for (int i = 0; i < 32; ++i) { regs[i] = !i ? 0 : i < (int)p.init.size() ? p.init[i] : 0x3f800000u + i * 0x00123457u; prf.reg_file[i] = regs[i]; last[i] = -1; }
    dyn.reserve(512);
    gap = p.e.empty() ? 0 : p.e[0].gap;
  }
  bool fail(const char *prop, const char *what, const std::string &t); // true: stop here
  void make(const El &e, int pidx, bool wrongpath) {
    Dyn d;
    d.e = e; d.pidx = pidx; d.wrong = wrongpath; d.inst = word(e); d.pc = 0x80001000u + 4 * (uint32_t)dyn.size();
    d.ftq = ftqn / FETCH_WIDTH % FTQ_SIZE; d.off = ftqn % FETCH_WIDTH; ++ftqn;
    d.p1 = last[e.a]; d.p2 = last[e.b];
    d.s1 = regs[e.a]; d.s2 = regs[e.b]; d.res = 0; d.taken = d.mis = d.pred_taken = false; d.target = d.pc + 4; d.pred_next = d.pc + 4;
    uint32_t r = 0, w = d.inst;

    d.kind = e.k; d.n1 = true; d.n2 = false; d.f3 = golden::bits(w, 14, 12); d.addr = d.sdata = 0; d.has_rd = true;
    switch (w & 0x7f) {
    case 0x33: d.n2 = true; golden::alu_rr(w, d.s1, d.s2, r); break;
    case 0x13: golden::alu_ri(w, d.s1, r); break;
    case 0x53: { int f5 = w >> 27; d.n2 = f5 <= 5 || f5 == 0x14; golden::fp(w, d.s1, d.s2, 0, r); break; }
    case 0x03: d.kind = LD_; d.addr = d.s1 + golden::imm_i(w); r = memval(d.addr); break;
    case 0x23: d.kind = ST_; d.has_rd = false; d.n2 = true; d.addr = d.s1 + golden::imm_s(w); d.sdata = d.s2; break;
    case 0x2f: {
      int f5 = w >> 27;
      d.addr = d.s1; d.n2 = f5 != 2; r = memval(d.addr);
      d.kind = f5 == 2 ? LR_ : f5 == 3 ? SC_ : AMO_;
      if (f5 == 3) { d.sdata = d.s2; r = d.addr >> 3 & 1; } else if (f5 != 2) golden::amo_op(f5, r, d.s2, d.sdata);
      break;
    }
    case 0x63: d.kind = e.k == BMIS ? BMIS : BOK; d.has_rd = false; d.n2 = true; golden::br_taken(w, d.s1, d.s2, d.taken); d.target = d.taken ? d.pc + golden::imm_b(w) : d.pc + 4; d.mis = e.k == BMIS; d.pred_taken = d.taken ^ d.mis; d.pred_next = d.pred_taken ? d.pc + golden::imm_b(w) : d.pc + 4; break;
    case 0x67: d.kind = e.k == JMIS ? JMIS : JOK; d.taken = d.pred_taken = true; d.mis = e.k == JMIS; r = d.pc + 4; d.target = (d.s1 + golden::imm_i(w)) & ~1u; d.pred_next = d.target + (d.mis ? 4 : 0); break;
    case 0x6f: d.kind = JAL_; d.n1 = false; d.taken = d.pred_taken = true; r = d.pc + 4; d.target = d.pred_next = d.pc + golden::imm_j(w); break;
    case 0x37: d.kind = LUI_; d.n1 = false; r = golden::imm_u(w); break;
    case 0x17: d.kind = AUI_; d.n1 = false; r = d.pc + golden::imm_u(w); break;
    case 0x73: r = CSRVAL; break;
    }

    if (e.d == 0) d.has_rd = false;
    d.res = r;
    if (d.has_rd) { regs[e.d] = r; last[e.d] = (int)dyn.size(); }
    memcpy(d.regs, regs, sizeof regs); memcpy(d.last, last, sizeof last);
    dyn.push_back(d);
    fetched.push_back((int)dyn.size() - 1);
  }
  // instructions visible to decode this cycle: fetched but not consumed
  std::deque<int> vis;
  void feed() {
    while (vis.size() < DECODE_WIDTH) {
      if (wrong) {
        if (p.wp.empty()) break;
        make(p.wp[wi++ % p.wp.size()], -1, true);
      } else {
        if (pi >= (int)p.e.size()) break;
        if (gap > 0) break;
        if (!dyn.empty() && !dyn.back().killed && dyn.back().e.k == CSR_ && !dyn.back().gone) break; // it will flush when it retires
        make(p.e[pi], pi, false);
        ++pi;
        gap = pi < (int)p.e.size() ? p.e[pi].gap : 0;
      }
      vis.push_back((int)dyn.size() - 1);
      if (dyn.back().mis) wrong = true;
    }
  }
  Dyn *by_rob(int idx) { int i = idx >= 0 && idx < ROB_NUM ? robmap[idx] : -1; return i < 0 ? nullptr : &dyn[i]; }
  // can the producer's value be read this cycle (written earlier, or on a bypass now)
  bool ready(int prod) {
    if (prod < 0 || dyn[prod].wb) return true;
    for (auto &b : exe2prf.bypass) if (b.valid && b.uop.dest_en && (int)b.uop.dest_preg == dyn[prod].preg) return true;
    return false;
  }
  void squash_after(int di) {
    // everything younger than dyn index di in program order (di itself stays)
    auto kill = [&](int i) { dyn[i].killed = true; };
    while (!rob.empty() && rob.back() != di) { int i = rob.back(); kill(i); if (dyn[i].rob >= 0) robmap[dyn[i].rob] = -1; rob.pop_back(); }
    for (int i : fetched) kill(i);
    fetched.clear(); vis.clear();
    for (size_t i = 0; i < lq.size();) if (dyn[lq[i].d].killed) lq.erase(lq.begin() + i); else ++i;
    wrong = false;
    pi = dyn[di].pidx + 1;
    gap = 0;
    memcpy(regs, dyn[di].regs, sizeof regs); memcpy(last, dyn[di].last, sizeof last);
  }
  bool cycle();
  bool run() {
    for (t = 0; quiet < 150 && !bad; ++t) {
      ++quiet;
      sim_time = t;
      if (!cycle()) return false;
      if (pi >= (int)p.e.size() && rob.empty() && fetched.empty() && !wrong) { drain(); return !bad; }
    }
    if (!bad) {
      Dyn *h = rob.empty() ? nullptr : &dyn[rob.front()];
      if (h && (h->issued & h->expect) != h->expect) fail("P22", "never-issued", mc::fmt("oldest instruction '%s' is never issued", h->nm().c_str()));
      else if (h) fail("P24", "never-completed", mc::fmt("oldest instruction '%s' is issued but never completes", h->nm().c_str()));
      else fail("P22", "stuck", "no instruction enters the issue queues although all are empty");
    }
    return false;
  }
  void drain() { // nothing may come out of an empty machine
    for (int i = 0; i < 24 && !bad; ++i) { sim_time = ++t; if (!cycle()) return; }
  }
};
static const char *want;
static std::string cur;
bool Run::fail(const char *prop, const char *what, const std::string &tx) {
  if (strcmp(prop, want)) { mc::count(5); return false; } // that property's check reports it; watch for consequences here
  bad = true;
  mc::violation(mc::fmt("%s:%s", prop, what), cur, mc::fmt("program [%s] cycle %ld: %s: %s", cur.c_str(), t, what, tx.c_str()));
  return true;
}
static int group_of(int op) { // ROB completion group of a micro-operation
  switch (op) { case UOP_BR: case UOP_JUMP: case UOP_STA: return 2; case UOP_STD: return 4; default: return 1; }
}
bool Run::cycle() {
  mc::trans();
  // fetch side
  if (gap > 0 && !wrong) --gap;
  feed();
  issue = PreIduIssueIO();
  for (int i = 0; i < DECODE_WIDTH && i < (int)vis.size(); ++i) {
    auto &e = issue.entries[i]; auto &d = dyn[vis[i]];
    e.valid = true; e.inst = d.inst; e.pc = d.pc; e.ftq_idx = d.ftq; e.ftq_offset = d.off;
  }
  rb = RobBroadcastIO(); rc = RobCommitIO(); lsu2exe = LsuExeIO();
  idu.comb_begin(); ren.comb_begin(); dis.comb_begin(); isu.comb_begin(); prf.comb_begin(); exu.comb_begin();
  idu.comb_decode(); ren.comb_alloc(); prf.comb_complete(); prf.comb_awake(); prf.comb_write(); isu.comb_ready();
  lsu2dis = LsuDisIO(); lsu2dis.stq_free = STQ_SIZE; lsu2dis.ldq_free = LDQ_SIZE;
  for (int i = 0; i < MAX_LDQ_DISPATCH_WIDTH; ++i) { lsu2dis.ldq_alloc_idx[i] = i; lsu2dis.ldq_alloc_valid[i] = true; }
  idu.comb_branch();
  // reorder buffer model
  int lines = 0;
  { int last = -1; for (int i : rob) { int l = dyn[i].rob / ROB_BANK_NUM; if (l != last) { ++lines; last = l; } } }
  rob2dis = RobDisIO();
  rob2dis.ready = lines < ROB_LINE_NUM - 1; rob2dis.empty = rob.empty(); rob2dis.enq_idx = tail; rob2dis.rob_flag = flag;
  std::vector<int> ret;
  bool flush = false;
  if (!bc.mispred) {
    for (int i : rob) { if ((int)ret.size() == COMMIT_WIDTH || (dyn[i].done & dyn[i].expect) != dyn[i].expect) break; ret.push_back(i); }
    if (p.flush_at >= 0 && !did_flush && t >= p.flush_at && !ret.empty()) { ret.resize(1); flush = true; did_flush = true; }
    for (size_t i = 0; i < ret.size(); ++i) if (dyn[ret[i]].e.k == CSR_) { if (i) ret.resize(i); else { ret.resize(1); flush = true; } break; }
  }
  for (size_t i = 0; i < ret.size(); ++i) {
    auto &c = rc.commit_entry[i]; auto &d = dyn[ret[i]];
    c.valid = true; c.uop.dest_en = d.den; c.uop.dest_areg = d.areg; c.uop.dest_preg = d.preg; c.uop.old_dest_preg = d.old; c.uop.type = encode_inst_type(flush ? CSR : ADD);
  }
  rb.flush = flush;
  dis.comb_alloc();
  // load results due this cycle
  {
    int n = 0, ns = 0;
    for (auto &l : lq) {
      if (l.due > t) continue;
      auto &d = dyn[l.d];
      if (l.sta) {
        if (ns == LSU_STA_COUNT) continue;
        auto &w = lsu2exe.sta_wb_req[ns++]; w.valid = true; w.uop.rob_idx = d.rob; w.uop.op = encode_uop_type(UOP_STA); w.uop.br_mask = l.mask; w.uop.dest_preg = d.preg;
      } else {
        if (n == LSU_LOAD_WB_WIDTH) continue;
        auto &w = lsu2exe.wb_req[n++]; w.valid = true; w.uop.result = l.val; w.uop.dest_preg = d.preg; w.uop.dest_en = d.den; w.uop.rob_idx = d.rob; w.uop.br_mask = l.mask; w.uop.op = encode_uop_type(UOP_LOAD);
      }
      l.due = -1; // sent
    }
    for (size_t i = 0; i < lq.size();) if (lq[i].due == -1) lq.erase(lq.begin() + i); else ++i;
  }
  exu.comb_to_csr();
  csr2exe.rdata = CSRVAL;
  exu.comb_exec();
  // which branch is squashing this cycle
  int sq = -1;
  if (bc.mispred) { sq = by_rob(bc.redirect_rob_idx) ? robmap[bc.redirect_rob_idx] : -1; if (sq < 0) { fail("P24", "redirect", "misprediction announced for an instruction that is not in flight"); return false; } }
  auto dying = [&](int di) { if (flush) return di != ret[0]; if (sq < 0) return false; bool after = false; for (int i : rob) { if (i == di) return after; if (i == sq) after = true; } return true; };
  // --- completions
  bool anymis = false; int oldest = -1;
  for (int i = 0; i < ISSUE_WIDTH; ++i) {
    auto &x = exu2rob.entry[i];
    if (!x.valid) continue;
    Dyn *d = by_rob(x.uop.rob_idx);
    if (!d || d->killed) { if (fail("P24", "result-of-squashed", mc::fmt("completion reported at port %d for an operation that is not in flight", i))) return false; continue; }
    int di = robmap[x.uop.rob_idx];
    if (dying(di)) { if (fail("P24", "result-of-squashed", mc::fmt("'%s' completes in the cycle it is squashed", d->nm().c_str()))) return false; }
    int g = group_of(x.uop.op);
    if (d->done & g) { if (fail("P24", "twice", mc::fmt("'%s' completes twice", d->nm().c_str()))) return false; }
    if (!(d->issued & g)) { if (fail("P24", "unissued", mc::fmt("'%s' completes without having been issued", d->nm().c_str()))) return false; }
    d->done |= g;
    if (g == 1 && d->has_rd && x.uop.result != d->res) { if (fail("P24", "value", mc::fmt("'%s' result %08x, expected %08x", d->nm().c_str(), (uint32_t)x.uop.result, d->res))) return false; }
    if (x.uop.op == UOP_BR || x.uop.op == UOP_JUMP) {
      if (x.uop.mispred != d->mis || x.uop.br_taken != d->taken || x.uop.diag_val != d->target) { if (fail("P24", "branch", mc::fmt("'%s' taken %d target %08x mispredicted %d, expected %d %08x %d", d->nm().c_str(), (int)x.uop.br_taken, (uint32_t)x.uop.diag_val, (int)x.uop.mispred, d->taken, d->target, d->mis))) return false; }
      if (d->mis) { anymis = true; if (oldest < 0) oldest = di; else for (int j : rob) if (j == di || j == oldest) { oldest = j; break; } }
    }
  }
  if (!flush) {
    if (exu2id.mispred != anymis) { if (fail("P24", "redirect", "misprediction signal does not match the resolved branches")) return false; }
    if (anymis && (exu2id.redirect_pc != dyn[oldest].target || (int)exu2id.redirect_rob_idx != dyn[oldest].rob)) { if (fail("P24", "redirect", mc::fmt("redirect to %08x for entry %d, expected %08x for entry %d (oldest mispredicted)", (uint32_t)exu2id.redirect_pc, (int)exu2id.redirect_rob_idx, dyn[oldest].target, dyn[oldest].rob))) return false; }
  }
  for (int i = 0; i < ISSUE_WIDTH; ++i) {
    auto &x = exe2prf.entry[i];
    if (!x.valid || !x.uop.dest_en) continue;
    int di = -1;
    for (int j : rob) if (dyn[j].den && dyn[j].preg == (int)x.uop.dest_preg) di = j;
    if (di < 0) { if (flush || sq >= 0) continue; fail("P24", "stray-write", mc::fmt("write-back to physical register %d which no operation in flight owns", (int)x.uop.dest_preg)); return false; }
    if (dying(di)) continue;
    Dyn &d = dyn[di];
    if (x.uop.result != d.res) { if (fail("P24", "value", mc::fmt("'%s' writes %08x, expected %08x", d.nm().c_str(), (uint32_t)x.uop.result, d.res))) return false; }
    if (d.wb++) { if (fail("P24", "twice", mc::fmt("'%s' writes its result twice", d.nm().c_str()))) return false; }
  }
  if (exe2csr.we) {
    Dyn *d = rob.empty() ? nullptr : &dyn[rob.front()];
    if (!d || d->e.k != CSR_) { if (!flush && sq < 0) { if (fail("P24", "csr-write", "CSR write without a CSR instruction at the head")) return false; } }
    else if (exe2csr.wdata != d->s1 || exe2csr.idx != 0x340 || exe2csr.wcmd != 1) { if (fail("P24", "csr-write", mc::fmt("CSR write data %08x, expected %08x", (uint32_t)exe2csr.wdata, d->s1))) return false; }
    else d->memreq |= 1;
  }
  for (int i = 0; i < LSU_AGU_COUNT; ++i) {
    auto &x = exe2lsu.agu_req[i];
    if (!x.valid) continue;
    Dyn *d = by_rob(x.uop.rob_idx);
    if (!d || dying(robmap[x.uop.rob_idx])) { if (fail("P24", "memory-request-of-squashed", "address request for an operation not in flight")) return false; continue; }
    int g = x.uop.op == UOP_STA && d->kind != SC_ ? 2 : 1;
    uint32_t a = d->addr;
    if (x.uop.result != a || x.uop.func3 != d->f3) { if (fail("P24", "address", mc::fmt("'%s' address %08x, expected %08x", d->nm().c_str(), (uint32_t)x.uop.result, a))) return false; }
    if (d->memreq & g) { if (fail("P24", "twice", mc::fmt("'%s' sends its address twice", d->nm().c_str()))) return false; }
    d->memreq |= g;
    lq.push_back({robmap[x.uop.rob_idx], t + (g == 1 ? d->e.lat : 1), (uint32_t)x.uop.br_mask, d->res, g == 2});
  }
  for (int i = 0; i < LSU_SDU_COUNT; ++i) {
    auto &x = exe2lsu.sdu_req[i];
    if (!x.valid) continue;
    Dyn *d = by_rob(x.uop.rob_idx);
    if (!d || dying(robmap[x.uop.rob_idx])) { if (fail("P24", "memory-request-of-squashed", "store data for an operation not in flight")) return false; continue; }
    uint32_t v = d->sdata;
    if (x.uop.result != v) { if (fail("P24", "store-data", mc::fmt("'%s' data %08x, expected %08x", d->nm().c_str(), (uint32_t)x.uop.result, v))) return false; }
    if (d->memreq & 4) { if (fail("P24", "twice", mc::fmt("'%s' sends its data twice", d->nm().c_str()))) return false; }
    d->memreq |= 4;
  }
  exu.comb_ready();
  isu.comb_issue();
  prf.comb_req_ftq();
  pcresp = FtqPrfPcRespIO();
  for (int i = 0; i < FTQ_PRF_PC_PORT_NUM; ++i) {
    if (!pcreq.req[i].valid) continue;
    int f = -1;
    for (int j : rob) if (dyn[j].ftq == (int)pcreq.req[i].ftq_idx && dyn[j].off == (int)pcreq.req[i].ftq_offset) f = j;
    if (f < 0) { fail("P23", "pc-request", "program counter requested for an instruction not in flight"); return false; }
    pcresp.resp[i].valid = pcresp.resp[i].entry_valid = true; pcresp.resp[i].pc = dyn[f].pc; pcresp.resp[i].pred_taken = dyn[f].pred_taken; pcresp.resp[i].next_pc = dyn[f].pred_next;
  }
  prf.comb_read();
  for (int i = 0; i < ISSUE_WIDTH; ++i) {
    auto &x = prf2exe.iss_entry[i];
    if (!iss2prf.iss_entry[i].valid) continue;
    auto &q = iss2prf.iss_entry[i].uop;
    Dyn *d = by_rob(q.rob_idx);
    if (d && dying(robmap[q.rob_idx])) continue; // dropped with the squash
    if (!d) { if (fail("P22", "squashed-issued", mc::fmt("port %d issues an operation that was squashed", i))) return false; continue; }
    int g = d->kind == SC_ && q.op == UOP_STA ? 1 : group_of(q.op);
    if (!(d->expect & g)) { if (fail("P22", "wrong-operation", mc::fmt("'%s' issued as another operation", d->nm().c_str()))) return false; }
    if (d->issued & g) { if (fail("P22", "twice", mc::fmt("'%s' issued twice", d->nm().c_str()))) return false; }
    if (!(GLOBAL_ISSUE_PORT_CONFIG[i].support_mask >> (int)q.op & 1)) { if (fail("P22", "port", mc::fmt("'%s' issued to port %d which does not support it", d->nm().c_str(), i))) return false; }
    d->issued |= g;
    if (!x.valid) { if (fail("P23", "dropped", "issued operation not passed on")) return false; }
    uint32_t e1 = d->kind == AMO_ && q.op == UOP_STD ? d->res : d->s1;
    bool sta = q.op == UOP_STA, std_ = q.op == UOP_STD, jlink = q.op == UOP_ADD && (d->kind == JOK || d->kind == JMIS);
    bool need1 = d->n1 && !jlink && !(std_ && (d->kind != AMO_ || d->inst >> 27 == 1)); // a swap stores without the old value
    bool need2 = d->n2 && !sta && q.op != UOP_LOAD;
    if (need1 && !x.uop.src1_en) { if (fail("P22", "operand-dropped", mc::fmt("'%s' issued without its first operand", d->nm().c_str()))) return false; }
    if (need2 && !x.uop.src2_en) { if (fail("P22", "operand-dropped", mc::fmt("'%s' issued without its second operand", d->nm().c_str()))) return false; }
    int q1 = d->kind == AMO_ && q.op == UOP_STD ? robmap[q.rob_idx] : d->p1;
    if ((need1 && !ready(q1)) || (need2 && !ready(d->p2))) { if (fail("P22", "too-early", mc::fmt("'%s' issued before its operand exists", d->nm().c_str()))) return false; }
    if (need1 && ready(q1) && x.uop.src1_rdata != e1) { if (fail("P23", "operand", mc::fmt("'%s' first operand %08x, expected %08x", d->nm().c_str(), (uint32_t)x.uop.src1_rdata, e1))) return false; }
    if (need2 && ready(d->p2) && x.uop.src2_rdata != d->s2) { if (fail("P23", "operand", mc::fmt("'%s' second operand %08x, expected %08x", d->nm().c_str(), (uint32_t)x.uop.src2_rdata, d->s2))) return false; }
    bool needpc = (q.op == UOP_BR || q.op == UOP_JUMP) || (q.op == UOP_ADD && x.uop.src1_is_pc);
    if (needpc && x.uop.pc != d->pc) { if (fail("P23", "pc", mc::fmt("'%s' reads program counter %08x, expected %08x", d->nm().c_str(), (uint32_t)x.uop.pc, d->pc))) return false; }
  }
  for (int i = 0; i < ISSUE_WIDTH; ++i) { if (iss2prf.iss_entry[i].valid) h = mc::mix(h, i * 4096 + iss2prf.iss_entry[i].uop.rob_idx); if (exu2rob.entry[i].valid) h = mc::mix(h, 65536 + i * 4096 + exu2rob.entry[i].uop.rob_idx); }
  h = mc::mix(h, rob.size() * 64 + vis.size());
  mc::visit(h);
  isu.comb_awake(); isu.comb_calc_latency_next();
  dis.comb_wake(); ren.comb_rename(); dis.comb_dispatch(); dis.comb_fire(); ren.comb_fire(); idu.comb_fire();
  isu.comb_enq(); isu.comb_flush();
  prf.comb_pipeline(); exu.comb_pipeline(); dis.comb_pipeline(); ren.comb_pipeline();
  // --- dispatch into the reorder buffer
  bool any = false;
  std::vector<int> entered;
  for (int i = 0; i < DECODE_WIDTH; ++i) {
    if (!dis2rob.dis_fire[i]) continue;
    if (flush || bc.mispred) { if (fail("P22", "accepted-while-squashing", "dispatch accepted in a squash cycle")) return false; }
    any = true;
    auto &u = dis2rob.uop[i];
    if (fetched.empty()) { fail("P22", "invented", "dispatch of an instruction that was not fetched"); return false; }
    int di = fetched.front(); fetched.pop_front();
    Dyn &d = dyn[di];
    d.rob = u.rob_idx; d.preg = u.dest_preg; d.old = u.old_dest_preg; d.den = u.dest_en; d.areg = u.dest_areg;
    if (d.den != d.has_rd && d.kind != AMO_) { if (fail("P24", "destination", mc::fmt("'%s' destination enable %d", d.nm().c_str(), (int)d.den))) return false; }
    switch (d.kind) { case ST_: d.expect = 6; break; case SC_: d.expect = 5; break; case AMO_: d.expect = 7; break; case BOK: case BMIS: d.expect = 2; break; case JOK: case JMIS: case JAL_: d.expect = 3; break; default: d.expect = 1; }
    if (u.expect_mask != d.expect) { if (fail("P22", "operation-count", mc::fmt("'%s' expects completions %x, should be %x", d.nm().c_str(), (int)u.expect_mask, d.expect))) return false; }
    if (robmap[d.rob] >= 0) { fail("P22", "rob-slot", "reorder buffer slot given twice"); return false; }
    robmap[d.rob] = di;
    entered.push_back(di);
  }
  // consumption by decode
  int nc = 0;
  for (int i = 0; i < DECODE_WIDTH; ++i) if (cons.fire[i]) ++nc;
  // --- state updates
  idu.seq(); ren.seq(); dis.seq(); isu.seq(); exu.seq(); prf.seq();
  for (int i : ret) if (dyn[i].e.k == CSR_ && !dyn[i].memreq) { if (fail("P24", "csr-write", "CSR write never sent")) return false; }
  for (int i : ret) { if (dyn[i].den && !dyn[i].wb) { if (fail("P24", "no-write-back", mc::fmt("'%s' completed without writing its result", dyn[i].nm().c_str()))) return false; }
    dyn[i].gone = true; robmap[dyn[i].rob] = -1; rob.pop_front(); ++retired; quiet = 0; }
  if (flush) {
    int keep = ret[0];
    while (!rob.empty()) { dyn[rob.back()].killed = true; robmap[dyn[rob.back()].rob] = -1; rob.pop_back(); }
    for (int i : fetched) dyn[i].killed = true;
    fetched.clear(); vis.clear(); lq.clear();
    wrong = false; pi = dyn[keep].pidx + 1; gap = 0; memcpy(regs, dyn[keep].regs, sizeof regs); memcpy(last, dyn[keep].last, sizeof last);
    tail = 0; flag = 0;
  } else if (sq >= 0) {
    squash_after(sq);
    tail = dyn[sq].rob / ROB_BANK_NUM + 1;
    // generation flag of the next line
    if (tail == ROB_LINE_NUM) { tail = 0; }
    // flag follows from the branch's own generation
    flag = dflag[dyn[sq].rob] ^ (tail == 0);
    for (auto &l : lq) l.mask &= ~(uint32_t)bc.clear_mask;
  } else {
    for (auto &l : lq) l.mask &= ~(uint32_t)bc.clear_mask;
    for (int i = 0; i < nc && !vis.empty(); ++i) vis.pop_front();
    for (int di : entered) { rob.push_back(di); dflag[dyn[di].rob] = flag; }
    if (any) { if (++tail == ROB_LINE_NUM) { tail = 0; flag ^= 1; } }
  }
  return !bad;
}

// ---------------------------------------------------------------- families
static El el(int k, int d, int a, int b, int gap = 0, int lat = 3) { return {(uint8_t)k, (uint8_t)d, (uint8_t)a, (uint8_t)b, (uint8_t)gap, (uint8_t)lat}; }
static void go(const Prog &p) {
  cur = show(p);
  mc::current("%s", cur.c_str());
  Run *r = new Run(p);
  r->run();
  mc::trace();
  mc::count(1, r->retired);
  mc::count(2, r->t);
  delete r;
}
// readers of every register the program can have written, after a pause
static void tail(Prog &p) {
  p.e.push_back(el(ST_, 0, 1, 2, 30)); p.e.push_back(el(ST_, 0, 3, 4)); p.e.push_back(el(ADD_, 9, 5, 6)); p.e.push_back(el(ADD_, 8, 9, 7));
}
typedef std::function<void(const Prog &)> Sink;
// all sequences of three operations and their dependences
static void f_three(const std::vector<int> &ks, const std::vector<int> &lats, bool waw, int gaps, const Sink &out) {
  for (int k1 : ks) for (int k2 : ks) for (int k3 : ks) for (int dep = 0; dep < 12; ++dep) for (int w = 0; w < (waw ? 2 : 1); ++w) for (int l : lats) for (int g = 0; g < gaps; ++g) {
    bool mem = k1 == LD_ || k2 == LD_ || k3 == LD_ || k1 == AMO_ || k2 == AMO_ || k3 == AMO_;
    if (l != lats[0] && !mem) continue;
    Prog p;
    int a2 = dep & 1 ? 1 : 10, a3 = (dep >> 1) % 3 == 0 ? 10 : (dep >> 1) % 3 == 1 ? 1 : (w ? 1 : 2), b3 = dep >= 6 ? (w ? 1 : 2) : 11;
    p.e = {el(k1, 1, 10, 11, 0, l), el(k2, w ? 1 : 2, a2, dep & 1 ? 11 : 12, g, l), el(k3, 3, a3, b3, 0, l)};
    if (k1 == BMIS || k2 == BMIS || k3 == BMIS || k1 == JMIS || k2 == JMIS || k3 == JMIS) p.wp = {el(MUL_, 1, 1, 13), el(ADD_, 2, 1, 2), el(LD_, 3, 2, 0, 0, l), el(ADD_, 1, 3, 14)};
    tail(p);
    out(p);
  }
}
// two chains whose producers are apart by every distance, with other traffic between
static void f_gap(const std::vector<int> &ks, const std::vector<int> &cs, int maxgap, const std::vector<int> &fill, const Sink &out) {
  for (int A : ks) for (int c : cs) for (int B : ks) for (int g = 0; g <= maxgap; ++g) for (int f : fill) for (int l : {1, 2, 5}) {
    if (l != 1 && A != LD_ && B != LD_) continue;
    Prog p;
    p.e.push_back(el(A, 1, 10, 11, 0, l));
    p.e.push_back(el(c, 2, 1, 12));
    if (f >= 0) for (int i = 0; i < g * DECODE_WIDTH; ++i) p.e.push_back(el(f, 5 + i % 3, 13 + i % 4, 14 + i % 3, 0, l));
    p.e.push_back(el(B, 3, 12, 13, f >= 0 ? 0 : g, l));
    p.e.push_back(el(c, 4, 3, 1));
    tail(p);
    out(p);
  }
}
// three producers at every pair of distances
static void f_gap3(const std::vector<int> &ks, int g1lo, int g1hi, int maxg, const Sink &out) {
  for (int A : ks) for (int B : ks) for (int C : ks) for (int g = g1lo; g <= g1hi; ++g) for (int h = 0; h <= maxg; ++h) {
    Prog p;
    p.e = {el(A, 1, 10, 11, 0, 2), el(ADD_, 2, 1, 12), el(B, 3, 12, 13, g, 2), el(ADD_, 4, 3, 1), el(C, 5, 13, 14, h, 2), el(ST_, 0, 5, 4), el(ADD_, 6, 5, 2)};
    tail(p);
    out(p);
  }
}
// queues filled behind a slow producer, a branch in the middle, wrong-path users of the same queue
static void f_fill(const std::vector<int> &prod, const std::vector<int> &users, int maxn, int step, const Sink &out) {
  for (int A : prod) for (int u : users) for (int n = 1; n <= maxn; n += step) for (int br = 0; br < 4; ++br) for (int w : users) {
    if (br == 0 && w != u) continue;
    Prog p;
    p.e.push_back(el(A, 1, 10, 11, 0, 9));
    for (int i = 0; i < n; ++i) p.e.push_back(el(u, 2 + i % 3, i & 1 ? 12 : 1, i & 1 ? 1 : 13, 0, 1));
    if (br == 1) p.e.push_back(el(BMIS, 0, 14, 15));
    if (br == 2) { p.e.push_back(el(BOK, 0, 1, 15)); p.e.push_back(el(BMIS, 0, 14, 15)); p.e.push_back(el(BOK, 0, 1, 14)); }
    if (br == 3) { p.e.push_back(el(BOK, 0, 14, 15)); p.e.push_back(el(JMIS, 5, 1, 15)); }
    if (br) p.wp = {el(w, 6, 1, 12, 0, 2), el(ADD_, 2, 6, 1), el(BMIS, 0, 1, 12), el(w, 3, 2, 6, 0, 2)};
    for (int i = 0; i < 3; ++i) p.e.push_back(el(u, 4 + i, 2 + i, 1, 0, 1));
    tail(p);
    out(p);
  }
}
// more branches in flight than there are tags, resolved out of order
static void f_branches(int maxn, const Sink &out) {
  for (int n = 1; n <= maxn; ++n) for (int slow = -1; slow < n; ++slow) for (int mis = 0; mis < n; ++mis) for (int kind = 0; kind < 2; ++kind) {
    Prog p;
    p.e.push_back(el(DIV_, 1, 10, 11));
    for (int i = 0; i < n; ++i) {
      p.e.push_back(el(i == mis ? (kind ? JMIS : BMIS) : i % 3 == 2 ? JOK : BOK, 3, i == slow ? 1 : 12, 13));
      p.e.push_back(el(i & 1 ? ADD_ : MUL_, 4 + i % 3, 1 + i % 6, 14));
    }
    p.wp = {el(ADD_, 4, 5, 6), el(BOK, 0, 12, 13), el(LD_, 5, 4, 0, 0, 2), el(ST_, 0, 5, 4)};
    tail(p);
    out(p);
  }
}
// a pipeline flush at every retirement point
static void f_flush(const std::vector<int> &ks, int maxt, const Sink &out) {
  for (int A : ks) for (int B : ks) for (int C : ks) for (int t = 3; t < maxt; t += 1) {
    Prog p;
    p.e = {el(ADD_, 6, 12, 13), el(ADD_, 7, 6, 14), el(A, 1, 10, 11, 0, 4), el(B, 2, 1, 12, 0, 2), el(C, 3, 13, 14, 0, 6), el(ADD_, 4, 3, 2), el(ADD_, 1, 4, 1)};
    if (A == BMIS || B == BMIS || C == BMIS) p.wp = {el(MUL_, 1, 1, 13), el(ADD_, 2, 1, 2)};
    p.flush_at = t;
    tail(p);
    out(p);
  }
}
// wrong-path operations of every latency in flight when the branch resolves, registers reused at once
static void f_wrong(const std::vector<int> &ks, const std::vector<int> &rs, int maxs, const Sink &out) {
  for (int W : ks) for (int V : ks) for (int Rr : rs) for (int s = 0; s <= maxs; ++s) for (int f = 0; f < 2; ++f) {
    Prog p;
    p.e = {el(LD_, 1, 10, 11, 0, s + 1), el(f ? JMIS : BMIS, f ? 7 : 0, 1, 15), el(Rr, 2, 12, 13, 0, 4), el(ADD_, 3, 2, 14), el(FADD_, 4, 13, 14), el(ADD_, 5, 4, 3), el(Rr, 6, 5, 2, 0, 1), el(ADD_, 2, 6, 6)};
    p.wp = {el(W, 2, 12, 13, 0, 3), el(V, 3, 13, 14, 0, 2), el(ADD_, 4, 2, 3), el(W, 5, 14, 15, 0, 1)};
    tail(p);
    out(p);
  }
}
// branch identifiers recycled while an operation fetched under the old owner is still executing
static void f_recycle(const std::vector<int> &ks, int maxl, int maxg, const Sink &out) {
  for (int W : ks) for (int V : ks) for (int shape = 0; shape < 5; ++shape) for (int l = 1; l <= maxl; ++l) for (int g = 0; g <= maxg; ++g) {
    Prog p;
    p.e.push_back(el(LD_, 1, 10, 11, 0, l));
    p.e.push_back(el(BOK, 0, 1, 15));
    p.e.push_back(el(W, 2, 12, 13, 0, 9));
    p.e.push_back(el(V, 3, 2, 13, 0, 5));
    if (shape == 1) p.e.push_back(el(BMIS, 0, 1, 14));
    if (shape == 2) { p.e.push_back(el(BOK, 0, 14, 13)); p.e.push_back(el(JOK, 7, 1, 14)); }
    if (shape == 4) { p.e.push_back(el(BOK, 0, 1, 13)); p.e.push_back(el(BMIS, 0, 1, 12)); }
    p.e.push_back(el(BMIS, 0, 14, 15, g));
    if (shape == 3) { p.e.push_back(el(BOK, 0, 12, 14)); p.e.push_back(el(JMIS, 7, 14, 15)); }
    p.e.push_back(el(ADD_, 4, 3, 2));
    p.wp = {el(ADD_, 2, 2, 3), el(V, 3, 13, 14, 0, 2), el(BOK, 0, 14, 13)};
    tail(p);
    out(p);
  }
}
// two mispredicted branches resolving together, at every position of the reorder buffer
static void f_wrap(int maxn, const Sink &out) {
  for (int n = 0; n <= maxn; ++n) for (int k = 0; k < 4; ++k) for (int shape = 0; shape < 3; ++shape) {
    Prog p;
    for (int i = 0; i < n; ++i) p.e.push_back(el(ADD_, 4 + i % 3, 12, 13));
    p.e.push_back(el(LD_, 1, 10, 11, 0, 6));
    for (int i = 0; i < k; ++i) p.e.push_back(el(ADD_, 2, 12, 13));
    p.e.push_back(el(BMIS, 0, 1, 15));
    p.e.push_back(el(MUL_, 3, 1, 12));
    if (shape == 0) p.wp = {el(BMIS, 0, 1, 14), el(ADD_, 2, 1, 1)};
    if (shape == 1) p.wp = {el(ADD_, 2, 1, 1), el(ADD_, 3, 1, 2), el(JMIS, 2, 1, 14), el(LD_, 3, 1, 0, 0, 2)};
    if (shape == 2) p.wp = {el(BOK, 0, 1, 14), el(ADD_, 2, 1, 1), el(BMIS, 0, 1, 12)};
    tail(p);
    out(p);
  }
}
// an old operation held in a high queue slot while younger users of its result fill the lower ones
static void f_invert(const std::vector<int> &us, int maxn, int maxm, int step, const Sink &out) {
  for (int u : us) for (int n = 0; n <= maxn; ++n) for (int m = 1; m <= maxm; m += step) for (int l : {4, 9}) {
    Prog p;
    p.e.push_back(el(LD_, 1, 10, 11, 0, l));
    p.e.push_back(el(LD_, 3, 12, 11, 0, l + 26));
    for (int i = 0; i < n; ++i) p.e.push_back(el(u, 4, 1, 12 + i % 3, 0, 1));
    p.e.push_back(el(u, 2, 3, 13, 0, 2));
    if (u == ST_) p.e.push_back(el(MUL_, 2, 3, 13));
    for (int i = 0; i < m; ++i) p.e.push_back(el(u, 5 + i % 2, 2, 13, 0, 1));
    tail(p);
    out(p);
  }
}
// ---------------------------------------------------------------- values
static El raw(uint32_t w) { return {RAW_, (uint8_t)golden::bits(w, 11, 7), (uint8_t)golden::bits(w, 19, 15), (uint8_t)golden::bits(w, 24, 20), 0, 1, w}; }
typedef std::function<void(int rs1, int rs2, std::vector<El> &)> Emit;
// every pair of values: registers 1..15 hold one chunk, 16..30 another
static void pairs(const std::vector<uint32_t> &V, const std::string &name, const Emit &emit) {
  int nc = (int)(V.size() + 14) / 15;
  mc::parallel([&](int, int) {
    for (int64_t i; (i = mc::take(nc * nc)) >= 0;) {
      int x = (int)i / nc, y = (int)i % nc;
      Prog p;
      p.init.assign(32, 0);
      for (int k = 0; k < 15; ++k) { p.init[1 + k] = V[std::min<size_t>(x * 15 + k, V.size() - 1)]; p.init[16 + k] = V[std::min<size_t>(y * 15 + k, V.size() - 1)]; }
      for (int a = 1; a <= 15; ++a) for (int b = 16; b <= 30; ++b) emit(a, b, p.e);
      p.name = mc::fmt("%s, value block %d x %d", name.c_str(), x, y);
      go(p);
    }
  });
}
static void singles(const std::vector<uint32_t> &V, const std::string &name, const Emit &emit) {
  int nc = (int)(V.size() + 29) / 30;
  mc::parallel([&](int, int) {
    for (int64_t i; (i = mc::take(nc)) >= 0;) {
      Prog p;
      p.init.assign(32, 0);
      for (int k = 0; k < 30; ++k) p.init[1 + k] = V[std::min<size_t>(i * 30 + k, V.size() - 1)];
      for (int a = 1; a <= 30; ++a) emit(a, a % 30 + 1, p.e);
      p.name = mc::fmt("%s, value block %d", name.c_str(), (int)i);
      go(p);
    }
  });
}
static uint32_t I(uint32_t imm, int rs1, int f3, int rd, int op) { return (imm << 20) | (rs1 << 15) | (f3 << 12) | (rd << 7) | op; }
static uint32_t B(uint32_t imm, int rs2, int rs1, int f3) { return ((imm >> 12 & 1) << 31) | ((imm >> 5 & 63) << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) | ((imm >> 1 & 15) << 8) | ((imm >> 11 & 1) << 7) | 0x63; }
static uint32_t J(uint32_t imm, int rd) { return ((imm >> 20 & 1) << 31) | ((imm >> 1 & 1023) << 21) | ((imm >> 11 & 1) << 20) | ((imm >> 12 & 255) << 12) | (rd << 7) | 0x6f; }
static uint32_t S(uint32_t imm, int rs2, int rs1, int f3) { return ((imm >> 5 & 127) << 25) | (rs2 << 20) | (rs1 << 15) | (f3 << 12) | ((imm & 31) << 7) | 0x23; }
static void values(bool quick) {
  auto G = int_grid(!quick);
  for (int o = 0; o < NRR; ++o) {
    int f7 = RR[o][0], f3 = RR[o][1];
    if (f7 == 4 && f3 == 4) singles(G, "zext.h", [&](int a, int, std::vector<El> &e) { e.push_back(raw(R(4, 0, a, 4, 31, 0x33))); });
    pairs(G, mc::fmt("op %02x/%d", f7, f3), [&](int a, int b, std::vector<El> &e) { e.push_back(raw(R(f7, b, a, f3, 31, 0x33))); });
  }
  pairs(G, "branches", [&](int a, int b, std::vector<El> &e) { for (int f3 : {0, 1, 4, 5, 6, 7}) e.push_back(raw(B((a * 64 + b * 2) & 0x1ffe, b, a, f3))); });
  pairs(int_grid(false), "atomics", [&](int a, int b, std::vector<El> &e) { if ((a ^ b) & 3) return; for (int f5 : {0, 1, 4, 8, 12, 16, 20, 24, 28, 3, 2}) e.push_back(raw(R(f5 << 2, f5 == 2 ? 0 : b, a, 2, 31, 0x2f))); });
  std::vector<uint32_t> base = {0, 1, 3, 0x7ff, 0x800, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffff800, 0x80001000, 0x12345679, 0x55555555, 0xaaaaaaaa, 0xdeadbeef, 0x00ff00ff, 0x0f0f0f0f};
  for (uint32_t v : {0x00000080u, 0x00008000u, 0x00800000u, 0x01000000u, 0xff000000u, 0x00ff0000u, 0x0000ff00u, 0x000000ffu, 0x80808080u, 0x7f7f7f7fu, 0x01010101u, 0xcafebabeu, 0x7fff8000u, 0x8000ffffu}) base.push_back(v);
  // every immediate
  mc::parallel([&](int, int) {
    for (int64_t i; (i = mc::take(4096)) >= 0;) {
      uint32_t imm = (uint32_t)i, r;
      Prog p;
      p.init.assign(32, 0);
      for (int k = 0; k < 30; ++k) p.init[1 + k] = base[k];
      for (int a = 1; a <= 30; ++a) {
        for (int f3 = 0; f3 < 8; ++f3) if (golden::alu_ri(I(imm, a, f3, 31, 0x13), 0, r)) p.e.push_back(raw(I(imm, a, f3, 31, 0x13)));
        if (a % 3 == 0) { p.e.push_back(raw(I(imm, a, 0, 31, 0x67))); for (int f3 : {0, 1, 2, 4, 5}) if (a % 5 == f3 % 5) p.e.push_back(raw(I(imm, a, f3, 31, 0x03))); p.e.push_back(raw(S(imm, a % 30 + 1, a, a % 3))); }
      }
      p.e.push_back(raw(B(imm << 1, 3, 3, 0))); p.e.push_back(raw(B(imm << 1, 3, 3, 1)));
      for (int k = 0; k < 64; ++k) { uint32_t v = imm << 6 | k; if (quick && k % 16 && k != 63 && imm % 16) continue; p.e.push_back(raw(J(v << 3, 31))); p.e.push_back(raw((v << 14) | (31 << 7) | 0x37)); p.e.push_back(raw((v << 14) | (k << 12) | (31 << 7) | 0x17)); }
      for (int k = 0; k < 21; ++k) p.e.push_back(raw(J((1u << k) & 0x1ffffe, 31)));
      p.name = mc::fmt("immediate %03x", imm);
      go(p);
    }
  });
  // every register as destination and source
  mc::parallel([&](int, int) {
    for (int64_t i; (i = mc::take(32)) >= 0;) {
      Prog p;
      for (int a = 0; a < 32; ++a) for (int b = 0; b < 32; ++b) p.e.push_back(raw(R(0, b, a, 0, (int)i, 0x33)));
      for (int a = 0; a < 32; ++a) { p.e.push_back(raw(I(a, a, 0, (int)i, 0x13))); p.e.push_back(raw(I(a, a, 0, (int)i, 0x67))); p.e.push_back(raw(I(a, a, 2, (int)i, 0x03))); p.e.push_back(raw(S(a, (int)i, a, 2))); p.e.push_back(raw(J(a * 4, (int)i))); p.e.push_back(raw((uint32_t)a << 12 | (uint32_t)i << 7 | 0x17)); p.e.push_back(raw(R(0, (int)i, a, 2, a, 0x2f))); p.e.push_back(raw(R(0, a, a, 2, (int)i, 0x2f))); p.e.push_back(raw(B(16, a, (int)i, 5))); }
      p.name = mc::fmt("all register names, destination x%d", (int)i);
      go(p);
    }
  });
  auto F = fp_grid(quick ? 0 : 1);
  static const int rms[] = {0, 1, 2, 3, 4, 7};
  if (quick) { std::vector<uint32_t> f; for (size_t i = 0; i < F.size(); ++i) if (i % 2 == 0 || F[i] % 0x800000 < 2) f.push_back(F[i]); F = f; }
  for (int f7 : {0x00, 0x04, 0x08, 0x0c}) for (int rm : rms) pairs(F, mc::fmt("fp %02x rounding %d", f7, rm), [&](int a, int b, std::vector<El> &e) { e.push_back(raw(R(f7, b, a, rm, 31, 0x53))); });
  for (int f7 : {0x10, 0x14, 0x50}) for (int f3 = 0; f3 < (f7 == 0x14 ? 2 : 3); ++f3) pairs(F, mc::fmt("fp %02x/%d", f7, f3), [&](int a, int b, std::vector<El> &e) { e.push_back(raw(R(f7, b, a, f3, 31, 0x53))); });
  auto F1 = fp_grid(1);
  for (uint32_t e = 126; e < 160; ++e) for (int b = 0; b < 23; ++b) for (uint32_t m : {1u << b, (1u << b) - 1, (1u << b) | 1}) { F1.push_back(e << 23 | m); F1.push_back(1u << 31 | e << 23 | m); }
  auto IG = int_grid(true);
  singles(F1, "fp unary", [&](int a, int, std::vector<El> &e) {
    for (int rm : rms) { e.push_back(raw(R(0x2c, 0, a, rm, 31, 0x53))); e.push_back(raw(R(0x60, 0, a, rm, 31, 0x53))); e.push_back(raw(R(0x60, 1, a, rm, 31, 0x53))); }
    e.push_back(raw(R(0x70, 0, a, 1, 31, 0x53)));
  });
  singles(IG, "integer to fp", [&](int a, int, std::vector<El> &e) { for (int rm : rms) { e.push_back(raw(R(0x68, 0, a, rm, 31, 0x53))); e.push_back(raw(R(0x68, 1, a, rm, 31, 0x53))); } });
}
// ---------------------------------------------------------------- decoding
static void decode_all(bool) {
  struct D { Idu idu{&ctx, MAX_BR_PER_CYCLE}; PreIduIssueIO issue; IduConsumeIO cons; DecRenIO out; DecBroadcastIO bc; RenDecIO rd; RobBroadcastIO rb; ExuIdIO ex; };
  mc::parallel([&](int, int) {
    D *d = new D;
    d->idu.in = {&d->issue, &d->rd, &d->rb, &d->ex}; d->idu.out = {&d->out, &d->bc, &d->cons};
    d->idu.init();
    for (int64_t i; (i = mc::take(128 * 8)) >= 0;) {
      uint32_t op = i & 127, f3 = (uint32_t)i >> 7;
      mc::current("decode opcode %02x funct3 %u", op, f3);
      for (uint32_t hi = 0; hi < 4096; ++hi) for (uint32_t v = 0; v < 6; ++v) {
        uint32_t rd = v == 0 ? 0 : v == 1 ? 1 : v == 2 ? 31 : v == 3 ? 10 : v == 4 ? 0 : 16, rs1 = v == 0 ? 0 : v == 1 ? 2 : v == 2 ? 31 : v == 3 ? 1 : v == 4 ? 5 : 16;
        uint32_t w = hi << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op;
        int lane = (hi + v) % DECODE_WIDTH;
        d->issue = PreIduIssueIO();
        auto &e = d->issue.entries[lane];
        e.valid = true; e.inst = w; e.pc = 0x80001000u + hi * 4; e.ftq_idx = hi % FTQ_SIZE; e.ftq_offset = hi % FETCH_WIDTH; e.ftq_is_last = hi >> 3 & 1; e.page_fault_inst = hi % 97 == 5;
        if (lane) { d->issue.entries[0].valid = true; d->issue.entries[0].inst = 0x13; }
        d->rd.ready = true;
        d->idu.comb_begin(); d->idu.comb_decode();
        mc::trans();
        auto &u = d->out.uop[lane];
        auto bad = [&](const char *k, const std::string &t) {
          if (strcmp(want, "P24")) return;
          mc::violation(mc::fmt("P24:decode-%s", k), mc::fmt("%08x", w), mc::fmt("instruction %08x decodes wrongly: %s: %s", w, k, t.c_str()));
        };
        if (!d->out.valid[lane]) { bad("lost", "instruction not passed on"); continue; }
        if ((bool)u.page_fault_inst != (bool)e.page_fault_inst) { bad("fetch-fault", "fetch page fault mark changed"); continue; }
        if (u.ftq_idx != e.ftq_idx || u.ftq_offset != e.ftq_offset || u.ftq_is_last != e.ftq_is_last) { bad("fetch-target", "fetch target coordinates changed"); continue; }
        if (e.page_fault_inst) continue;
        bool legal_op = op == 0x37 || op == 0x17 || op == 0x6f || op == 0x67 || op == 0x63 || op == 0x03 || op == 0x23 || op == 0x13 || op == 0x33 || op == 0x0f || op == 0x73 || op == 0x2f || op == 0x53;
        bool csr = op == 0x73 && f3 & 3;
        bool ill = !legal_op || (csr && (hi == 0xc01 || hi == 0xc81));
        if ((bool)u.illegal_inst != ill) { bad("illegal", ill ? "not flagged illegal" : "flagged illegal"); continue; }
        if (ill) continue;
        InstType ty = decode_inst_type(u.type), ex = NOP;
        switch (op) {
        case 0x37: case 0x17: case 0x13: ex = ADD; break;
        case 0x33: ex = hi >> 5 == 1 ? (f3 & 4 ? DIV : MUL) : ADD; break;
        case 0x6f: ex = JAL; break; case 0x67: ex = JALR; break; case 0x63: ex = BR; break; case 0x03: ex = LOAD; break; case 0x23: ex = STORE; break;
        case 0x0f: ex = f3 == 1 ? FENCE_I : FENCE; break; case 0x2f: ex = AMO; break; case 0x53: ex = FP; break;
        case 0x73:
          if (csr) { int n = golden::csr_of(hi); ex = n < 0 ? NOP : CSR; }
          else if (f3 == 0 && w == 0x00000073) ex = ECALL; else if (w == 0x00100073) ex = EBREAK; else if (w == 0x30200073) ex = MRET; else if (w == 0x10200073) ex = SRET; else if (w == 0x10500073) ex = WFI;
          else if (f3 == 0 && rd == 0 && hi >> 5 == 9) ex = SFENCE_VMA;
        }
        if (ty != ex && f3 != 4) { bad("class", mc::fmt("operation class %d, expected %d", (int)ty, (int)ex)); continue; }
        bool wr = (op == 0x37 || op == 0x17 || op == 0x6f || op == 0x67 || op == 0x03 || op == 0x13 || op == 0x33 || op == 0x53 || op == 0x2f || ex == CSR) && rd != 0;
        if (op == 0x2f && rd == 0) continue;
        if ((bool)u.dest_en != wr || (wr && u.dest_areg != rd)) { bad("destination", mc::fmt("writes x%d (%d), expected x%u (%d)", (int)u.dest_areg, (int)u.dest_en, rd, wr)); continue; }
        if (ex == CSR && u.csr_idx != hi) { bad("csr", "wrong CSR number"); continue; }
      }
    }
    delete d;
  });
}
int main(int argc, char **argv) {
  want = argc > 1 ? argv[1] : "P22";
  bool quick = argc < 3 || !strcmp(argv[2], "quick");
  mc::init();
  if (!strcmp(want, "P24")) { decode_all(quick); values(quick); }
  std::vector<Prog> all;
  Sink s = [&](const Prog &p) { all.push_back(p); };
  std::vector<int> every = {ADD_, MUL_, DIV_, FADD_, FMUL_, FDIV_, FCVT_, LD_, ST_, BOK, BMIS, JOK, JMIS, JAL_, AMO_, LUI_, AUI_, CSR_};
  std::vector<int> slow = {ADD_, MUL_, DIV_, FADD_, LD_};
  auto run = [&](const char *name) {
    mc::parallel([&](int, int) {
      for (int64_t i; (i = mc::take(all.size(), 16)) >= 0;)
        for (size_t j = i; j < all.size() && j < (size_t)i + 16; ++j) go(all[j]);
    });
    (void)name;
    all.clear();
  };
  f_three(every, quick ? std::vector<int>{1, 4} : std::vector<int>{1, 2, 3, 7}, true, quick ? 1 : 3, s); run("three");
  f_three(every, {2}, false, 1, s); run("three-rest");
  f_gap(slow, {ADD_, ST_, BOK, MUL_}, 22, {-1, ADD_}, s); run("gap");
  if (!quick) { f_gap({ADD_, MUL_, DIV_, FADD_, FDIV_, FCVT_, LD_}, {ADD_, ST_, BOK, MUL_, DIV_, FADD_, LD_}, 26, {-1, ADD_, MUL_, LD_, ST_, FADD_, DIV_}, s); run("gap-all"); }
  f_gap3(slow, 0, 20, 20, s); run("gap3");
  f_fill({DIV_, LD_}, {ADD_, ST_, LD_, MUL_, BOK}, quick ? 40 : 60, quick ? 2 : 1, s); run("fill");
  f_branches(quick ? 17 : 20, s); run("branches");
  f_wrong(quick ? std::vector<int>{ADD_, MUL_, DIV_, FADD_, LD_} : std::vector<int>{ADD_, MUL_, DIV_, FADD_, FMUL_, FDIV_, LD_, ST_, JOK}, quick ? std::vector<int>{DIV_, LD_, MUL_} : std::vector<int>{ADD_, DIV_, LD_, MUL_, FADD_, FDIV_}, 22, s); run("wrong");
  f_recycle(quick ? std::vector<int>{ADD_, MUL_, DIV_, FADD_, LD_} : std::vector<int>{ADD_, MUL_, DIV_, FADD_, FDIV_, LD_, ST_}, 14, quick ? 12 : 20, s); run("recycle");
  f_wrap(80, s); run("wrap");
  f_invert({ADD_, LD_, MUL_, ST_, BOK}, 17, 20, 1, s); run("invert");
  f_flush(quick ? std::vector<int>{ADD_, DIV_, FADD_, LD_, ST_, BMIS} : every, quick ? 24 : 50, s); run("flush");
  return mc::report({{"bounds", "see families in DESIGN.md"}});
}
