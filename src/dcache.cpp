// P30: the data cache with its miss engine and write-back buffer, driven through the
// load/store ports on one side and the bus ports on the other.
#include "mc.h"
#include "MemSubsystem.h"
#include "SimCpu.h"
#include "PhysMemory.h"
#include <algorithm>
#include <new>
long long sim_time = 0;

// everything the code under test keeps on the heap lives in one image, so that a state can be saved
static bool arena_on;
static constexpr size_t ARENA = 8192;
static constexpr int W = DCACHE_WORD_NUM, NP = 40, MAXOP = 24;
static constexpr int NL = 24;
struct Line { int set, tag; };
static Line line_of(int l) {
  if (l < 14) return {5, l + 1};
  if (l < 16) return {5 + DCACHE_BANK_NUM, l - 13};
  return {6 + (l - 16) % 10, 1};
}
static const int USED_SETS[] = {5, 5 + DCACHE_BANK_NUM, 6, 7, 8, 9, 10, 11, 12, 13};
static uint32_t addr_of(int l, int w) {
  Line x = line_of(l);
  return 0x80000000u + (uint32_t)x.tag * DCACHE_SETS_NUM * DCACHE_LINE_SIZE + x.set * DCACHE_LINE_SIZE + w * 4;
}
static int line_at(uint32_t a) {
  for (int l = 0; l < NL; ++l) if (addr_of(l, 0) == a) return l;
  return -1;
}

enum Kind : uint8_t { LD, ST, PTW, ICP };
struct Op { Kind k; uint8_t line, word, strb; };
enum Stat : uint8_t { TODO, SENT, DONE };
struct OpSt { Stat st; uint8_t wait, age; uint32_t want; };
struct Rd { uint8_t id, line, age; uint32_t data[W]; };

struct Env {
  OpSt op[MAXOP];
  uint8_t nop, nload, nstore;       // ops known, in flight on each port
  int8_t lport[LSU_LDU_COUNT], sport[LSU_STA_COUNT];
  int8_t ptw, icp, icn;                  // op using the walker / probe port
  uint8_t nrd; Rd rd[DCACHE_MSHR_ENTRIES + 2];
  int8_t shown;                     // read whose response is on the bus
  uint8_t racc, racc_id;            // acceptance pulse for the next tick
  uint8_t wpend, wacc, wage; uint8_t wline; uint32_t wdata[W];
  uint32_t mem[NL][W];
  uint16_t cyc;
  uint8_t gap[MAXOP];               // cycles until the op reaches the cache
};
static struct Img {
  alignas(64) uint8_t ms[sizeof(MemSubsystem)];
  alignas(64) uint8_t heap[ARENA];
  size_t top;
  LsuDcacheIO l2d; DcacheLsuIO d2l;
  ICacheMemPortReq ireq; ICacheMemPortResp iresp;
  PeripheralReqIO preq; PeripheralRespIO presp;
  CsrInterruptInjectIO inj;
  Env e;
} G;
void *operator new(size_t n) {
  if (arena_on && n <= 1024) {
    size_t at = (G.top + 63) & ~size_t(63);
    if (at + n <= ARENA) { G.top = at + n; return G.heap + at; }
  }
  void *p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
static bool in_arena(void *p) { return (uint8_t *)p >= G.heap && (uint8_t *)p < G.heap + ARENA; }
void operator delete(void *p) noexcept { if (!in_arena(p)) free(p); }
void operator delete(void *p, size_t) noexcept { if (!in_arena(p)) free(p); }

struct SetImg { uint32_t tag[DCACHE_WAYS_NUM], data[DCACHE_WAYS_NUM][W]; uint8_t v[DCACHE_WAYS_NUM], d[DCACHE_WAYS_NUM], p[DCACHE_PLRU_TREE_BITS]; };
static int nsets = 3;
struct Snap { Img g; SetImg s[10]; };
static void save(Snap &x) {
  x.g = G;
  for (int i = 0; i < nsets; ++i) {
    int s = USED_SETS[i];
    memcpy(x.s[i].tag, tag_array[s], sizeof x.s[i].tag); memcpy(x.s[i].data, data_array[s], sizeof x.s[i].data);
    for (int w = 0; w < DCACHE_WAYS_NUM; ++w) { x.s[i].v[w] = valid_array[s][w]; x.s[i].d[w] = dirty_array[s][w]; }
    for (int b = 0; b < DCACHE_PLRU_TREE_BITS; ++b) x.s[i].p[b] = plru_tree_state[s][b];
  }
}
static void load(const Snap &x) {
  G = x.g;
  for (int i = 0; i < nsets; ++i) {
    int s = USED_SETS[i];
    memcpy(tag_array[s], x.s[i].tag, sizeof x.s[i].tag); memcpy(data_array[s], x.s[i].data, sizeof x.s[i].data);
    for (int w = 0; w < DCACHE_WAYS_NUM; ++w) { valid_array[s][w] = x.s[i].v[w]; dirty_array[s][w] = x.s[i].d[w]; }
    for (int b = 0; b < DCACHE_PLRU_TREE_BITS; ++b) plru_tree_state[s][b] = x.s[i].p[b];
  }
}
static uint64_t hash_state() {
  uint64_t h = mc::hash_bytes(G.ms, sizeof G.ms);
  h = mc::hash_bytes(G.heap, G.top, h);
  h = mc::hash_bytes(&G.d2l, sizeof G.d2l, h);
  for (int i = 0; i < nsets; ++i) {
    int s = USED_SETS[i];
    h = mc::hash_bytes(tag_array[s], sizeof tag_array[s], h); h = mc::hash_bytes(data_array[s], sizeof data_array[s], h);
    h = mc::hash_bytes(valid_array[s], sizeof valid_array[s], h); h = mc::hash_bytes(dirty_array[s], sizeof dirty_array[s], h);
    h = mc::hash_bytes(plru_tree_state[s], sizeof plru_tree_state[s], h);
  }
  return mc::hash_bytes(&G.e, sizeof G.e, h);
}

static std::string want_prop;
static SimContext ctx;
static MemSubsystem *M;
static std::vector<Op> prog;      // prefix and program
static uint32_t gold[NL][W];
static bool bad;
static std::string pre;
struct Choice { uint8_t issue, racc, wacc, resp, b; };
static std::vector<std::string> hist;
static const char *KN[] = {"load", "store", "walker-read", "fetch-probe"};
static std::string opname(int i) {
  const Op &o = prog[i];
  return mc::fmt("%s line(set %d,tag %d) word %d%s", KN[o.k], line_of(o.line).set, line_of(o.line).tag, o.word, o.k == ST ? mc::fmt(" strobe %x", o.strb).c_str() : "");
}
static std::string hs() {
  std::string s = pre + " |";
  for (auto &h : hist) s += " " + h;
  return s.substr(0, 1400);
}
static void fail(const char *prop, const char *k, const std::string &t) {
  bad = true;
  // a wrong value may come from the cache or from either engine behind it; routing has its own keys
  bool routing = !strcmp(prop, "P34") || !strcmp(k, "no-answer") || !strcmp(k, "wrong-id") || !strcmp(k, "unasked") || !strcmp(k, "no-progress");
  if (want_prop == "P34" && !routing) return;
  prop = want_prop.c_str();
  mc::violation(mc::fmt("%s:%s", prop, k), hs(), mc::fmt("%s: %s; case: %s", k, t.c_str(), hs().c_str()));
}
static uint32_t byte_mask(int strb) { uint32_t m = 0; for (int i = 0; i < 4; ++i) if (strb >> i & 1) m |= 0xffu << (8 * i); return m; }
static uint32_t store_val(int i) { return 0xC0000000u + 0x01010101u * (uint32_t)(i + 1); }
static bool overlap(const Op &a, const Op &b) {
  int sa = a.k == ST ? a.strb : 15, sb = b.k == ST ? b.strb : 15;
  return a.line == b.line && a.word == b.word && (sa & sb);
}
static bool issuable(int j) {
  Env &e = G.e;
  if (e.op[j].st != TODO || e.op[j].wait || e.gap[j]) return false;
  for (int i = 0; i < j; ++i) {
    bool si = prog[i].k == ST, sj = prog[j].k == ST;
    if ((!si && !sj) || !overlap(prog[i], prog[j])) continue;
    if (e.op[i].st != DONE) return false;
    if (!(si && sj) && e.op[i].age < 1) return false; // only a younger store may follow in the answering cycle
  }
  return true;
}

static void wire_up() {
  memset(&G, 0, sizeof G);
  arena_on = true;
  M = new (G.ms) MemSubsystem(&ctx);
  M->lsu2dcache = &G.l2d; M->dcache2lsu = &G.d2l; M->icache_req = &G.ireq; M->icache_resp = &G.iresp;
  M->peripheral_req = &G.preq; M->peripheral_resp = &G.presp; M->csr_interrupt_inject = &G.inj; M->memory = p_memory;
  M->init();
  M->set_internal_axi_runtime_active(false);
  arena_on = false;
  G.l2d = LsuDcacheIO(); G.l2d.req_ports = {}; G.d2l = {};
  Env &e = G.e;
  e.shown = -1; e.ptw = e.icp = -1;
  for (auto &p : e.lport) p = -1;
  for (auto &p : e.sport) p = -1;
  for (int l = 0; l < NL; ++l) for (int w = 0; w < W; ++w) gold[l][w] = e.mem[l][w] = 0x40000000u + l * 0x10000 + w * 0x101;
}
// adds an op to the program; the golden value of a load is what precedes it in program order
static void add(const Op &o) {
  int i = (int)prog.size();
  prog.push_back(o);
  G.e.op[i] = {TODO, 0, 0, 0};
  if (o.k == ST) { uint32_t m = byte_mask(o.strb); gold[o.line][o.word] = (gold[o.line][o.word] & ~m) | (store_val(i) & m); }
  else G.e.op[i].want = gold[o.line][o.word];
  G.e.nop = (uint8_t)prog.size();
}

struct Policy { int lat, blat, ticks; int hold_from, hold_cycles; bool no_write; };
static Policy pol;
// ---- the bus -----------------------------------------------------------------------------
static void bus_drive(int resp_choice, int b) { // inputs of a tick
  Env &e = G.e;
  MshrAxiIn &r = M->mshr_axi_in; WbAxiIn &w = M->wb_axi_in;
  r = {}; w = {};
  r.req_ready = true; w.req_ready = true;
  r.req_accepted = e.racc; r.req_accepted_id = e.racc_id; e.racc = 0;
  w.req_accepted = e.wacc; e.wacc = 0;
  if (e.shown < 0 && resp_choice > 0 && resp_choice <= e.nrd) e.shown = (int8_t)(resp_choice - 1);
  if (e.shown >= 0) {
    r.resp_valid = true; r.resp_id = e.rd[e.shown].id;
    for (int i = 0; i < W; ++i) r.resp_data[i] = e.rd[e.shown].data[i];
  }
  if (b && e.wpend) {
    w.resp_valid = true; e.wpend = 0;
    memcpy(e.mem[e.wline], e.wdata, sizeof e.wdata);
    memset(e.wdata, 0, sizeof e.wdata); e.wline = 0; e.wage = 0;
  }
}
static void bus_sample(int racc, int wacc) { // outputs of a tick
  Env &e = G.e;
  MshrAxiOut &r = M->mshr_axi_out; WbAxiOut &w = M->wb_axi_out;
  if (e.shown >= 0 && r.resp_ready) {
    for (int i = e.shown; i + 1 < e.nrd; ++i) e.rd[i] = e.rd[i + 1];
    memset(&e.rd[--e.nrd], 0, sizeof(Rd)); e.shown = -1;
  }
  for (int i = 0; i < e.nrd; ++i) if (e.rd[i].age <= pol.lat) e.rd[i].age++;
  if (e.wpend && e.wage <= pol.blat) e.wage++;
  if (r.req_valid && racc) {
    int l = line_at(r.req_addr);
    if (l < 0) return fail("P31", "read-address", mc::fmt("bus read of 0x%08x, which nobody asked for", (unsigned)r.req_addr));
    if (r.req_total_size != DCACHE_LINE_SIZE - 1) return fail("P31", "read-size", "bus read is not a whole line");
    for (int i = 0; i < e.nrd; ++i) {
      if (e.rd[i].id == r.req_id) return fail("P31", "read-id", "two outstanding bus reads carry the same id");
      if (e.rd[i].line == l) return fail("P31", "read-twice", "a line is read twice at the same time");
    }
    if (e.nrd > DCACHE_MSHR_ENTRIES) return fail("P31", "read-overflow", "more bus reads outstanding than miss entries");
    Rd &x = e.rd[e.nrd++];
    x.id = r.req_id; x.line = (uint8_t)l; x.age = 0;
    memcpy(x.data, e.mem[l], sizeof x.data);
    e.racc = 1; e.racc_id = r.req_id;
  }
  if (w.req_valid && wacc && !e.wpend) {
    int l = line_at(w.req_addr);
    if (l < 0) return fail("P31", "write-address", mc::fmt("bus write of 0x%08x, which nobody wrote", (unsigned)w.req_addr));
    if (w.req_total_size != DCACHE_LINE_SIZE - 1 || w.req_wstrb != ~0ull) return fail("P31", "write-size", "bus write is not a whole line");
    e.wpend = 1; e.wacc = 1; e.wage = 0; e.wline = (uint8_t)l;
    for (int i = 0; i < W; ++i) e.wdata[i] = w.req_wdata[i];
  }
}

// ---- one cycle ---------------------------------------------------------------------------
static int ticks_done;
static bool eff_issue, eff_racc, eff_wacc; // the deviation of this cycle changed something
static std::vector<int> issue_list() { std::vector<int> v; for (int i = 0; i < (int)prog.size(); ++i) if (issuable(i)) v.push_back(i); return v; }
static void answer(int i, bool hit, ReplayType rep, uint32_t data) {
  Env &e = G.e;
  if (hit) {
    e.op[i].st = DONE; e.op[i].age = 0;
    if (prog[i].k != ST && data != e.op[i].want)
      fail("P30", "stale-data", mc::fmt("%s returned 0x%08x, the latest stored value is 0x%08x", opname(i).c_str(), data, e.op[i].want));
  } else {
    e.op[i].st = TODO;
    e.op[i].wait = rep == ReplayType::MSHR_HIT || rep == ReplayType::MSHR_FULL ? LSU_PEPLAY_WAIT_CYCLES : 0;
  }
}
static void collect() { // responses visible in this cycle
  Env &e = G.e;
  for (int i = 0; i < (int)prog.size(); ++i) if (e.op[i].st == DONE && e.op[i].age < 1) e.op[i].age++;
  for (int p = 0; p < LSU_LDU_COUNT; ++p) {
    auto &r = G.d2l.resp_ports.load_resps[p];
    int i = e.lport[p]; e.lport[p] = -1;
    if (i < 0) { if (r.valid) return fail("P30", "unasked", "load response although no load was sent on the port"); continue; }
    if (!r.valid) return fail("P30", "no-answer", mc::fmt("%s was neither answered nor told to retry", opname(i).c_str()));
    if (r.req_id != (uint32_t)(i * 7 + 1)) return fail("P30", "wrong-id", "load response carries another request's id");
    answer(i, r.replay == ReplayType::HIT, r.replay, r.data);
    if (bad) return;
  }
  for (int p = 0; p < LSU_STA_COUNT; ++p) {
    auto &r = G.d2l.resp_ports.store_resps[p];
    int i = e.sport[p]; e.sport[p] = -1;
    if (i < 0) { if (r.valid) return fail("P30", "unasked", "store response although no store was sent on the port"); continue; }
    if (!r.valid) return fail("P30", "no-answer", mc::fmt("%s was neither answered nor told to retry", opname(i).c_str()));
    if (r.req_id != (uint32_t)(i * 7 + 1)) return fail("P30", "wrong-id", "store response carries another request's id");
    answer(i, r.replay == ReplayType::HIT, r.replay, 0);
    if (bad) return;
  }
  if (e.icp >= 0) {
    int i = e.icp;
    if (G.iresp.resp_valid) {
      e.icp = -1; e.op[i].st = DONE; e.op[i].age = 0;
      if (G.iresp.resp_miss && e.mem[prog[i].line][prog[i].word] != e.op[i].want)
        return fail("P30", "probe-miss", mc::fmt("%s is answered 'not held' while memory has 0x%08x and the latest stored value is 0x%08x", opname(i).c_str(), e.mem[prog[i].line][prog[i].word], e.op[i].want));
      if (!G.iresp.resp_miss && G.iresp.resp_data != e.op[i].want)
        return fail("P30", "probe-data", mc::fmt("%s returned 0x%08x, the latest stored value is 0x%08x", opname(i).c_str(), (unsigned)G.iresp.resp_data, e.op[i].want));
    }
  } else if (G.iresp.resp_valid) return fail("P34", "unasked", "fetch probe response although none was asked");
  if (G.d2l.mshr_fill) {
    int l = line_at(G.d2l.mshr_fill_addr);
    for (int i = 0; i < (int)prog.size(); ++i) if (e.op[i].wait && (l == prog[i].line || true)) e.op[i].wait = 0;
  }
  for (int i = 0; i < (int)prog.size(); ++i) { if (e.op[i].st == TODO && e.op[i].wait) e.op[i].wait--; if (e.gap[i]) e.gap[i]--; }
}
static void send(int issue) { // 0 all, 1 none, 2+k only the k-th
  Env &e = G.e;
  G.l2d.req_ports = {};
  auto v = issue_list();
  eff_issue = issue == 1 ? !v.empty() : issue >= 2 ? (int)v.size() > issue - 2 && v.size() > 1 : true;
  int nl = 0, ns = 0;
  for (size_t k = 0; k < v.size(); ++k) {
    if (issue == 1 || (issue >= 2 && (int)k != issue - 2)) continue;
    int i = v[k];
    const Op &o = prog[i];
    if (o.k == LD && nl < LSU_LDU_COUNT) {
      auto &q = G.l2d.req_ports.load_ports[nl];
      q.valid = true; q.addr = addr_of(o.line, o.word); q.req_id = i * 7 + 1; e.lport[nl++] = (int8_t)i; e.op[i].st = SENT;
    } else if (o.k == ST && ns < LSU_STA_COUNT) {
      bool clash = false; // stores of one cycle never overlap
      for (int p = 0; p < ns; ++p) clash |= overlap(prog[e.sport[p]], o);
      if (clash) continue;
      auto &q = G.l2d.req_ports.store_ports[ns];
      q.valid = true; q.addr = addr_of(o.line, o.word); q.data = store_val(i) & byte_mask(o.strb); q.strb = o.strb; q.req_id = i * 7 + 1;
      e.sport[ns++] = (int8_t)i; e.op[i].st = SENT;
    } else if (o.k == PTW && e.ptw < 0) {
      if (M->dtlb_ptw_port->send_read_req(addr_of(o.line, o.word))) { e.ptw = (int8_t)i; e.op[i].st = SENT; }
    } else if (o.k == ICP && e.icp < 0) { e.icp = (int8_t)i; e.icn = 1; e.op[i].st = SENT; }
  }
}
static int def_resp() {
  Env &e = G.e;
  for (int i = 0; i < e.nrd; ++i)
    if (e.rd[i].age > pol.lat && !(e.rd[i].line >= pol.hold_from && e.cyc < pol.hold_cycles)) return i + 1;
  return 0;
}
static int def_b() { return G.e.wpend && G.e.wage > pol.blat; }
// one CPU cycle; deviations apply to tick `at` of it
static void cycle(const Choice &c) {
  Env &e = G.e;
  bus_drive(c.resp, c.b);
  G.ireq = {}; // the fetch side shows a probe for one cycle
  if (e.icn) { G.ireq.req_valid = true; G.ireq.req_addr = addr_of(prog[e.icp].line, prog[e.icp].word); e.icn = 0; }
  M->comb_outputs();
  collect();
  if (bad) return;
  if (e.ptw >= 0 && M->dtlb_ptw_port->resp_valid()) {
    int i = e.ptw; e.ptw = -1; e.op[i].st = DONE; e.op[i].age = 0;
    uint32_t d = M->dtlb_ptw_port->resp_data();
    M->dtlb_ptw_port->consume_resp();
    if (d != e.op[i].want) return fail("P30", "stale-data", mc::fmt("%s returned 0x%08x, the latest stored value is 0x%08x", opname(i).c_str(), d, e.op[i].want));
  }
  send(c.issue);
  M->comb_inputs();
  eff_racc = M->mshr_axi_out.req_valid; eff_wacc = M->wb_axi_out.req_valid && !e.wpend;
  bus_sample(c.racc, c.wacc);
  if (bad) return;
  M->seq();
  for (int t = 1; t < pol.ticks; ++t) {
    bus_drive(def_resp(), def_b());
    M->dcache_fast_comb(false);
    bus_sample(1, !pol.no_write);
    if (bad) return;
    M->dcache_fast_seq(false);
  }
  if (e.cyc < pol.hold_cycles) e.cyc++;
  ++ticks_done;
  mc::trans();
}
static Choice dflt() { return {0, 1, (uint8_t)(pol.no_write ? 0 : 1), (uint8_t)def_resp(), (uint8_t)def_b()}; }
static bool all_done() { for (int i = 0; i < (int)prog.size(); ++i) if (G.e.op[i].st != DONE) return false; return true; }
static bool quiet() { Env &e = G.e; return !e.nrd && !e.wpend && !M->mshr_axi_out.req_valid && !M->wb_axi_out.req_valid && e.icp < 0 && e.ptw < 0; }
static bool run_out(int limit) { // default behaviour until everything is finished
  for (int n = 0; n < limit; ++n) {
    if (all_done()) return true;
    if (n > 40) pol.no_write = false; // the bus answers everything in the end
    cycle(dflt());
    if (bad) return false;
  }
  return all_done();
}
static void final_check() {
  pol.no_write = false; pol.lat = 0; pol.blat = 0; pol.hold_cycles = 0;
  for (int n = 0, q = 0; q < 8; ++n) {
    if (n > 600) return fail("P30", "never-drains", "write-backs never drain");
    q = quiet() ? q + 1 : 0;
    cycle(dflt());
    if (bad) return;
  }
  for (int l = 0; l < NL; ++l) {
    Line x = line_of(l);
    uint32_t tag = addr_of(l, 0) >> (DCACHE_OFFSET_BITS + DCACHE_SET_BITS);
    int copies = 0; bool dirty = false;
    for (int w = 0; w < DCACHE_WAYS_NUM; ++w) {
      if (!valid_array[x.set][w] || tag_array[x.set][w] != tag) continue;
      copies++; dirty |= dirty_array[x.set][w] != 0;
      for (int k = 0; k < W; ++k)
        if (data_array[x.set][w][k] != gold[l][k])
          return fail("P30", "cached-value", mc::fmt("after draining, line (set %d,tag %d) word %d is 0x%08x in the cache, last stored 0x%08x", x.set, x.tag, k, data_array[x.set][w][k], gold[l][k]));
    }
    if (copies > 1) return fail("P30", "two-copies", mc::fmt("line (set %d,tag %d) is in the cache twice", x.set, x.tag));
    if (!dirty) for (int k = 0; k < W; ++k)
      if (G.e.mem[l][k] != gold[l][k])
        return fail("P30", "memory-value", mc::fmt("after draining, line (set %d,tag %d) word %d is 0x%08x in memory, last stored 0x%08x", x.set, x.tag, k, G.e.mem[l][k], gold[l][k]));
  }
  mc::trace();
}
static std::string chs(const Choice &c, const Choice &d) {
  std::string s = mc::fmt("c%d:", ticks_done);
  if (c.issue != d.issue) s += c.issue == 1 ? "hold-ops," : mc::fmt("only-op#%d,", c.issue - 2);
  if (c.racc != d.racc) s += "read-not-accepted,";
  if (c.wacc != d.wacc) s += c.wacc ? "write-accepted," : "write-not-accepted,";
  if (c.resp != d.resp) s += c.resp ? mc::fmt("answer-read#%d,", c.resp - 1) : "no-read-answer,";
  if (c.b != d.b) s += c.b ? "write-answered," : "no-write-answer,";
  return s;
}
static uint64_t salt;
static double t0 = mc::now();
static void dfs(int budget, int depth) {
  if (bad) return;
  if (!mc::visit(mc::mix(hash_state(), salt * 16 + budget))) return;
  if (all_done()) {
    if (budget && !mc::visit(mc::mix(hash_state(), salt * 16))) return;
    Snap x; save(x); Policy p = pol;
    final_check();
    pol = p; load(x);
    return;
  }
  if (!budget) {
    Snap x; save(x); Policy p = pol;
    if (!run_out(400) && !bad) fail("P30", "no-progress", "an access is never answered although the bus answers everything");
    if (!bad) final_check();
    pol = p; load(x);
    return;
  }
  if (depth <= 0) { fail("P30", "no-progress", "an access is never answered"); return; }
  Env &e = G.e;
  Choice d = dflt();
  // components with their alternatives; what is not possible now has none
  std::vector<uint8_t> is{d.issue}, ra{d.racc}, wa{d.wacc}, rs{d.resp}, bs{d.b};
  // the set of sendable ops is only known after the responses of this cycle: allow holding back whenever something is pending
  bool any = false; int cand = 0;
  for (int i = 0; i < (int)prog.size(); ++i) { any |= e.op[i].st != DONE; cand += e.op[i].st != DONE; }
  if (any) { is.push_back(1); if (cand > 1) for (int k = 0; k < std::min(cand, 3); ++k) is.push_back((uint8_t)(2 + k)); }
  ra.push_back(0);
  wa.push_back(!d.wacc);
  if (e.shown < 0) for (int k = 0, held = 0; k <= e.nrd; ++k) { // the reads of the preparation are alike: one of them stands for all
    if (k && e.rd[k - 1].line >= pol.hold_from && held++) continue;
    if (k != d.resp) rs.push_back((uint8_t)k);
  }
  if (e.wpend) bs.push_back(!d.b);
  Snap x; save(x);
  int t0 = ticks_done;
  for (auto a : is) for (auto b : ra) for (auto c : wa) for (auto f : rs) for (auto g : bs) {
    int cost = (a != d.issue) + (b != d.racc) + (c != d.wacc) + (f != d.resp) + (g != d.b);
    if (cost > budget) continue;
    Choice ch{a, b, c, f, g};
    load(x); ticks_done = t0;
    bool note = cost > 0;
    if (note) hist.push_back(chs(ch, d));
    cycle(ch);
    mc::beat();
    if (!bad && ((a != d.issue && !eff_issue) || (b != d.racc && !eff_racc) || (c != d.wacc && !eff_wacc))) { hist.pop_back(); continue; }
    if (!bad) dfs(budget - cost, depth - 1);
    if (note) hist.pop_back();
    if (bad) { load(x); return; }
  }
  load(x);
}

// ---- cases ---------------------------------------------------------------------------------
static std::vector<Op> prefix(int cfg) {
  std::vector<Op> v;
  if (cfg == 1 || cfg == 3) for (int l = 0; l < 4; ++l) v.push_back({ST, (uint8_t)l, 2, 15});           // set full of dirty lines
  if (cfg == 2) for (int l = 0; l < 12; ++l) v.push_back({ST, (uint8_t)l, 2, 15});                      // and the write-back buffer full
  if (cfg == 3) for (int l = 17; l < 17 + DCACHE_MSHR_ENTRIES - 1; ++l) v.push_back({LD, (uint8_t)l, 0, 15}); // all but one miss entry busy
  if (cfg == 4) for (int l = 0; l < 5; ++l) v.push_back({ST, (uint8_t)l, 2, 15});                       // one line waiting to be written back
  return v;
}
static const char *CFG[] = {"cold cache", "set full of dirty lines", "set dirty and write-back buffer full", "set dirty and all but one miss entry busy", "one line in the write-back buffer"};
static bool prepare(int cfg, const Policy &p) {
  bad = false; prog.clear(); hist.clear();
  nsets = cfg == 3 ? 10 : 3;
  wire_up();
  pol = p;
  pol.lat = 0; pol.blat = 0; pol.ticks = 1;
  pol.no_write = cfg == 2 || cfg == 4; pol.hold_from = 17; pol.hold_cycles = 4000;
  auto v = prefix(cfg);
  size_t i = 0;
  for (; i < v.size() && v[i].k == ST; ++i) { add(v[i]); if (!run_out(60)) { if (!bad) fail("P30", "no-progress", "preparing stores are never answered"); return false; } for (int n = 0; n < 8; ++n) { cycle(dflt()); if (bad) return false; } }
  for (int n = 0; n < 12; ++n) { cycle(dflt()); if (bad) return false; }
  for (; i < v.size(); ++i) { add(v[i]); for (int n = 0; n < 3; ++n) { cycle(dflt()); if (bad) return false; } }
  return true;
}
static bool start(int cfg, const Policy &p) { // the preparation does not depend on the policy: done once per configuration
  struct Prep { bool done, ok; Snap x; std::vector<Op> prog; uint32_t gold[NL][W]; };
  static Prep *pr[5];
  if (!pr[cfg]) {
    pr[cfg] = new Prep{};
    pr[cfg]->ok = prepare(cfg, p); pr[cfg]->prog = prog; memcpy(pr[cfg]->gold, gold, sizeof gold);
    save(pr[cfg]->x);
  }
  if (!pr[cfg]->ok) return false;
  bad = false; hist.clear(); prog = pr[cfg]->prog; memcpy(gold, pr[cfg]->gold, sizeof gold);
  nsets = cfg == 3 ? 10 : 3;
  for (int s : USED_SETS) for (int w = 0; w < DCACHE_WAYS_NUM; ++w) valid_array[s][w] = dirty_array[s][w] = 0;
  load(pr[cfg]->x);
  G.e.cyc = 0; ticks_done = 0;
  Policy q = p; q.hold_from = 17; q.hold_cycles = cfg == 3 ? 14 : 0; q.no_write = p.no_write;
  pol = q;
  return true;
}
// line roles per configuration
static std::vector<int> lines(int cfg, bool other) {
  // lines of one set compete for a way, of one bank for a port; 16 is in a bank of its own
  switch (cfg) {
  case 0: return {0, 14, 16};
  case 1: return other ? std::vector<int>{12, 16, 0} : std::vector<int>{12, 3, 13};
  case 2: return other ? std::vector<int>{12, 16, 0, 5} : std::vector<int>{12, 11, 0, 5};
  case 3: return other ? std::vector<int>{12, 16, 0} : std::vector<int>{12, 3, 16};
  default: return other ? std::vector<int>{12, 16, 4, 0} : std::vector<int>{12, 4, 0};
  }
}
static std::vector<Op> alphabet(int cfg, int level, bool other) {
  std::vector<Op> a;
  auto ls = lines(cfg, other);
  for (size_t n = 0; n < ls.size(); ++n) {
    uint8_t l = (uint8_t)ls[n];
    a.push_back({LD, l, 0, 15});
    a.push_back({ST, l, 0, 15});
    if (level >= 1) a.push_back({ST, l, 0, 2});
    if (level >= 2) { a.push_back({LD, l, 2, 15}); a.push_back({ST, l, 1, 12}); }
    if (level >= 2 || n == 0) a.push_back({PTW, l, 0, 15});
    if (level >= 2) a.push_back({ICP, l, 0, 15});
  }
  return a;
}
// gaps: (first op that comes late, cycles)
static void family(int id, int K, int level, int budget, std::vector<Policy> pols, std::vector<std::pair<int, int>> gaps = {{0, 0}}) {
  struct Job { int cfg, pol; uint64_t idx; std::pair<int, int> g; };
  std::vector<Job> jobs;
  for (int cfg = 0; cfg < 5; ++cfg) for (int p = 0; p < (int)pols.size(); ++p) {
    uint64_t n = 1; size_t a = alphabet(cfg, level, gaps.size() > 1).size();
    for (int k = 0; k < K; ++k) n *= a;
    for (auto &g : gaps) for (uint64_t i = 0; i < n; ++i) jobs.push_back({cfg, p, i, g});
  }
  mc::parallel([&](int, int) {
    for (int64_t q; (q = mc::take(jobs.size())) >= 0;) {
      const Job &j = jobs[q];
      auto a = alphabet(j.cfg, level, gaps.size() > 1);
      pre = CFG[j.cfg];
      mc::current("%s job %d/%lld", CFG[j.cfg], id, (long long)q);
      if (!start(j.cfg, pols[j.pol])) continue;
      uint64_t x = j.idx;
      pre = mc::fmt("%s, read latency %d, write latency %d, %d cache ticks per cycle%s;", CFG[j.cfg], pol.lat, pol.blat, pol.ticks, pol.no_write ? ", writes not accepted" : "");
      size_t first = prog.size();
      for (int k = 0; k < K; ++k) { add(a[x % a.size()]); x /= a.size(); if (k >= j.g.first) G.e.gap[prog.size() - 1] = (uint8_t)j.g.second; }
      for (size_t i = first; i < prog.size(); ++i) pre += mc::fmt(" [%s%s]", opname((int)i).c_str(), G.e.gap[i] ? mc::fmt(" after %d cycles", G.e.gap[i]).c_str() : "");
      mc::current("%s", pre.c_str());
      salt = mc::mix(id * 1000003ull + q, 99);
      dfs(j.cfg == 3 && budget > 1 ? budget - 1 : budget, 120);
      mc::count(id);
    }
  });
  if (getenv("MC_PHASE")) fprintf(stderr, "family %d: %zu jobs, t=%.1f\n", id, jobs.size(), mc::now() - t0);
}
int main(int argc, char **argv) {
  want_prop = argc > 1 ? argv[1] : "P30";
  bool quick = argc < 3 || !strcmp(argv[2], "quick");
  mc::init(1ull << 33);
  if (!pmem_init()) return 2;
  Policy fast{0, 0, 1, 0, 0, false}, slow{5, 3, 1, 0, 0, false}, stuck{0, 9, 1, 0, 0, true}, dom{6, 3, 4, 0, 0, false}, dom2{0, 0, 2, 0, 0, false};
  family(0, 1, 2, 3, {fast, slow, stuck, dom, dom2});
  std::vector<Policy> all{fast, slow, dom2};
  for (int l = 0; l < 8; ++l) all.push_back({l, l % 4, 4, 0, 0, false});
  family(1, 2, 2, quick ? 2 : 3, all);
  family(2, 3, quick ? 0 : 1, quick ? 3 : 2, {fast, slow, dom});
  if (!quick) family(4, 3, 2, 1, {fast, slow, dom});
  std::vector<std::pair<int, int>> g2, g3;
  for (int g = 1; g <= 14; ++g) { g2.push_back({1, g}); g3.push_back({1, g}); g3.push_back({2, g}); }
  family(5, 2, 2, quick ? 0 : 2, {fast, slow, dom, dom2}, g2);
  family(6, 2, 1, quick ? 1 : 2, {fast, slow, dom2}, g2);
  family(7, 3, quick ? 0 : 1, quick ? 0 : 1, {fast, slow, dom2}, g3);
  family(3, 4, 0, quick ? 1 : 2, {fast, slow});
  return mc::report({{"bounds", "see DESIGN.md"}});
}
