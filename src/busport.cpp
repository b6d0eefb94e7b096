// P31: miss engine and write-back buffer at their ports; P34: response routing.
#include "mc.h"
#include "MSHR.h"
#include "WriteBuffer.h"
#include "MemRouteBlock.h"
#include <array>
#include <map>

static constexpr int NPORT = LSU_LDU_COUNT + LSU_STA_COUNT, NW = DCACHE_WORD_NUM;
static std::string prop;
static std::vector<std::string> hist;
static bool bad;
static std::string pre;
static std::string hs() { std::string s = pre; for (auto &h : hist) s += " | " + h; return s; }
static void fail(const char *k, const std::string &t) {
  if (bad) return;
  bad = true;
  mc::violation(prop + ":" + k, hs(), mc::fmt("%s: %s; history: %s", k, t.c_str(), hs().c_str()));
}
static uint32_t laddr(int l) { return 0x80000000u + (uint32_t)(l + 1) * DCACHE_SETS_NUM * DCACHE_LINE_SIZE + (uint32_t)(l % 3) * DCACHE_LINE_SIZE; }
static uint32_t word(int l, int w, int gen) { return 0x10000000u * (gen + 1) + l * 0x10000 + w * 0x11; }
static uint32_t bmask(int s) { uint32_t m = 0; for (int i = 0; i < 4; ++i) if (s >> i & 1) m |= 0xffu << 8 * i; return m; }

// ---------------------------------------------------------------- miss engine
namespace mshr {
struct Ent { int line; int st; /*0 wanted 1 on the bus 2 answered*/ int id; bool dirty; std::array<uint32_t, NW> d, m; };
struct Act { int nreq; int line[2]; int store[2]; int acc, resp, done; int find; };
struct Sys {
  MSHR u; DcacheMSHRIO d2m; MSHRDcacheIO m2d; MshrAxiIn ai; MshrAxiOut ao;
  std::vector<Ent> e; int find[NPORT]; int held = -1 /*line delivered to the cache, not yet taken*/; int silent = 0; int seqno = 0; bool acc_pulse = false; int acc_id = 0;
};
static void bind(Sys &s) { s.u.in.dcache2mshr = &s.d2m; s.u.in.axi_in = &s.ai; s.u.out.mshr2dcache = &s.m2d; s.u.out.axi_out = &s.ao; }
static Ent *by_line(Sys &s, int l) { for (auto &x : s.e) if (x.line == l) return &x; return nullptr; }
static void tick(Sys &s, const Act &a) {
  bind(s);
  s.ai = {}; s.ai.req_ready = true;
  s.ai.req_accepted = s.acc_pulse; s.ai.req_accepted_id = s.acc_id; s.acc_pulse = false;
  int ri = -1;
  for (size_t i = 0; i < s.e.size(); ++i) if (s.e[i].line == a.resp && s.e[i].st == 1) ri = (int)i;
  if (ri >= 0) {
    s.ai.resp_valid = true; s.ai.resp_id = s.e[ri].id;
    for (int w = 0; w < NW; ++w) s.ai.resp_data[w] = word(a.resp, w, 0);
  }
  s.u.comb_inputs_axi();
  s.u.comb_outputs_dcache();
  // what the cache sees
  int nheld = s.held;
  bool took = false;
  if (ri >= 0 && s.held < 0) { took = true; nheld = a.resp; }
  if (s.m2d.free != DCACHE_MSHR_ENTRIES - (int)s.e.size()) return fail("free", mc::fmt("%d free entries reported, %d are", (int)s.m2d.free, DCACHE_MSHR_ENTRIES - (int)s.e.size()));
  for (int p = 0; p < NPORT; ++p) {
    bool want = s.find[p] >= 0 && by_line(s, s.find[p]);
    if ((bool)s.m2d.find_resp[p].valid != want) return fail("find", mc::fmt("line %d %s outstanding but the search says otherwise", s.find[p], want ? "is" : "is not"));
  }
  if ((bool)s.m2d.fill_req.valid != (nheld >= 0)) return fail("refill", nheld >= 0 ? "a received line is not offered to the cache" : "a line is offered that was not received");
  if (nheld >= 0) {
    Ent *x = by_line(s, nheld);
    if (s.m2d.fill_req.addr != laddr(nheld)) return fail("refill-address", mc::fmt("line offered as 0x%08x, received for 0x%08x", (unsigned)s.m2d.fill_req.addr, laddr(nheld)));
    if ((int)s.m2d.fill_req.id != x->id) return fail("refill-id", "line offered with another entry's id");
    for (int w = 0; w < NW; ++w) {
      uint32_t v = (word(nheld, w, 0) & ~x->m[w]) | (x->d[w] & x->m[w]);
      if (s.m2d.fill_req.data[w] != v) return fail("refill-data", mc::fmt("line %d word %d offered as 0x%08x, must be 0x%08x", nheld, w, (unsigned)s.m2d.fill_req.data[w], v));
    }
    if ((bool)s.m2d.fill_req.dirty != x->dirty) return fail("refill-dirty", "dirtiness of the offered line is wrong");
  }
  // what the cache does
  s.d2m = {};
  bool done = a.done && nheld >= 0;
  if (done) { s.d2m.fill_resp.done = true; s.d2m.fill_resp.id = s.m2d.fill_req.id; }
  int room = s.m2d.free;
  std::vector<int> fresh;
  for (int n = 0; n < a.nreq; ++n) {
    int l = a.line[n];
    Ent *x = by_line(s, l);
    if (x && (!a.store[n] || (done && l == nheld))) continue; // the cache asks only for lines not outstanding, or merges stores
    bool mine = false; for (int f : fresh) mine |= f == l;
    if (!x && !mine) { if (room <= 0) continue; --room; }
    auto &q = s.d2m.mshr_req[a.store[n] ? LSU_LDU_COUNT + n : n];
    q.valid = true; q.addr = laddr(l) + (a.store[n] ? 4u * (a.store[n] & 1) + 0 : 8); q.is_store = a.store[n] != 0;
    if (a.store[n]) { q.data = word(l, 3, 5) + ++s.seqno * 0x01010101u; q.strb = a.store[n] == 1 ? 0xf : 0x6; }
    if (!x && !mine) { fresh.push_back(l); }
  }
  // model: take the line, then add requests in port order
  if (done) { for (size_t i = 0; i < s.e.size(); ++i) if (s.e[i].line == nheld) { s.e.erase(s.e.begin() + i); break; } }
  if (took) for (auto &x : s.e) if (x.line == nheld) x.st = 2;
  s.held = done ? -1 : nheld;
  for (int p = 0; p < NPORT; ++p) {
    auto &q = s.d2m.mshr_req[p];
    if (!q.valid) continue;
    int l = -1; for (int k = 0; k < 16; ++k) if (laddr(k) == (q.addr & ~(DCACHE_LINE_SIZE - 1u))) l = k;
    Ent *x = by_line(s, l);
    if (!x) { Ent n{}; n.line = l; n.st = 0; n.id = -1; s.e.push_back(n); x = &s.e.back(); }
    if (q.is_store) { int w = (q.addr & (DCACHE_LINE_SIZE - 1)) / 4; uint32_t m = bmask(q.strb); x->d[w] = (x->d[w] & ~m) | (q.data & m); x->m[w] |= m; x->dirty = true; }
  }
  for (int p = 0; p < NPORT; ++p) {
    s.find[p] = (a.find + p) % 4 == 3 ? -1 : (a.find + p) % 4;
    s.d2m.find_req[p].valid = s.find[p] >= 0;
    if (s.find[p] >= 0) { AddrFields f = decode(laddr(s.find[p])); s.d2m.find_req[p].set_idx = f.set_idx; s.d2m.find_req[p].tag = f.tag; }
  }
  s.u.comb_inputs_dcache();
  s.u.comb_outputs_axi();
  if (ri >= 0 && (bool)s.ao.resp_ready != took) return fail("ready", took ? "a response was used but not acknowledged" : "a response was acknowledged while another line waits");
  bool wanted = false;
  for (auto &x : s.e) wanted |= x.st == 0;
  if (s.ao.req_valid) {
    Ent *x = nullptr;
    for (auto &y : s.e) if (laddr(y.line) == s.ao.req_addr) x = &y;
    if (!x) return fail("bus-read", mc::fmt("bus read of 0x%08x which is not outstanding", (unsigned)s.ao.req_addr));
    if (x->st != 0) return fail("bus-read-twice", mc::fmt("line %d is requested from the bus again", x->line));
    if (s.ao.req_total_size != DCACHE_LINE_SIZE - 1) return fail("bus-read-size", "bus read is not one line");
    for (auto &y : s.e) if (y.st != 0 && y.id == (int)s.ao.req_id) return fail("bus-read-id", "id of an outstanding read is used again");
    if (a.acc) { x->st = 1; x->id = s.ao.req_id; s.acc_pulse = true; s.acc_id = x->id; }
    s.silent = 0;
  } else if (wanted && ++s.silent > 3) return fail("bus-read-lost", "a wanted line is not requested from the bus");
  s.u.seq();
  mc::trans();
}
static uint64_t hash(const Sys &s) {
  uint64_t h = mc::hash_bytes(&s.u.cur, sizeof s.u.cur);
  for (auto &x : s.e) { h = mc::mix(h, x.line * 64 + x.st * 16 + x.id * 2 + x.dirty); for (int w = 0; w < 3; ++w) h = mc::mix(h, x.d[w] ^ (uint64_t)x.m[w] << 32); }
  for (int f : s.find) h = mc::mix(h, f + 2);
  return mc::mix(h, s.held + 2 + 64 * s.silent + 4096 * s.acc_pulse + 8192 * s.acc_id);
}
static std::string as(const Act &a) { std::string t; for (int i = 0; i < a.nreq; ++i) t += mc::fmt("%s line %d, ", a.store[i] ? "store-miss" : "miss", a.line[i]); return t + (a.acc ? "accept, " : "") + (a.resp >= 0 ? mc::fmt("answer line %d, ", a.resp) : "") + (a.done ? "cache takes line" : ""); }
static void dfs(const Sys &s, int depth, uint64_t salt) {
  if (!mc::visit(mc::mix(hash(s), salt * 32 + depth))) return;
  if (!depth) { // benign drain
    Sys t = s; mc::trace();
    for (int n = 0; n < 60 && (!t.e.empty()); ++n) {
      int r = -1; for (auto &x : t.e) if (x.st == 1) { r = x.line; break; }
      Act a{0, {0, 0}, {0, 0}, 1, r, 1, 0}; tick(t, a); if (bad) return;
    }
    if (!t.e.empty()) fail("lost", mc::fmt("line %d is never delivered", t.e[0].line));
    return;
  }
  static const int RQ[][5] = {{0}, {1, 0, 0}, {1, 1, 1}, {1, 2, 2}, {1, 0, 1}, {2, 0, 0, 1, 1}, {2, 1, 0, 2, 0}, {2, 2, 0, 2, 1}, {2, 0, 1, 0, 2}, {2, 1, 2, 2, 1}};
  std::vector<int> rs{-1};
  for (auto &x : s.e) if (x.st == 1) rs.push_back(x.line);
  if (rs.size() > 4) rs.resize(4);
  for (auto &r : RQ) for (int acc = 0; acc < 2; ++acc) for (int resp : rs) for (int done = 0; done < 2; ++done) {
    if (done && s.held < 0 && resp < 0) continue;
    Sys t = s;
    Act a{r[0], {r[1], r[3]}, {r[2], r[4]}, acc, resp, done, depth};
    hist.push_back(as(a));
    tick(t, a); mc::beat();
    if (!bad) dfs(t, depth - 1, salt);
    hist.pop_back();
    if (bad) return;
  }
}
static void run(bool quick) {
  mc::parallel([&](int, int) {
    // prefill: n lines outstanding of which m are on the bus, one of them possibly waiting for the cache
    for (int64_t q; (q = mc::take(9 * 4 * 2)) >= 0;) {
      int n = (int)(q % 9), m = (int)(q / 9 % 4), h = (int)(q / 36);
      if (n > DCACHE_MSHR_ENTRIES) continue;
      int on = m == 3 ? n : std::min(n, m);
      if (h && !on) continue;
      bad = false; hist.clear();
      pre = mc::fmt("miss engine, %d lines outstanding, %d on the bus, %d received", n, on, h);
      mc::current("%s", pre.c_str());
      Sys s{}; bind(s); s.u.init(); for (int &f : s.find) f = -1;
      s.held = -1;
      for (int i = 0; i < n && !bad; ++i) { Act a{1, {4 + i, 0}, {i % 3 == 2, 0}, i < on, -1, 0, 0}; tick(s, a); }
      for (int i = 0; i < 10 && !bad; ++i) { int c = 0; for (auto &x : s.e) c += x.st >= 1; Act a{0, {}, {}, c < on, -1, 0, 0}; tick(s, a); }
      if (h && !bad) { Act a{0, {}, {}, 0, 4, 0, 0}; tick(s, a); }
      if (!bad) dfs(s, quick ? 3 : 4, q + 1);
      mc::count(0);
    }
  });
  mc::parallel([&](int, int) { // deeper from empty, entries churned first
    for (int64_t q; (q = mc::take(4)) >= 0;) {
      bad = false; hist.clear(); pre = mc::fmt("miss engine after %d refills", (int)q);
      mc::current("%s", pre.c_str());
      Sys s{}; bind(s); s.u.init(); for (int &f : s.find) f = -1; s.held = -1;
      for (int i = 0; i < q && !bad; ++i) { Act a{1, {4 + i, 0}, {i & 1, 0}, 1, -1, 0, 0}; tick(s, a); for (int k = 0; k < 6 && !bad; ++k) { Act b{0, {}, {}, 1, 4 + i, 1, 0}; tick(s, b); } }
      if (!bad) dfs(s, quick ? 4 : 5, 1000 + q);
    }
  });
}
} // namespace mshr

// ---------------------------------------------------------------- write-back buffer
namespace wb {
struct Ent { int line; std::array<uint32_t, NW> d; };
struct Act { int push; int byp[LSU_LDU_COUNT], bw; int mrg[LSU_STA_COUNT], mw; int acc, resp; };
struct Sys {
  WriteBuffer u; DcacheWBIO d2w; WBDcacheIO w2d; WbAxiIn ai; WbAxiOut ao;
  std::vector<Ent> q; bool sending = false, acc_pulse = false; int silent = 0, gen = 0;
  Act last{-1, {}, 0, {}, 0, 0, 0}; bool has_last = false;
};
static void bind(Sys &s) { s.u.in.dcache2wb = &s.d2w; s.u.in.axi_in = &s.ai; s.u.out.wb2dcache = &s.w2d; s.u.out.axi_out = &s.ao; }
static Ent *find(Sys &s, int l) { for (auto &x : s.q) if (x.line == l) return &x; return nullptr; }
static void tick(Sys &s, const Act &a) {
  bind(s);
  s.ai = {}; s.ai.req_ready = true;
  s.ai.req_accepted = s.acc_pulse;
  if (s.acc_pulse) s.sending = true;
  s.acc_pulse = false;
  bool resp = a.resp && s.sending;
  s.ai.resp_valid = resp;
  if (resp) { s.q.erase(s.q.begin()); s.sending = false; }
  s.u.comb_inputs_axi();
  s.u.comb_outputs_dcache();
  if (s.w2d.free != DCACHE_WB_ENTRIES - (int)s.q.size()) return fail("wb-free", mc::fmt("%d free slots reported, %d are", (int)s.w2d.free, DCACHE_WB_ENTRIES - (int)s.q.size()));
  if (s.has_last) {
    for (int p = 0; p < LSU_LDU_COUNT; ++p) {
      int l = s.last.byp[p];
      Ent *x = l < 0 ? nullptr : find(s, l);
      if ((bool)s.w2d.bypass_resp[p].valid != (x != nullptr)) return fail("bypass", mc::fmt("line %d %s waiting to be written back, the load is told otherwise", l, x ? "is" : "is not"));
      if (x && s.w2d.bypass_resp[p].data != x->d[s.last.bw]) return fail("bypass-data", mc::fmt("load of a line waiting to be written back gets 0x%08x, must be 0x%08x", (unsigned)s.w2d.bypass_resp[p].data, x->d[s.last.bw]));
    }
    for (int p = 0; p < LSU_STA_COUNT; ++p) {
      int l = s.last.mrg[p];
      Ent *x = l < 0 ? nullptr : find(s, l);
      bool busy = x && s.sending && x == &s.q[0];
      if ((bool)s.w2d.merge_resp[p].valid != (x && !busy) || (bool)s.w2d.merge_resp[p].busy != busy)
        return fail("merge", mc::fmt("store to line %d: %s", l, !x ? "merged into a line that is not waiting" : busy ? "accepted although the line is on the bus" : "not accepted"));
      if (x && !busy) { auto &q = s.d2w.merge_req[p]; uint32_t m = bmask(q.strb); uint32_t &v = x->d[s.last.mw]; v = (v & ~m) | (q.data & m); }
    }
  }
  DcacheWBIO d{};
  if (a.push >= 0 && !find(s, a.push) && s.w2d.free > 0) {
    d.dirty_info.valid = true; d.dirty_info.addr = laddr(a.push);
    Ent x{a.push, {}}; ++s.gen;
    for (int w = 0; w < NW; ++w) d.dirty_info.data[w] = x.d[w] = word(a.push, w, s.gen & 7);
    s.q.push_back(x);
  }
  for (int p = 0; p < LSU_LDU_COUNT; ++p) if (a.byp[p] >= 0) { d.bypass_req[p].valid = true; d.bypass_req[p].addr = laddr(a.byp[p]) + 4 * a.bw; }
  for (int p = 0; p < LSU_STA_COUNT; ++p) if (a.mrg[p] >= 0) { d.merge_req[p].valid = true; d.merge_req[p].addr = laddr(a.mrg[p]) + 4 * a.mw; d.merge_req[p].data = 0xE0000000u + 0x01020304u * ++s.gen; d.merge_req[p].strb = p ? 0x6 : 0xf; }
  s.d2w = d; s.last = a; s.has_last = true;
  s.u.comb_inputs_dcache();
  s.u.comb_outputs_axi();
  if (s.ao.req_valid) {
    if (s.sending) return fail("write-twice", "a line is written while one is already on the bus");
    if (s.q.empty()) return fail("write-invented", "a write appears although nothing waits");
    if (s.ao.req_addr != laddr(s.q[0].line)) return fail("write-order", mc::fmt("bus write of 0x%08x, the oldest waiting line is 0x%08x", (unsigned)s.ao.req_addr, laddr(s.q[0].line)));
    for (int w = 0; w < NW; ++w) if (s.ao.req_wdata[w] != s.q[0].d[w]) return fail("write-data", mc::fmt("word %d written as 0x%08x, must be 0x%08x", w, (unsigned)s.ao.req_wdata[w], s.q[0].d[w]));
    if (s.ao.req_wstrb != ~0ull || s.ao.req_total_size != DCACHE_LINE_SIZE - 1) return fail("write-size", "write-back is not a whole line");
    if (a.acc) s.acc_pulse = true;
    s.silent = 0;
  } else if (!s.sending && !s.q.empty() && ++s.silent > 3) return fail("write-lost", "a waiting line is never written");
  s.u.seq();
  mc::trans();
}
static uint64_t hash(const Sys &s) {
  uint64_t h = mc::hash_bytes(&s.u.cur, sizeof s.u.cur);
  h = mc::hash_bytes(&s.d2w, sizeof s.d2w, h);
  for (auto &x : s.q) { h = mc::mix(h, x.line); h = mc::hash_bytes(x.d.data(), sizeof x.d, h); }
  return mc::mix(h, s.sending + 2 * s.acc_pulse + 4 * s.silent + 64 * s.gen);
}
static void drain(Sys t) {
  mc::trace();
  for (int n = 0; n < 80 && !t.q.empty(); ++n) { Act a{-1, {-1, -1}, 0, {-1, -1}, 0, 1, 1}; tick(t, a); if (bad) return; }
  if (!t.q.empty()) fail("write-lost", "a waiting line is never written");
}
static void dfs(const Sys &s, int depth, uint64_t salt) {
  if (!mc::visit(mc::mix(hash(s), salt * 32 + depth))) return;
  if (!depth) return drain(s);
  // lines: 0 the oldest, 1 another, 2 absent or just pushed
  int o = s.q.empty() ? 0 : s.q[0].line, y = s.q.size() > 1 ? s.q.back().line : (o + 1) % 12;
  int fr = 0; while (true) { bool in = false; for (auto &x : s.q) in |= x.line == fr; if (!in) break; ++fr; }
  int BY[][2] = {{-1, -1}, {o, y}, {y, fr}, {fr, o}};
  int MG[][2] = {{-1, -1}, {o, -1}, {y, o}, {o, y}, {fr, y}, {y, y}};
  for (int p = 0; p < 2; ++p) for (auto &b : BY) for (auto &m : MG) for (int c = 0; c < 4; ++c) {
    if ((c & 2) && !s.sending && !s.acc_pulse) continue;
    if (m[0] >= 0 && m[0] == m[1] ) { /* two stores of one cycle to one word never overlap */ continue; }
    Sys t = s;
    Act a{p ? fr : -1, {b[0], b[1]}, depth & 1, {m[0], m[1]}, depth & 1, c & 1, c >> 1};
    hist.push_back(mc::fmt("%s loads %d,%d stores %d,%d%s%s", p ? mc::fmt("evict %d,", fr).c_str() : "", b[0], b[1], m[0], m[1], c & 1 ? " accept" : "", c & 2 ? " answer" : ""));
    tick(t, a); mc::beat();
    if (!bad) dfs(t, depth - 1, salt);
    hist.pop_back();
    if (bad) return;
  }
}
static void run(bool quick) {
  mc::parallel([&](int, int) {
    for (int64_t q; (q = mc::take((DCACHE_WB_ENTRIES + 1) * DCACHE_WB_ENTRIES * 2)) >= 0;) {
      int fill = (int)(q % (DCACHE_WB_ENTRIES + 1)), off = (int)(q / (DCACHE_WB_ENTRIES + 1) % DCACHE_WB_ENTRIES), sd = (int)(q / (DCACHE_WB_ENTRIES + 1) / DCACHE_WB_ENTRIES);
      bad = false; hist.clear(); pre = mc::fmt("write-back buffer at offset %d with %d lines%s", off, fill, sd ? ", oldest on the bus" : "");
      mc::current("%s", pre.c_str());
      Sys s{}; bind(s); s.u.init();
      auto none = [](int p, int c, int r) { return Act{p, {-1, -1}, 0, {-1, -1}, 0, c, r}; };
      for (int i = 0; i < off && !bad; ++i) { tick(s, none(i % 9, 1, 0)); for (int k = 0; k < 5 && !bad; ++k) tick(s, none(-1, 1, 1)); }
      for (int i = 0; i < fill && !bad; ++i) tick(s, none(i, 0, 0));
      if (sd && !bad) { tick(s, none(-1, 1, 0)); if (!bad) tick(s, none(-1, 0, 0)); }
      if (!bad) dfs(s, quick ? (off < 2 || off == DCACHE_WB_ENTRIES - 1 ? 3 : 2) : 3, 5000 + q);
      mc::count(1);
    }
  });
}
} // namespace wb

// ---------------------------------------------------------------- routing
namespace route {
enum { WALK, DT, IT, NC };
static const Owner OW[] = {Owner::PTW_WALK, Owner::PTW_DTLB, Owner::PTW_ITLB};
static const char *ON[] = {"walker", "data-side", "instruction-side"};
struct Cl { int st; /*0 idle 1 asking 2 sent 3 waiting for a refill*/ uint32_t addr, id; };
struct Sys {
  MemRouteBlock u; DcacheLsuIO dresp, lresp; DCacheReqPorts lreq; ICacheMemPortReq iq; ICacheMemPortResp ir; PtwReq pq[3]; LsuDcacheIO dreq; PtwGrant gr; PtwEvent ev; ReplayWakeup wk;
  Cl c[NC]; int ic; uint32_t icaddr; int n;
  bool sentl[LSU_LDU_COUNT]; uint32_t lid[LSU_LDU_COUNT]; bool sents[LSU_STA_COUNT]; uint32_t sid[LSU_STA_COUNT];
  int holder; // who used the shared port last cycle: -1 the load port itself, 0..2 walk clients, 3 fetch probe
  uint32_t hid, haddr;
};
struct Act { int start, ic, ld, stv; int rep, fill; };
static void bind(Sys &s) {
  s.u.in.dcache_resp = &s.dresp; s.u.in.lsu_req = &s.lreq; s.u.in.icache_req = &s.iq;
  s.u.in.ptw_walk_req = &s.pq[0]; s.u.in.ptw_dtlb_req = &s.pq[1]; s.u.in.ptw_itlb_req = &s.pq[2];
  s.u.out.dcache_req = &s.dreq; s.u.out.lsu_resp = &s.lresp; s.u.out.icache_resp = &s.ir; s.u.out.ptw_grant = &s.gr; s.u.out.ptw_events = &s.ev; s.u.out.wakeup = &s.wk;
}
static void tick(Sys &s, const Act &a) {
  bind(s);
  const int LP = LSU_LDU_COUNT - 1;
  static const ReplayType RT[] = {ReplayType::HIT, ReplayType::CONFLICT, ReplayType::MSHR_HIT, ReplayType::MSHR_FULL};
  s.n++;
  // the fetch side shows a new probe for one cycle; it may give up an unanswered one
  const bool newp = a.ic == (s.ic ? 2 : 1);
  s.iq = {};
  if (newp) { s.iq.req_valid = true; s.iq.req_addr = 0x80008000u + 4u * s.n; }
  // responses of the cache to the requests of the last cycle
  s.dresp = {};
  for (int p = 0; p < LSU_LDU_COUNT; ++p) {
    auto &r = s.dresp.resp_ports.load_resps[p];
    if (p == LP && s.holder >= 0) { r.valid = true; r.req_id = s.hid; r.data = s.haddr ^ 0x5a5a0000u; r.replay = RT[a.rep]; }
    else if (s.sentl[p]) { r.valid = true; r.req_id = s.lid[p]; r.data = s.lid[p] * 3 + 1; r.replay = RT[(a.rep + p) % 4]; }
  }
  for (int p = 0; p < LSU_STA_COUNT; ++p) if (s.sents[p]) { auto &r = s.dresp.resp_ports.store_resps[p]; r.valid = true; r.req_id = s.sid[p]; r.replay = RT[(a.rep + p + 1) % 4]; }
  s.dresp.mshr_fill = a.fill; s.dresp.mshr_fill_addr = a.fill ? 0x80001240u : 0;
  s.u.comb_response();
  // loads and stores
  for (int p = 0; p < LSU_LDU_COUNT; ++p) {
    auto &g = s.lresp.resp_ports.load_resps[p]; auto &w = s.dresp.resp_ports.load_resps[p];
    if ((bool)g.valid != s.sentl[p]) return fail("load-response", mc::fmt("load port %d %s", p, g.valid ? "gets a response it did not ask for" : "gets no response"));
    if (!g.valid) continue;
    if (g.req_id != s.lid[p]) return fail("load-tag", mc::fmt("load port %d gets the response of request 0x%x, asked 0x%x", p, (unsigned)g.req_id, s.lid[p]));
    if (p == LP && s.holder >= 0) { if (g.replay == ReplayType::HIT) return fail("load-hit", "a load that lost its port is told it completed"); }
    else if (g.replay != w.replay || (g.replay == ReplayType::HIT && g.data != w.data)) return fail("load-data", mc::fmt("load port %d: response changed on the way", p));
  }
  for (int p = 0; p < LSU_STA_COUNT; ++p) {
    auto &g = s.lresp.resp_ports.store_resps[p]; auto &w = s.dresp.resp_ports.store_resps[p];
    if ((bool)g.valid != s.sents[p] || (g.valid && (g.req_id != w.req_id || g.replay != w.replay))) return fail("store-response", mc::fmt("store port %d: response lost or changed", p));
  }
  if ((bool)s.lresp.mshr_fill != (bool)a.fill || (a.fill && s.lresp.mshr_fill_addr != s.dresp.mshr_fill_addr)) return fail("refill-notice", "refill notice lost or changed");
  // walkers and probe
  bool wake[NC] = {(bool)s.wk.walk, (bool)s.wk.dtlb, (bool)s.wk.itlb};
  int evown = -1;
  if (s.ev.valid) { for (int c = 0; c < NC; ++c) if (s.ev.owner == OW[c]) evown = c; if (evown < 0) return fail("event-owner", "an answer goes to nobody"); }
  for (int c = 0; c < NC; ++c) {
    bool mine = s.holder == c, hit = mine && a.rep == 0, retry = mine && a.rep == 1, wait = mine && a.rep >= 2;
    if (hit) {
      if (evown != c) return fail("event-lost", mc::fmt("the %s requester does not get its answer", ON[c]));
      if (s.ev.data != (s.haddr ^ 0x5a5a0000u) || s.ev.req_addr != s.haddr || s.ev.req_id != s.hid || s.ev.replay) return fail("event-data", mc::fmt("answer of the %s requester is not its own", ON[c]));
      if (wake[c]) return fail("wake-extra", "a requester is answered and told to retry");
      s.c[c] = {};
    } else {
      if (evown == c && s.ev.replay == 0) return fail("event-extra", mc::fmt("the %s requester gets an answer that is not its own", ON[c]));
      bool must = retry || ((wait || s.c[c].st == 3) && a.fill), may = must;
      if (must && !wake[c]) return fail("wake-lost", mc::fmt("the %s requester is waiting but not told to retry", ON[c]));
      if (wake[c] && !may) return fail("wake-extra", mc::fmt("the %s requester is told to retry although it %s", ON[c], s.c[c].st == 0 ? "asked nothing" : "is not waiting for this"));
      if (must) s.c[c].st = 1;
      else if (wait) s.c[c].st = 3;
    }
  }
  bool ip = s.holder == 3 && !newp, known = a.rep == 0 || a.rep == 3;
  if (s.ir.resp_valid && !ip) return fail("probe-response", "a fetch probe answer nobody waits for");
  if (ip && known && !s.ir.resp_valid) return fail("probe-response", "the fetch probe gets no answer");
  if (ip && !known && s.ir.resp_valid) return fail("probe-response", "the fetch probe is answered although the cache could not tell");
  if (ip && known) {
    if ((bool)s.ir.resp_miss != (a.rep != 0)) return fail("probe-miss", "hit/miss of the fetch probe is wrong");
    if (a.rep == 0 && s.ir.resp_data != (s.haddr ^ 0x5a5a0000u)) return fail("probe-data", "the fetch probe gets other data");
    s.ic = 0;
  } else if (ip) s.ic = 1;
  if (newp) { s.ic = 1; s.icaddr = s.iq.req_addr; }
  // new requests
  for (int c = 0; c < NC; ++c) if (s.c[c].st == 0 && (a.start >> c & 1)) s.c[c] = {1, 0x80000000u + 0x1000u * c + 4u * s.n, 0};
  for (int c = 0; c < NC; ++c) { s.pq[c].valid = s.c[c].st == 1; s.pq[c].addr = s.c[c].addr; }
  s.lreq = {};
  for (int p = 0; p < LSU_LDU_COUNT; ++p) { s.sentl[p] = a.ld >> p & 1; s.lid[p] = s.n * 16 + p + 1; auto &q = s.lreq.load_ports[p]; q.valid = s.sentl[p]; q.addr = 0x80100000u + 64 * s.n + 4 * p; q.req_id = s.lid[p]; }
  for (int p = 0; p < LSU_STA_COUNT; ++p) { s.sents[p] = a.stv >> p & 1; s.sid[p] = s.n * 16 + p + 9; auto &q = s.lreq.store_ports[p]; q.valid = s.sents[p]; q.addr = 0x80200000u + 64 * s.n + 4 * p; q.data = s.n * 77 + p; q.strb = 3 + p; q.req_id = s.sid[p]; }
  s.u.comb_request();
  for (int p = 0; p < LSU_STA_COUNT; ++p) {
    auto &g = s.dreq.req_ports.store_ports[p]; auto &w = s.lreq.store_ports[p];
    if ((bool)g.valid != (bool)w.valid || (w.valid && (g.addr != w.addr || g.data != w.data || g.strb != w.strb || g.req_id != w.req_id))) return fail("store-request", "store request lost or changed");
  }
  for (int p = 0; p < LP; ++p) {
    auto &g = s.dreq.req_ports.load_ports[p]; auto &w = s.lreq.load_ports[p];
    if ((bool)g.valid != (bool)w.valid || (w.valid && (g.addr != w.addr || g.req_id != w.req_id))) return fail("load-request", "load request lost or changed");
  }
  auto &g = s.dreq.req_ports.load_ports[LP]; auto &w = s.lreq.load_ports[LP];
  s.holder = -1;
  bool asked = s.ic == 1; for (auto &c : s.c) asked |= c.st == 1;
  if (g.valid && dcache_req_id_is_route(g.req_id)) {
    s.hid = g.req_id; s.haddr = g.addr;
    if (s.ic == 1 && g.addr == s.icaddr) { s.holder = 3; if (s.dreq.icache_req != LP) return fail("probe-mark", "the fetch probe is not marked as one"); if (s.gr.valid) return fail("grant", "a walker is told its request went out although the port was used by the fetch probe"); s.ic = 2; }
    for (int c = 0; c < NC; ++c) if (s.c[c].st == 1 && s.c[c].addr == g.addr && s.holder < 0) {
      s.holder = c;
      if (!s.gr.valid || s.gr.owner != OW[c] || s.gr.req_id != g.req_id) return fail("grant", mc::fmt("the %s requester's request went out but it is not told so", ON[c]));
      if (s.dreq.icache_req == LP) return fail("probe-mark", "a walk request is marked as a fetch probe");
      s.c[c].st = 2; s.c[c].id = g.req_id;
    }
    if (s.holder < 0) return fail("request-invented", "a request nobody made goes to the cache");
  } else {
    if (s.gr.valid) return fail("grant", "a walker is told its request went out although it did not");
    if ((bool)g.valid != (bool)w.valid || (w.valid && (g.addr != w.addr || g.req_id != w.req_id))) return fail("load-request", "load request lost or changed");
    // the same requester does not get the port in consecutive cycles; any other asking one does
  }
  s.u.seq();
  mc::trans();
}
static uint64_t hash(const Sys &s) {
  uint64_t h = mc::hash_bytes(&s.u.cur, sizeof s.u.cur);
  for (auto &c : s.c) h = mc::mix(h, c.st);
  h = mc::mix(h, s.ic * 16 + s.holder + 1);
  for (bool b : s.sentl) h = h * 2 + b;
  for (bool b : s.sents) h = h * 2 + b;
  return mc::mix(h, s.n);
}
static void drain(Sys s) {
  mc::trace();
  for (int n = 0; n < 24; ++n) {
    bool left = s.ic; for (auto &c : s.c) left |= c.st != 0;
    if (!left) return;
    Act a{0, 0, 3, 3, 0, 1};
    tick(s, a); if (bad) return;
  }
  bool left = s.ic; for (auto &c : s.c) left |= c.st != 0;
  if (left) fail("starved", "a requester is never served although the cache answers everything");
}
static void dfs(const Sys &s, int depth, uint64_t salt) {
  if (!mc::visit(mc::mix(hash(s), salt * 32 + depth))) return;
  if (!depth) return drain(s);
  int starts = 0; for (int c = 0; c < NC; ++c) if (s.c[c].st == 0) starts |= 1 << c;
  // the clients that are free now or become free with this response may start
  for (int st = 0; st < 8; ++st) for (int ic : {0, s.ic ? 2 : 1}) for (int ld = 0; ld < 4; ++ld) for (int rep = 0; rep < 4; ++rep) for (int f = 0; f < 2; ++f) {
    if (st & ~starts & ~(s.holder >= 0 && s.holder < NC && rep == 0 ? 1 << s.holder : 0)) continue;
    Sys t = s;
    Act a{st, ic, ld, (ld + rep) & 3, rep, f};
    hist.push_back(mc::fmt("start %x probe %d loads %x stores %x answer %s%s", st, ic, ld, (ld + rep) & 3, rep == 0 ? "hit" : rep == 1 ? "retry" : rep == 2 ? "wait" : "full", f ? " refill" : ""));
    tick(t, a); mc::beat();
    if (!bad) dfs(t, depth - 1, salt);
    hist.pop_back();
    if (bad) return;
  }
}
static void run(bool quick) {
  mc::parallel([&](int, int) {
    for (int64_t q; (q = mc::take(8 * 2 * 4 * 4)) >= 0;) {
      bad = false; hist.clear(); pre = "routing";
      Sys s{}; bind(s); s.u.init(); s.holder = -1;
      int st = q & 7, ic = q >> 3 & 1, ld = q >> 4 & 3, rep = q >> 6 & 3;
      mc::current("routing, first cycle %d", (int)q);
      Act a{st, ic, ld, (ld + rep) & 3, 0, 0};
      hist.push_back(mc::fmt("start %x probe %d loads %x", st, ic, ld));
      tick(s, a);
      Act b{0, 0, 3 - ld, ld, rep, 0};
      hist.push_back(mc::fmt("answer %d", rep));
      if (!bad) tick(s, b);
      if (!bad) dfs(s, quick ? 5 : 6, 9000 + q);
      hist.clear();
      mc::count(2);
    }
  });
}
} // namespace route

int main(int argc, char **argv) {
  prop = argc > 1 ? argv[1] : "P31";
  bool quick = argc < 3 || !strcmp(argv[2], "quick");
  mc::init(1ull << 33);
  if (prop == "P31") { mshr::run(quick); wb::run(quick); }
  else route::run(quick);
  return mc::report({{"bounds", "see DESIGN.md"}});
}
