// P33: the translation look-aside buffers. Both buffers are driven through their lookup
// interface against a scripted page walker, over every history of lookups on all ports,
// walker delays, page-table changes, flushes, cancels and context switches up to a depth;
// every content of a page-table entry is checked in every mode; every address and address
// space bit is checked to take part in the match and in the result.
#include "TlbMmu.h"
#include "PtwMemPort.h"
#include "PtwWalkPort.h"
#include "mc.h"
#include <new>
long long sim_time = 0;

static bool arena_on;
static constexpr size_t ARENA = 16384;
struct Leaf { bool ok; uint8_t level; uint32_t pte; };
struct Walk { bool on, resp; uint8_t live; uint32_t va, satp; Leaf leaf; uint8_t cnt; };
struct Env {
  uint8_t cur, live;      // page-table version now, versions since the last flush
  uint8_t space, mode;
  uint16_t want;          // asked and not answered: page*2+store
  bool ready;             // the walker is free
  Walk w;
  // plain memory port
  bool mout, mhave; uint32_t maddr, mdata;
};
static struct Img {
  alignas(64) uint8_t t[sizeof(TlbMmu)];
  alignas(64) uint8_t heap[ARENA];
  size_t top;
  Env e;
} G;
void *operator new(size_t n) {
  if (arena_on) {
    size_t at = (G.top + 63) & ~size_t(63);
    if (at + n <= ARENA) { G.top = at + n; return G.heap + at; }
    abort();
  }
  void *p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
static bool in_arena(void *p) { return (uint8_t *)p >= G.heap && (uint8_t *)p < G.heap + ARENA; }
void operator delete(void *p) noexcept { if (!in_arena(p)) free(p); }
void operator delete(void *p, size_t) noexcept { if (!in_arena(p)) free(p); }
static TlbMmu &T() { return *(TlbMmu *)G.t; }
struct Save {
  uint8_t o[sizeof(TlbMmu)], h[4096]; size_t top; Env e;
  void get() { memcpy(o, G.t, sizeof o); if (G.top > sizeof h) abort(); memcpy(h, G.heap, G.top); top = G.top; e = G.e; }
  void put() const { memcpy(G.t, o, sizeof o); memcpy(G.heap, h, top); G.top = top; G.e = e; }
};
static uint64_t hash() {
  uint64_t h = mc::hash_bytes(G.t, sizeof G.t);
  h = mc::hash_bytes(G.heap, G.top, h);
  const Env &e = G.e;
  h = mc::mix(h, e.cur | e.live << 8 | e.space << 16 | (uint64_t)e.mode << 24 | (uint64_t)e.want << 32 | (uint64_t)e.w.on << 48 | (uint64_t)e.w.resp << 49 | (uint64_t)e.w.live << 50 | (uint64_t)e.mout << 58 | (uint64_t)e.mhave << 59);
  if (e.w.on) { h = mc::mix(h, (uint64_t)e.w.va << 32 | e.w.satp); if (e.w.resp) h = mc::mix(h, e.w.leaf.pte | (uint64_t)e.w.leaf.ok << 40 | (uint64_t)e.w.leaf.level << 41); }
  if (e.mout || e.mhave) h = mc::mix(h, (uint64_t)e.maddr << 32 | e.mdata);
  return h;
}

// ---- page tables ----
static const int NPG = 6;
static const uint32_t VPN[NPG] = {3u << 10 | 5, 3u << 10 | 6, 7u << 10 | 5, 7u << 10 | 6, 9u << 10 | 5, 0x3ffu << 10 | 0x3ff};
static const uint32_t SATP[3] = {1u << 31 | 1u << 22 | 0x80100u, 1u << 31 | 0x103u << 22 | 0x80200u, 3u << 22 | 0x80300u};
static uint32_t mk(uint32_t ppn, uint32_t fl) { return ppn << 10 | fl; }
// three versions of the tables of two spaces; page 4 is global
static Leaf tables(int v, int s, int p) {
  uint32_t n = 0x80000u + v * 0x400 + s * 0x100 + p * 0x10 + 7;
  switch (p) {
  case 0: return v == 0 ? Leaf{true, 0, mk(n, 0xdf)} : v == 1 ? Leaf{true, 0, mk(n, 0xd3)} : Leaf{false, 0, 0};
  case 1: return v == 0 ? Leaf{true, 0, mk(n, s ? 0xd7 : 0xc7)} : v == 1 ? Leaf{false, 0, 0} : Leaf{true, 0, mk(n, 0xdf)};
  case 2: case 3: {
    uint32_t m = (0x200u + v * 2 + s) << 10;
    if (v == 0) return Leaf{true, 1, mk(m, 0xdf)};
    if (v == 1) return p == 2 ? Leaf{true, 0, mk(n, 0xdf)} : Leaf{false, 0, 0};
    return Leaf{true, 1, mk(m, 0x5b)};
  }
  case 4: n = 0x90000u + v * 0x10; return v == 2 ? Leaf{false, 0, 0} : Leaf{true, 0, mk(n, 0xff)};
  default: return Leaf{true, 0, mk(n, v == 1 ? 0x1f : 0x5f)};
  }
}
struct Mode { uint8_t priv; bool mprv; uint8_t mpp; bool sum, mxr; };
static const Mode MODES[] = {{0, false, 0, false, false}, {1, false, 0, true, false}, {1, false, 0, false, false}, {1, false, 0, true, true}, {3, false, 0, false, false}, {3, true, 1, true, false}, {3, true, 0, false, false}};
static bool allow(uint32_t fl, int type, int ep, bool sum, bool mxr) {
  bool R = fl & 2, Wr = fl & 4, X = fl & 8, U = fl & 16, A = fl & 64, D = fl & 128;
  bool ok = type == 0 ? X : type == 1 ? R || (mxr && X) : Wr;
  ok = ok && A && (type != 2 || D);
  if (ep == 0) return ok && U;
  return ok && (!U || (type != 0 && sum));
}
static uint32_t phys(const Leaf &l, uint32_t va) {
  uint32_t b = l.pte >> 10;
  return l.level ? ((b >> 10) << 22) | (va & 0x3fffff) : (b << 12) | (va & 0xfff);
}
static CsrStatusIO csr(uint32_t satp, const Mode &m) {
  CsrStatusIO c;
  c.satp = satp; c.privilege = m.priv;
  c.mstatus = (uint32_t)m.mprv << 17 | (uint32_t)m.mpp << 11 | (uint32_t)m.sum << 18 | (uint32_t)m.mxr << 19;
  c.sstatus = c.mstatus & 0xc0000u;
  return c;
}

// ---- the walker seen by the buffer ----
static bool badport;
struct Port : PtwWalkPort {
  bool send_walk_req(const PtwWalkReq &r) override {
    Env &e = G.e;
    if (!e.ready || e.w.on) { badport = true; return false; }
    e.w = {}; e.w.on = true; e.w.live = 1 << e.cur; e.w.va = r.vaddr; e.w.satp = r.satp;
    return true;
  }
  bool resp_valid() const override { return G.e.w.on && G.e.w.resp; }
  PtwWalkResp resp() const override {
    PtwWalkResp r{};
    if (!resp_valid()) return r;
    r.vaddr = G.e.w.va; r.fault = !G.e.w.leaf.ok; r.leaf_pte = G.e.w.leaf.pte; r.leaf_level = G.e.w.leaf.level;
    return r;
  }
  PtwWalkPortCombOut comb_output() const override {
    PtwWalkPortCombOut o{};
    o.req_ready = G.e.ready && !G.e.w.on && !taken; o.resp_valid = resp_valid(); o.resp = resp();
    return o;
  }
  void consume_resp() override { if (!resp_valid()) badport = true; G.e.w = {}; taken = true; }
  void flush_client() override { G.e.w = {}; }
  bool taken = false; // a client that hands over its answer is free from the next cycle on
};
static Port port;
struct MPort : PtwMemPort {
  bool send_read_req(uint32_t a) override {
    if (G.e.mout || G.e.mhave || !G.e.ready) return false;
    G.e.mout = true; G.e.maddr = a; return true;
  }
  bool resp_valid() const override { return G.e.mhave; }
  uint32_t resp_data() const override { return G.e.mdata; }
  void consume_resp() override { G.e.mhave = false; }
};
static MPort mport;

// ---- histories ----
enum Ev : uint8_t { CYC, FLUSH, CANCEL, SPACE, MODE, TABLE };
struct Act { Ev ev; uint8_t arg; int8_t ask[4]; int8_t ans; bool ready; }; // ask: page per port or -1; ans: version answered or -1
static std::vector<Act> hist;
static std::string pre;
static bool bad;
static const char *MN[] = {"U", "S+SUM", "S", "S+SUM+MXR", "M", "M as S+SUM", "M as U"};
static bool itlb;
static std::string hs() {
  std::string s;
  for (auto &a : hist) {
    if (!s.empty()) s += " | ";
    switch (a.ev) {
    case FLUSH: s += "flush"; break;
    case CANCEL: s += "cancel"; break;
    case SPACE: s += mc::fmt("space %d", a.arg); break;
    case MODE: s += mc::fmt("mode %s", MN[a.arg]); break;
    case TABLE: s += mc::fmt("tables v%d", a.arg); break;
    default:
      if (a.ans >= 0) s += mc::fmt("walk answered (v%d) ", a.ans);
      if (!a.ready) s += "walker busy ";
      for (int i = 0; i < 4; ++i) if (a.ask[i] >= 0) s += mc::fmt("%s p%d ", itlb ? "fetch" : i < 2 ? "load" : "store", a.ask[i]);
      if (s.empty() || s.back() == ' ') { if (!s.empty() && s[s.size() - 2] == '|') s += "-"; }
    }
  }
  return s;
}
static void fail(const std::string &key, const std::string &what) {
  std::string h = hs();
  mc::violation("P33:" + key, pre + ": " + h, what + "; " + pre + ": " + h);
  bad = true;
}
static uint32_t va_of(int page, int p) { return VPN[page] << 12 | (0x123u + p * 0x344u); }
static void fresh(bool walkport, TlbMmu::Kind k) {
  memset(&G, 0, sizeof G);
  G.e.live = 1; G.e.ready = true;
  arena_on = true;
  new (G.t) TlbMmu(nullptr, walkport ? nullptr : &mport, k == TlbMmu::Kind::ITLB ? ITLB_ENTRIES : DTLB_ENTRIES, k);
  arena_on = false;
  port.taken = false;
  if (walkport) T().set_ptw_walk_port(&port);
  T().flush(); T().seq();
}
static int page_of(uint32_t va) { for (int p = 0; p < NPG; ++p) if (VPN[p] == va >> 12) return p; return -1; }
// the answer to one lookup: 0 retry, 1 translation, 2 fault
static void judge(int page, uint32_t va, int type, int r, uint32_t pa) {
  Env &e = G.e; const Mode &m = MODES[e.mode];
  int ep = type != 0 && m.mprv ? m.mpp : m.priv;
  const char *tn = type == 0 ? "fetch" : type == 1 ? "load" : "store";
  int bit = page * 2 + (type == 2);
  if (ep == 3 || e.space == 2) {
    e.want &= ~(1 << bit);
    if (r != 1 || pa != va) fail("untranslated", mc::fmt("%s of 0x%x without translation answered %d 0x%x", tn, va, r, pa));
    return;
  }
  if (r == 0) { e.want |= 1 << bit; return; }
  e.want &= ~(1 << bit);
  for (int v = 0; v < 3; ++v) if (e.live >> v & 1) {
    Leaf l = tables(v, e.space, page);
    bool ok = l.ok && allow(l.pte & 0xff, type, ep, m.sum, m.mxr);
    if (r == 2 && !ok) return;
    if (r == 1 && ok && phys(l, va) == pa) return;
  }
  if (r == 2) return fail("fault", mc::fmt("%s of 0x%x (page %d, space %d, %s) faults although it is mapped and permitted", tn, va, page, e.space, MN[e.mode]));
  fail("translation", mc::fmt("%s of 0x%x (page %d, space %d, %s) is translated to 0x%x, which no table in force since the last flush maps and permits", tn, va, page, e.space, MN[e.mode], pa));
}
static void step(const Act &a) {
  Env &e = G.e;
  mc::trans();
  switch (a.ev) {
  case TABLE: e.cur = a.arg; e.live |= 1 << a.arg; if (e.w.on && !e.w.resp) e.w.live |= 1 << a.arg; return;
  case FLUSH: port.taken = false; T().flush(); T().seq(); e.live = 1 << e.cur; e.want = 0; return;
  case SPACE: case MODE: case CANCEL:
    port.taken = false; T().cancel_pending_walk(); T().seq(); e.want = 0;
    if (a.ev == SPACE) e.space = a.arg;
    if (a.ev == MODE) e.mode = a.arg;
    return;
  default: break;
  }
  port.taken = false; badport = false;
  e.ready = a.ready;
  if (a.ans >= 0) {
    e.w.resp = true;
    int p = page_of(e.w.va), s = e.w.satp == SATP[0] ? 0 : e.w.satp == SATP[1] ? 1 : -1;
    if (p < 0 || s < 0) return fail("walk-request", mc::fmt("a walk was asked for 0x%x under satp 0x%x, which nobody looked up", e.w.va, e.w.satp));
    e.w.leaf = tables(a.ans, s, p);
  }
  CsrStatusIO c = csr(SATP[e.space], MODES[e.mode]);
  if (itlb) {
    if (a.ask[0] >= 0) {
      uint32_t pa = 0, va = va_of(a.ask[0], 0) & ~0xfffu;
      auto r = T().translate(pa, va, 0, &c);
      judge(a.ask[0], va, 0, r == TlbMmu::Result::RETRY ? 0 : r == TlbMmu::Result::OK ? 1 : 2, pa);
    }
  } else {
    LsuMMUIO q{}; MMULsuIO r{};
    q.csr_status = c;
    for (int i = 0; i < 4; ++i) if (a.ask[i] >= 0) {
      MMUReq &x = i < 2 ? q.ldq_req[i] : q.stq_req[i - 2];
      x.valid = 1; x.vaddr = va_of(a.ask[i], i); x.entry_idx = a.ask[i] + i; x.wait_idx = 3 - i;
    }
    T().translate_lsu_ports(q, r);
    for (int i = 0; i < 4 && !bad; ++i) {
      const MMUResp &x = i < 2 ? r.ldq_resp[i] : r.stq_resp[i - 2];
      if (a.ask[i] < 0) { if (x.valid) return fail("unasked", mc::fmt("port %d answers although nothing was asked", i)); continue; }
      if (!x.valid) return fail("silent", mc::fmt("port %d gives no answer", i));
      if (x.entry_idx != a.ask[i] + i || x.wait_idx != 3 - i) return fail("tag", mc::fmt("answer on port %d is for queue entry %d/%d", i, (int)x.entry_idx, (int)x.wait_idx));
      judge(a.ask[i], va_of(a.ask[i], i), i < 2 ? 1 : 2, x.result == MMUResultType::MISS ? 0 : x.result == MMUResultType::HIT ? 1 : 2, x.paddr);
    }
  }
  if (badport) fail("walker-use", "a walk is started while the walker is busy, or an answer is taken that is not there");
  T().seq();
}
static void push(const Act &a) { hist.push_back(a); step(a); }
static Act cyc() { Act a{}; a.ev = CYC; a.ready = true; a.ans = -1; for (auto &x : a.ask) x = -1; return a; }
static Act ev(Ev k, int arg = 0) { Act a = cyc(); a.ev = k; a.arg = arg; return a; }
static Act prompt() { Act a = cyc(); if (G.e.w.on && !G.e.w.resp) a.ans = G.e.cur; return a; }
// every page looked up so far and one more is answered once the walker answers promptly
static void drain(int pages) {
  size_t n0 = hist.size();
  Save s; s.get();
  for (int rot = 0; rot < 2 && !bad; ++rot) { // two rotations of what is asked first
    int first = -1;
    for (int p = 0; p < NPG; ++p) if (G.e.want >> (p * 2) & 1) first = p;
    for (int p = 0; p < pages; ++p) if (itlb ? !rot : true) G.e.want |= 1 << (p * 2 + (rot && !itlb));
    int n = 0;
    for (; G.e.want && n < 80 && !bad; ++n) {
      Act a = prompt();
      int k = 0, at = n;
      for (int i = 0; i < 16 && k < (itlb ? 1 : 4); ++i) {
        int b = (at + i) & 15;
        if (!(G.e.want >> b & 1)) continue;
        if (itlb) { if (!k) a.ask[0] = b >> 1, k = 1; continue; }
        int slot = b & 1 ? 2 : 0;
        if (a.ask[slot] >= 0) slot++;
        if (slot > (b & 1 ? 3 : 1) || a.ask[slot] >= 0) continue;
        a.ask[slot] = b >> 1; ++k;
      }
      // a fetch goes on asking for its page until it is answered
      if (itlb) { if (first >= 0 && (G.e.want >> (first * 2) & 1)) a.ask[0] = first; else first = a.ask[0]; }
      push(a);
    }
    if (!bad && G.e.want) fail("stuck", "a lookup is never answered although the walker answers at once");
    if (bad) break;
  }
  if (!bad) hist.resize(n0);
  s.put();
}
struct Fam { const char *name; bool i; int fill; int pg[2]; int spaces, modes; int m[4]; bool tab; int depth_q, depth_t; };
static const Fam FAMS[] = {
  {"data, two pages", false, 0, {0, 1}, 1, 2, {0, 2}, true, 9, 12},
  {"data, superpage", false, 0, {2, 3}, 1, 2, {0, 1}, true, 9, 12},
  {"data, two spaces", false, 0, {0, 1}, 2, 1, {0}, true, 9, 12},
  {"data, global and private page", false, 0, {4, 0}, 2, 2, {0, 1}, true, 9, 12},
  {"data, modes", false, 0, {0, 1}, 3, 4, {0, 2, 4, 5}, false, 9, 12},
  {"data, last page, full buffer", false, 15, {5, 0}, 2, 1, {0}, true, 7, 10},
  {"data, replacement", false, 16, {1, 0}, 2, 1, {0}, true, 7, 10},
  {"fetch, two pages", true, 0, {0, 1}, 2, 2, {0, 2}, true, 11, 14},
  {"fetch, superpage", true, 0, {2, 3}, 2, 2, {0, 1}, true, 11, 14},
  {"fetch, global page, full buffer", true, 15, {4, 0}, 2, 1, {0}, true, 10, 13},
  {"fetch, modes, full buffer", true, 16, {5, 1}, 3, 3, {0, 2, 4}, true, 10, 13},
};
static const int ASK[][4] = {{-1, -1, -1, -1}, {0, -1, -1, -1}, {1, -1, -1, -1}, {-1, -1, 0, -1}, {-1, -1, 1, -1}, {0, 1, -1, -1}, {0, -1, 0, -1}, {-1, 1, 0, -1}, {0, 0, -1, -1}, {0, 1, 0, 1}, {1, 0, -1, 1}};
static void moves(const Fam &f, std::vector<Act> &m) {
  const Env &e = G.e;
  m.push_back(ev(FLUSH)); m.push_back(ev(CANCEL));
  for (int s = 0; s < f.spaces; ++s) if (s != e.space) m.push_back(ev(SPACE, s));
  for (int i = 0; i < f.modes; ++i) if (f.m[i] != e.mode) m.push_back(ev(MODE, f.m[i]));
  if (f.tab && e.cur < 2) m.push_back(ev(TABLE, e.cur + 1));
  int na = f.i ? 3 : (int)(sizeof ASK / sizeof *ASK);
  for (int k = 0; k < na; ++k) {
    Act a = cyc();
    for (int i = 0; i < 4; ++i) a.ask[i] = ASK[k][i] < 0 ? -1 : f.pg[ASK[k][i]];
    // fetch asks for one page until it is answered or the fetch is redirected
    if (f.i && e.want && k && !(e.want >> (a.ask[0] * 2) & 1)) continue;
    m.push_back(a);
    if (e.w.on && !e.w.resp) { for (int v = 0; v < 3; ++v) if (e.w.live >> v & 1) { Act b = a; b.ans = v; m.push_back(b); } }
    else if (!e.w.on && k) { Act b = a; b.ready = false; m.push_back(b); }
  }
}
static void fillup(int n, bool i) {
  // other pages of space 0, far from the ones explored: taken in without history records
  for (int k = 0; k < n; ++k) {
    uint32_t va = (0x200u + k) << 22 | (uint32_t)k << 12;
    CsrStatusIO c = csr(SATP[0], MODES[0]);
    for (int t = 0; t < 4; ++t) {
      port.taken = false;
      if (G.e.w.on) { G.e.w.resp = true; G.e.w.leaf = {true, (uint8_t)(k & 1), mk(k & 1 ? (0x80u + k) << 10 : 0x80000u + k, 0xdf)}; }
      if (i) { uint32_t pa; T().translate(pa, va, 0, &c); }
      else { LsuMMUIO q{}; MMULsuIO r{}; q.csr_status = c; q.ldq_req[0].valid = 1; q.ldq_req[0].vaddr = va; T().translate_lsu_ports(q, r); }
      T().seq();
    }
  }
}
// after a flush none of the pages taken in before may be answered from the buffer
static void probe_filled(const Fam &f) {
  Save s; s.get();
  bool flushed = false;
  for (auto &a : hist) flushed |= a.ev == FLUSH;
  if (flushed && f.fill) for (int k = 0; k < f.fill && !bad; ++k) {
    uint32_t va = (0x200u + k) << 22 | (uint32_t)k << 12, pa = 0;
    CsrStatusIO c = csr(SATP[0], MODES[0]);
    s.put(); port.taken = false; G.e.ready = true; badport = false;
    bool ok;
    mc::trans();
    if (f.i) ok = T().translate(pa, va, 0, &c) == TlbMmu::Result::OK;
    else { LsuMMUIO q{}; MMULsuIO r{}; q.csr_status = c; q.ldq_req[0].valid = 1; q.ldq_req[0].vaddr = va; T().translate_lsu_ports(q, r); ok = r.ldq_resp[0].result == MMUResultType::HIT; pa = r.ldq_resp[0].paddr; }
    if (ok) fail("after-flush", mc::fmt("page 0x%x taken in before the flush is still translated to 0x%x", va >> 12, pa));
  }
  s.put();
}
static void dfs(const Fam &f, int depth) {
  if (bad || !mc::visit(mc::mix(hash(), depth * 64 + (&f - FAMS)))) return;
  if (depth == 0) { mc::trace(); probe_filled(f); if (!bad) { drain(f.i ? 4 : 2); } return; }
  std::vector<Act> m; moves(f, m);
  Save s; s.get();
  for (auto &a : m) {
    push(a);
    if (bad) return;
    dfs(f, depth - 1);
    if (bad) return;
    hist.pop_back(); s.put();
  }
}
static void histories(bool quick) {
  struct Job { int f; Act a, b; };
  std::vector<Job> jobs;
  const int NF = sizeof FAMS / sizeof *FAMS;
  for (int f = 0; f < NF; ++f) {
    itlb = FAMS[f].i; bad = false; hist.clear();
    fresh(true, itlb ? TlbMmu::Kind::ITLB : TlbMmu::Kind::DTLB); fillup(FAMS[f].fill, itlb);
    std::vector<Act> m; moves(FAMS[f], m);
    Save s; s.get();
    for (auto &a : m) { push(a); if (bad) { hist.clear(); bad = false; s.put(); jobs.push_back({f, a, ev(CANCEL)}); continue; } std::vector<Act> n; moves(FAMS[f], n); for (auto &b : n) jobs.push_back({f, a, b}); hist.pop_back(); s.put(); }
  }
  mc::parallel([&](int, int) {
    for (int64_t q; (q = mc::take(jobs.size())) >= 0;) {
      const Fam &f = FAMS[jobs[q].f];
      mc::current("%s", f.name);
      itlb = f.i; bad = false; hist.clear(); pre = f.name;
      fresh(true, itlb ? TlbMmu::Kind::ITLB : TlbMmu::Kind::DTLB); fillup(f.fill, itlb);
      push(jobs[q].a); if (bad) return;
      push(jobs[q].b); if (bad) return;
      dfs(f, (quick ? f.depth_q : f.depth_t) - 2);
      mc::count(0);
      if (bad) return;
    }
  });
}

// ---- contents: every entry, every mode, at the answer, next to it and afterwards ----
static bool is_leaf(uint32_t fl) { return (fl & 1) && !((fl & 4) && !(fl & 2)) && (fl & 0xa); }
static int ask1(bool i, uint32_t va, int type, const CsrStatusIO &c, uint32_t &pa, int twin = -1, int *r2 = nullptr, uint32_t *pa2 = nullptr) {
  CsrStatusIO cc = c;
  mc::trans();
  port.taken = false;
  int res;
  if (i) { auto r = T().translate(pa, va, 0, &cc); res = r == TlbMmu::Result::RETRY ? 0 : r == TlbMmu::Result::OK ? 1 : 2; }
  else {
    LsuMMUIO q{}; MMULsuIO r{}; q.csr_status = cc;
    MMUReq &x = type == 1 ? q.ldq_req[0] : q.stq_req[0];
    x.valid = 1; x.vaddr = va;
    if (twin >= 0) { MMUReq &y = twin == 1 ? q.ldq_req[1] : q.stq_req[1]; y.valid = 1; y.vaddr = va ^ 0xffc; }
    T().translate_lsu_ports(q, r);
    auto cv = [](const MMUResp &z) { return z.result == MMUResultType::MISS ? 0 : z.result == MMUResultType::HIT ? 1 : 2; };
    const MMUResp &z = type == 1 ? r.ldq_resp[0] : r.stq_resp[0];
    res = cv(z); pa = z.paddr;
    if (twin >= 0) { const MMUResp &y = twin == 1 ? r.ldq_resp[1] : r.stq_resp[1]; *r2 = cv(y); *pa2 = y.paddr; }
  }
  T().seq();
  return res;
}
static void expect(const char *where, uint32_t va, int type, const Mode &m, const Leaf &l, int r, uint32_t pa, bool retry_ok) {
  int ep = type != 0 && m.mprv ? m.mpp : m.priv;
  if (ep == 3) { if (r != 1 || pa != va) fail("untranslated", mc::fmt("%s: access type %d of 0x%x as M answered %d 0x%x", where, type, va, r, pa)); return; }
  if (r == 0 && retry_ok) return;
  bool ok = l.ok && allow(l.pte & 0xff, type, ep, m.sum, m.mxr);
  int w = ok ? 1 : 2; uint32_t wp = ok ? phys(l, va) : 0;
  if (r != w || (ok && pa != wp))
    fail("permission", mc::fmt("%s: access type %d (0 fetch, 1 load, 2 store) of 0x%x, effective privilege %d, SUM=%d MXR=%d, entry 0x%x level %d: answered %d 0x%x instead of %d 0x%x (1 translation, 2 fault)", where, type, va, ep, m.sum, m.mxr, l.pte, l.level, r, pa, w, wp));
}
static void contents(bool quick) {
  std::vector<Mode> ms;
  for (int p : {0, 1, 3}) for (int mv = 0; mv < 2; ++mv) for (int mp : {0, 1, 3}) for (int s = 0; s < 4; ++s) {
    if (!mv && mp == 3) continue;
    ms.push_back({(uint8_t)p, (bool)mv, (uint8_t)mp, (bool)(s & 1), (bool)(s >> 1)});
  }
  mc::parallel([&](int, int) {
    for (int64_t q; (q = mc::take(512)) >= 0;) {
      uint32_t fl = q & 255; int level = q >> 8;
      mc::current("entry flags 0x%x level %d", fl, level);
      uint32_t va = 0x5a5a5678u;
      Leaf l = is_leaf(fl) ? Leaf{true, (uint8_t)level, mk(level ? 0x2a5u << 10 : 0x2a5a5u, fl)} : Leaf{false, 0, 0};
      for (int i = 0; i < 2; ++i) for (int t1 = i ? 0 : 1; t1 < (i ? 1 : 3); ++t1) for (auto &m1 : ms) {
        bad = false; hist.clear();
        pre = mc::fmt("entry flags 0x%x, %s taken in as type %d priv %d mprv %d mpp %d sum %d mxr %d", fl, i ? "fetch" : "data", t1, m1.priv, m1.mprv, m1.mpp, m1.sum, m1.mxr);
        if (i && m1.mprv && m1.mpp == 3) continue;
        int ep = t1 && m1.mprv ? m1.mpp : m1.priv;
        bool first = true;
        for (int tw = -1; tw < (i ? 0 : 3); ++tw) {
          if (tw == 0) continue;
          fresh(true, i ? TlbMmu::Kind::ITLB : TlbMmu::Kind::DTLB);
          CsrStatusIO c1 = csr(SATP[0], m1);
          uint32_t pa = 0, pa2 = 0; int r2 = 0;
          int r = ask1(i, va, t1, c1, pa, tw, &r2, &pa2);
          if (ep != 3 && r) { fail("no-walk", "an empty buffer answers without a walk"); return; }
          if (ep == 3) { expect("untranslated", va, t1, m1, l, r, pa, false); if (bad) return; if (tw < 0 || ((m1.mprv ? m1.mpp : m1.priv) == 3)) continue; }
          if (!G.e.w.on || G.e.w.satp != SATP[0] || (G.e.w.va ^ va) >> 12) { fail("walk-request", mc::fmt("no walk, or a walk of 0x%x under 0x%x, for a lookup of 0x%x", G.e.w.va, G.e.w.satp, va)); return; }
          G.e.w.resp = true; G.e.w.leaf = l;
          // the walk answer may be looked at by either type first
          bool got = false, got2 = tw < 0;
          for (int n = 0; n < 6; ++n) {
            if (G.e.w.on) { G.e.w.resp = true; G.e.w.leaf = l; }
            if (got && got2) break;
            if (got) { // answered: only the other port goes on asking
              r2 = ask1(i, va ^ 0xffc, tw, c1, pa2);
              expect("after the walk answer", va ^ 0xffc, tw, m1, l, r2, pa2, n < 5); if (bad) return;
              got2 |= r2 != 0;
              continue;
            }
            r = ask1(i, va, t1, c1, pa, got2 ? -1 : tw, &r2, &pa2);
            expect("at the walk answer", va, t1, m1, l, r, pa, n < 5 || got); if (bad) return;
            if (!got2) { expect("beside the walk answer", va ^ 0xffc, tw, m1, l, r2, pa2, n < 5 || got2); if (bad) return; }
            got |= r != 0; got2 |= r2 != 0;
          }
          if (!first) continue;
          first = false;
          Save s; s.get();
          for (auto &m2 : ms) for (int t2 = i ? 0 : 1; t2 < (i ? 1 : 3); ++t2) {
            if (quick && t1 == t2 && (m2.sum ^ m1.sum) && (m2.mxr ^ m1.mxr) && m2.mprv) continue;
            s.put();
            CsrStatusIO c2 = csr(SATP[0], m2);
            for (int n = 0; n < 3; ++n) {
              if (G.e.w.on) { G.e.w.resp = true; G.e.w.leaf = l; }
              r = ask1(i, va ^ 0x104, t2, c2, pa);
              if (r) break;
            }
            expect("afterwards", va ^ 0x104, t2, m2, l, r, pa, false);
            if (bad) { pre += mc::fmt(", then asked as type %d priv %d mprv %d mpp %d sum %d mxr %d", t2, m2.priv, m2.mprv, m2.mpp, m2.sum, m2.mxr); return; }
          }
          s.put();
        }
        mc::trace();
      }
      mc::visit(mc::mix(q, 0x7777));
      mc::count(1);
    }
  });
}
// ---- bits: every bit of page number, space number and frame number matters, at every slot ----
static void bits() {
  mc::parallel([&](int, int) {
    for (int64_t q; (q = mc::take(2 * 2 * 2 * 20)) >= 0;) {
      bool i = q & 1; int level = q >> 1 & 1, glob = q >> 2 & 1, pat = q >> 3;
      const int N = i ? ITLB_ENTRIES : DTLB_ENTRIES;
      const uint32_t vp = pat < 10 ? 0x12345u ^ (1u << pat) : 0xedcbau ^ (1u << pat);
      bad = false; hist.clear();
      pre = mc::fmt("%s, %s%s entry for page 0x%x", i ? "fetch" : "data", glob ? "global " : "", level ? "superpage" : "page", vp);
      mc::current("%s", pre.c_str());
      const Mode m{1, false, 0, false, false};
      for (int slot = 0; slot < N; ++slot) {
        fresh(true, i ? TlbMmu::Kind::ITLB : TlbMmu::Kind::DTLB);
        fillup(slot, i);
        const uint32_t asid = 0x155 ^ (1u << (slot % 9));
        uint32_t satp = 1u << 31 | asid << 22 | 0x80100u, pa = 0;
        const uint32_t ppn = level ? (0x2d5u ^ 1u << (slot % 12)) << 10 : 0x1b2d5u ^ 1u << (slot + pat) % 22;
        Leaf l{true, (uint8_t)level, mk(ppn, 0xcf | glob << 5)};
        CsrStatusIO c = csr(satp, m);
        uint32_t va = vp << 12 | 0xa5c;
        int r = ask1(i, va, i ? 0 : 1, c, pa);
        if (r || !G.e.w.on || G.e.w.satp != satp || G.e.w.va >> 12 != vp) { fail("walk-request", mc::fmt("lookup of 0x%x under satp 0x%x answered %d, walk of 0x%x under 0x%x", va, satp, r, G.e.w.va, G.e.w.satp)); return; }
        for (int n = 0; n < 4 && !(r = ask1(i, va, i ? 0 : 1, c, pa)); ++n) if (G.e.w.on) { G.e.w.resp = true; G.e.w.leaf = l; }
        if (r != 1 || pa != phys(l, va)) { fail("bits", mc::fmt("lookup of 0x%x with entry 0x%x answered %d 0x%x", va, l.pte, r, pa)); return; }
        Save s; s.get();
        for (int b = -1; b < 20; ++b) for (int ab = -1; ab < 9; ++ab) {
          if (b >= 0 && ab >= 0) continue;
          s.put();
          uint32_t v2 = b < 0 ? va ^ 0xc0 : va ^ (1u << (12 + b));
          uint32_t sp2 = ab < 0 ? satp : satp ^ (1u << (22 + ab));
          CsrStatusIO c2 = csr(sp2, m);
          r = ask1(i, v2, i ? 0 : 1, c2, pa);
          bool same = (ab < 0 || glob) && (b < 0 || (level && b < 10));
          // the other pages filled in belong to space 0 and cannot collide with these
          if (same ? (r && (r != 1 || pa != phys(l, v2))) : r != 0) { fail("match", mc::fmt("lookup of 0x%x under satp 0x%x after 0x%x was taken in under satp 0x%x answered %d 0x%x", v2, sp2, va, satp, r, pa)); return; }
          if (!r && (!G.e.w.on || G.e.w.satp != sp2 || (G.e.w.va ^ v2) >> 12)) { fail("walk-request", mc::fmt("walk of 0x%x under 0x%x for a lookup of 0x%x under satp 0x%x", G.e.w.va, G.e.w.satp, v2, sp2)); return; }
        }
        s.put();
        T().flush(); T().seq();
        r = ask1(i, va, i ? 0 : 1, c, pa);
        if (r) { fail("after-flush", mc::fmt("0x%x is still answered after a flush (slot %d)", va, slot)); return; }
        mc::trace();
      }
      mc::visit(mc::mix(q, 0x999)); mc::count(2);
    }
  });
}
// ---- the buffer with a walker of its own over a plain memory port ----
static uint32_t memread(int v, uint32_t a) {
  for (int s = 0; s < 2; ++s) for (int p = 0; p < NPG; ++p) {
    Leaf l = tables(v, s, p);
    uint32_t root = (SATP[s] & 0x3fffff) << 12, n1 = VPN[p] >> 10, n0 = VPN[p] & 0x3ff;
    if (a == root + n1 * 4) {
      bool sup = tables(v, s, 2).level == 1 && n1 == 7;
      if (sup) return tables(v, s, 2).pte;
      return ((SATP[s] & 0x3fffff) + 1 + (n1 & 0xf)) << 10 | 1;
    }
    if (a == root + ((1 + (n1 & 0xf)) << 12) + n0 * 4) return l.ok ? l.pte : 0x12345cce;
  }
  return 0xdeadbeef;
}
struct LAct { uint8_t ev, arg; int8_t ask; uint8_t type; bool ans, ready; };
static void lstep(const LAct &a) {
  Env &e = G.e; Act h = cyc();
  h.ev = (Ev)a.ev; h.arg = a.arg; h.ask[a.type == 2 ? 2 : 0] = a.ask; h.ready = a.ready; h.ans = a.ans ? (int8_t)e.cur : -1;
  hist.push_back(h);
  mc::trans();
  switch (a.ev) {
  case TABLE: e.cur = a.arg; e.live |= 1 << a.arg; return;
  case FLUSH: T().flush(); e.mout = e.mhave = false; T().seq(); e.live = 1 << e.cur; return;
  case SPACE: case MODE: case CANCEL: T().cancel_pending_walk(); e.mout = e.mhave = false; T().seq(); if (a.ev == SPACE) e.space = a.arg; if (a.ev == MODE) e.mode = a.arg; return;
  }
  e.ready = a.ready;
  if (a.ans && e.mout) { e.mout = false; e.mhave = true; e.mdata = memread(e.cur, e.maddr); }
  if (a.ask >= 0) {
    CsrStatusIO c = csr(SATP[e.space], MODES[e.mode]);
    uint32_t pa = 0, va = va_of(a.ask, 1);
    auto r = T().translate(pa, va, a.type, &c);
    // a walk may read two levels from two versions: with tables changing under it only flushes bound it
    judge(a.ask, va, a.type, r == TlbMmu::Result::RETRY ? 0 : r == TlbMmu::Result::OK ? 1 : 2, pa);
  }
  e.want = 0;
  T().seq();
}
static void ldfs(int d, bool i) {
  if (bad || !mc::visit(mc::mix(hash(), d * 2 + i + 0x5000))) return;
  if (!d) { mc::trace(); return; }
  std::vector<LAct> m;
  const Env &e = G.e;
  bool idle = !e.mout && !e.mhave;
  m.push_back({FLUSH, 0, -1, 1, false, true}); m.push_back({CANCEL, 0, -1, 1, false, true});
  m.push_back({SPACE, (uint8_t)(e.space ^ 1), -1, 1, false, true});
  m.push_back({MODE, (uint8_t)(e.mode == 0 ? 2 : 0), -1, 1, false, true});
  // the tables only change between walks here: the two reads of a walk then see one version
  if (e.cur < 2 && idle && !T().debug_state().walk_active) m.push_back({TABLE, (uint8_t)(e.cur + 1), -1, 1, false, true});
  for (int p : {0, 2}) for (int t = i ? 0 : 1; t < (i ? 1 : 3); ++t) {
    m.push_back({CYC, 0, (int8_t)p, (uint8_t)t, false, true});
    if (e.mout) m.push_back({CYC, 0, (int8_t)p, (uint8_t)t, true, true}); else m.push_back({CYC, 0, (int8_t)p, (uint8_t)t, false, false});
  }
  Save s; s.get();
  for (auto &a : m) { lstep(a); if (bad) return; ldfs(d - 1, i); if (bad) return; hist.pop_back(); s.put(); }
}
static void local(bool quick) {
  mc::parallel([&](int, int) {
    for (int64_t q; (q = mc::take(2 * 4 * 2)) >= 0;) {
      bool i = q & 1; itlb = i;
      bad = false; hist.clear(); pre = i ? "own walker, fetch" : "own walker, data";
      mc::current("%s", pre.c_str());
      fresh(false, i ? TlbMmu::Kind::ITLB : TlbMmu::Kind::DTLB);
      // start inside a walk of one of the pages, or with it taken in
      int p = q >> 2 & 1 ? 2 : 0, full = q >> 1 & 1;
      lstep({CYC, 0, (int8_t)p, (uint8_t)(i ? 0 : 1), false, true});
      if (full) for (int n = 0; n < 6 && !bad; ++n) lstep({CYC, 0, (int8_t)p, (uint8_t)(i ? 0 : 1), true, true});
      if (q >> 3 && !bad) lstep({TABLE, 0, -1, 1, false, true});
      if (bad) return;
      if (full) {
        // taken in by now
        Save s; s.get(); uint32_t pa = 0; CsrStatusIO c = csr(SATP[0], MODES[0]);
        if (T().translate(pa, va_of(p, 1), i ? 0 : 1, &c) != TlbMmu::Result::OK) fail("stuck", "a lookup is never answered although memory answers at once");
        s.put(); if (bad) return;
      }
      ldfs(quick ? 7 : 9, i);
      mc::count(3);
      if (bad) return;
    }
  });
}
int main(int argc, char **argv) {
  bool quick = argc < 3 || !strcmp(argv[2], "quick");
  mc::init(1ull << 33);
  double t = mc::now();
  bool ph = getenv("MC_PHASE");
  histories(quick); if (ph) fprintf(stderr, "histories %.1f\n", mc::now() - t);
  contents(quick); if (ph) fprintf(stderr, "contents %.1f\n", mc::now() - t);
  bits(); if (ph) fprintf(stderr, "bits %.1f\n", mc::now() - t);
  local(quick); if (ph) fprintf(stderr, "local %.1f\n", mc::now() - t);
  return mc::report({{"bounds", "see DESIGN.md"}});
}
