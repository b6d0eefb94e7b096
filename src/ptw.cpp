// P32: hardware page walks. The shared walk block is driven through its ports
// by two requesters and a memory that grants, answers, delays and refuses in
// every order; the packed form of the same block runs beside it in lock step;
// the stand-alone walker is run over every entry content and every timing.
#include "MemPtwBlock.h"
#include "PtwWalker.h"
#include "mc.h"
#include <algorithm>
#include <new>

static bool bad;
static std::vector<std::string> hist;
static std::string pre;
struct Act;
static std::string show(const Act &a);
static std::string histstr();
static void fail(const std::string &key, const std::string &what) {
  std::string h = histstr();
  mc::violation("P32:" + key, pre + ": " + h, what + "; " + pre + "; " + h);
  bad = true;
}

// ---- page tables: contents are a function of the address ----
enum { INV, RES, SUPER, MISAL, PTR, NK };          // first level
enum { INV2, RES2, LEAF2, PTR2, XLEAF2, NK2 };     // second level
static const char *KN[] = {"invalid", "write-only", "superpage", "misaligned", "pointer"};
static const uint32_t ROOT[2] = {0x80100u, 0x3fff0u};
struct Tab { int l1[2][2], l2[2][2][2]; };         // [root][vpn1 index][vpn0 index]
static const uint32_t VPN1[2] = {0x003, 0x3fe}, VPN0[2] = {0x005, 0x3fd};
static uint32_t vaddr(int a, int b) { return VPN1[a] << 22 | VPN0[b] << 12; }
static uint32_t l2ppn(int r, int a) { return 0x80200u + r * 0x10 + a; }
static uint32_t pte1(const Tab &t, int r, int a) {
  switch (t.l1[r][a]) {
  case INV: return 0x20000000u | (unsigned)(r * 2 + a) << 20 | 0xce;
  case RES: return 0x20000000u | (unsigned)(r * 2 + a) << 20 | 0xc5;
  case SUPER: return (0x123u + r * 8 + a) << 20 | 0xdf;
  case MISAL: return (0x123u + r * 8 + a) << 20 | 1u << (10 + (r + a) % 10) | 0xdf;
  default: return l2ppn(r, a) << 10 | 0x01;
  }
}
static uint32_t pte2(const Tab &t, int r, int a, int b) {
  switch (t.l2[r][a][b]) {
  case INV2: return (0x54321u + r * 4 + a * 2 + b) << 10 | 0xce;
  case RES2: return (0x54321u + r * 4 + a * 2 + b) << 10 | 0xcd & ~2u;
  case LEAF2: return (0x54321u + r * 4 + a * 2 + b) << 10 | 0xc7;
  case PTR2: return (0x54321u + r * 4 + a * 2 + b) << 10 | 0xc1;
  default: return (0x2aaaa0u + r * 4 + a * 2 + b) << 10 | 0x59;
  }
}
static uint32_t memread(const Tab &t, uint32_t addr) {
  for (int r = 0; r < 2; ++r) for (int a = 0; a < 2; ++a) {
    if (addr == (ROOT[r] << 12) + VPN1[a] * 4) return pte1(t, r, a);
    for (int b = 0; b < 2; ++b) if (addr == (l2ppn(r, a) << 12) + VPN0[b] * 4) return pte2(t, r, a, b);
  }
  return 0xdeaddc0u << 4 | 0xf; // nothing may be read from anywhere else
}
struct Ans { bool fault; uint32_t pte; int level; };
static Ans spec(uint32_t p1, uint32_t p2) {
  auto inv = [](uint32_t p) { return !(p & 1) || ((p & 4) && !(p & 2)); };
  if (inv(p1)) return {true, 0, 0};
  if (p1 & 0xa) return (p1 >> 10 & 0x3ff) ? Ans{true, 0, 0} : Ans{false, p1, 1};
  if (inv(p2) || !(p2 & 0xa)) return {true, 0, 0};
  return {false, p2, 0};
}

// ---- packed form ----
static void put(bool *b, int at, int n, uint32_t v) { for (int i = 0; i < n; ++i) b[at + i] = v >> i & 1; }
static uint32_t get(const bool *b, int at, int n) { uint32_t v = 0; for (int i = 0; i < n; ++i) v |= (uint32_t)b[at + i] << i; return v; }

// ---- the walk block ----
struct Rd { bool on; int cls; /*0,1 plain reads of the two sides, 2 walk*/ uint32_t addr, id; bool fresh; };
struct WC { int st, r, a, b; };            // 0 idle 1 asked 2 answered
struct PC { int st; uint32_t addr; };      // plain reads
struct Sys {
  MemPtwBlock u;
  bool kst[MemPtwBlock::kPackedStateWidth]; uint32_t kid; bool kidv, koff;
  WC w[2]; PC p[2]; Rd rd[3]; bool wait[3]; int sends, psends;
};
static Tab *tab;
struct Act { int w[2]; /*0 nothing, 1..4 ask path, 5 cancel*/ bool wc[2]; int p[2]; bool pc[2]; int grant; /*-1 none, class*/ int ev; /*-1 none, read*/ int kind; /*0 answer 1 retry now 2 wait*/ bool fill; };

static std::vector<Act> ah;
static std::string show(const Act &a) {
  std::string s;
  for (int i = 0; i < 2; ++i) {
    const char *n = i ? "I" : "D";
    if (a.wc[i]) s += mc::fmt("%s takes ", n);
    if (a.w[i] == 5) s += mc::fmt("%s cancels ", n);
    else if (a.w[i]) s += mc::fmt("%s asks %d.%d.%d ", n, (a.w[i] - 1) >> 2, (a.w[i] - 1) >> 1 & 1, (a.w[i] - 1) & 1);
    if (a.pc[i]) s += mc::fmt("%s takes word ", n);
    if (a.p[i]) s += mc::fmt("%s reads word ", n);
  }
  if (a.grant >= 0) s += mc::fmt("grant %s ", a.grant == 2 ? "walk" : a.grant ? "I" : "D");
  if (a.ev >= 0) s += mc::fmt("read %d %s ", a.ev, a.kind == 0 ? "answered" : a.kind == 1 ? "refused" : "must wait");
  if (a.fill) s += "refill ";
  return s.empty() ? "-" : s;
}
static std::string histstr() {
  std::string h;
  for (auto &s : hist) h += (h.empty() ? "" : " | ") + s;
  for (auto &a : ah) h += (h.empty() ? "" : " | ") + show(a);
  return h;
}
static void port(const Sys &s, const Act &a, MemPtwBlock::PortIn &in) {
  in = MemPtwBlock::PortIn{};
  for (int i = 0; i < 2; ++i) {
    auto &wi = in.walk_clients[i];
    wi.resp_consumed = a.wc[i];
    if (a.w[i] >= 1 && a.w[i] != 5) {
      int q = a.w[i] < 5 ? a.w[i] - 1 : a.w[i] - 2;
      wi.req_valid = true; wi.req.satp = 0x80000000u | ROOT[q >> 2]; wi.req.vaddr = vaddr(q >> 1 & 1, q & 1); wi.req.access_type = i;
    }
    auto &mi = in.mem_clients[i];
    mi.resp_consumed = a.pc[i];
    if (a.p[i]) { mi.req_valid = true; mi.req_addr = (ROOT[i] << 12) + VPN1[s.psends & 1] * 4; }
  }
}
// what may be granted this cycle given the inputs
static int pending(const Sys &s, const Act &a) {
  MemPtwBlock u = s.u; MemPtwBlock::PortIn in; port(s, a, in);
  u.comb_begin(in);
  auto &o = u.comb_outputs();
  return (o.mem_req_pending[0] ? 1 : 0) | (o.mem_req_pending[1] ? 2 : 0) | (o.issue_walk_read ? 4 : 0);
}
static void step(Sys &s, const Act &a) {
  using B = MemPtwBlock;
  mc::trans();
  B::PortIn in; port(s, a, in);
  s.u.comb_begin(in);
  auto &o = s.u.comb_outputs();
  for (int i = 0; i < 2; ++i) {
    if (a.wc[i]) s.w[i].st = 0;
    if (a.w[i] >= 1 && a.w[i] != 5) { int q = a.w[i] < 5 ? a.w[i] - 1 : a.w[i] - 2; s.w[i] = {1, q >> 2, q >> 1 & 1, q & 1}; s.sends++; }
    if (a.pc[i]) s.p[i].st = 0;
    if (a.p[i]) { s.p[i] = {1, in.mem_clients[i].req_addr}; s.psends++; }
  }
  B::FeedbackIn fb{};
  int slot = -1;
  if (a.grant >= 0) {
    uint32_t addr = a.grant == 2 ? o.walk_read_addr : o.mem_req_addr[a.grant];
    for (int i = 0; i < 3; ++i) if (!s.rd[i].on && slot < 0) slot = i;
    // ids are never shared by two reads that are out at the same time
    fb.grant_valid = true; fb.grant_req_id = slot + 1;
    fb.grant_owner = a.grant == 0 ? B::GrantOwner::MEM_DTLB : a.grant == 1 ? B::GrantOwner::MEM_ITLB : B::GrantOwner::WALK;
    if (a.grant < 2 && addr != s.p[a.grant].addr) return fail("plain-address", mc::fmt("plain read goes to 0x%x instead of 0x%x", addr, s.p[a.grant].addr));
    if (slot >= 0) s.rd[slot] = {true, a.grant, addr, (uint32_t)slot + 1, true};
  }
  uint32_t evid = 0, evdata = 0; int evcls = -1;
  if (a.ev >= 0) {
    Rd &r = s.rd[a.ev];
    if (a.kind == 0) {
      evid = r.id; evdata = memread(*tab, r.addr); evcls = r.cls;
      auto &e = fb.events[0]; fb.event_count = 1;
      e.valid = true; e.owner = r.cls == 0 ? B::RoutedEventOwner::MEM_DTLB : r.cls == 1 ? B::RoutedEventOwner::MEM_ITLB : B::RoutedEventOwner::WALK;
      e.data = evdata; e.req_addr = r.addr; e.req_id = r.id;
    } else if (a.kind == 1) { if (r.cls == 0) fb.wakeup_dtlb = true; if (r.cls == 1) fb.wakeup_itlb = true; if (r.cls == 2) fb.wakeup_walk = true; }
    else s.wait[r.cls] = true;
    r.on = false;
  }
  if (a.fill) { fb.wakeup_dtlb |= s.wait[0]; fb.wakeup_itlb |= s.wait[1]; fb.wakeup_walk |= s.wait[2]; s.wait[0] = s.wait[1] = s.wait[2] = false; }
  for (auto &r : s.rd) r.fresh = false;
  s.u.comb_finish(fb);
  // The packed form keeps one match bit instead of request ids, which is only
  // equivalent as long as a walk read is not sent out in the very cycle another
  // one is answered; the router never does that.
  if (a.grant == 2 && a.ev >= 0 && a.kind == 0 && evcls == 2) { s.koff = true; memset(s.kst, 0, sizeof s.kst); s.kid = 0; s.kidv = false; }
  // packed form: top-level inputs through the glue, then the compact core
  bool kvis[B::kCorePortOutWidth];
  if (!s.koff) {
    static bool ext[B::kTopGluePiWidth], glue[B::kTopGluePoWidth], pi[B::kPackedPiWidth], po[B::kPackedPoWidth];
    memset(ext, 0, sizeof ext);
    int at = 0;
    for (int i = 0; i < 2; ++i, at += B::kTopExternalMemClientInWidth) { auto &m = in.mem_clients[i]; ext[at] = m.req_valid; put(ext, at + 1, 32, m.req_addr); ext[at + 33] = m.resp_consumed; }
    for (int i = 0; i < 2; ++i, at += B::kTopExternalWalkClientInWidth) {
      auto &w = in.walk_clients[i]; ext[at] = w.req_valid; put(ext, at + 1, 32, w.req.vaddr); put(ext, at + 33, 32, w.req.satp); put(ext, at + 65, 32, w.req.access_type);
      ext[at + 97] = w.resp_consumed; ext[at + 98] = a.w[i] == 5;
    }
    ext[at] = fb.grant_valid; put(ext, at + 1, 2, (unsigned)fb.grant_owner); put(ext, at + 3, 32, (uint32_t)fb.grant_req_id); at += B::kTopExternalGrantInWidth;
    put(ext, at, 8, fb.event_count); at += B::kTopExternalEventCountWidth;
    { auto &e = fb.events[0]; ext[at] = e.valid; put(ext, at + 1, 2, (unsigned)e.owner); put(ext, at + 3, 32, e.data); put(ext, at + 35, 2, e.replay); put(ext, at + 37, 32, e.req_addr); put(ext, at + 69, 32, (uint32_t)e.req_id); }
    at += LSU_LDU_COUNT * B::kTopExternalEventInWidth;
    ext[at] = fb.wakeup_dtlb; ext[at + 1] = fb.wakeup_itlb; ext[at + 2] = fb.wakeup_walk;
    B::compact_core_visible_io_generator(s.kst, ext + B::kTopGlueCoreOutBase);
    B::top_glue_io_generator(ext, glue);
    if (memcmp(glue + B::kTopGlueExternalOutBase, ext + B::kTopGlueCoreOutBase, B::kCorePortOutWidth)) return fail("packed-glue", "packed top glue changes the core's outputs");
    const bool *c = glue + B::kTopGlueCoreInBase;
    memset(pi, 0, sizeof pi);
    memcpy(pi, s.kst, B::kPackedStateWidth);
    int d = B::kPackedStateWidth, f = 0, n = 2 * B::kCorePortMemClientInWidth + 2 * B::kCorePortWalkClientInWidth;
    memcpy(pi + d, c, n); d += n; f += n;
    memcpy(pi + d, c + f, 3); d += B::kPackedGrantInWidth;
    if (c[f] && get(c, f + 1, 2) == 3) { s.kidv = true; s.kid = get(c, f + 3, 32); }
    f += B::kCorePortGrantInWidth;
    memcpy(pi + d, c + f, 35); pi[d + 35] = s.kidv && get(c, f + 35, 32) == s.kid; d += B::kPackedEventInWidth; f += B::kCorePortEventInWidth;
    memcpy(pi + d, c + f, 3);
    B::compact_core_io_generator(pi, po);
    memcpy(s.kst, po, B::kPackedStateWidth);
    B::compact_core_visible_io_generator(po, kvis);
  }
  B::SeqIn sq{};
  for (int i = 0; i < 2; ++i) if (a.w[i] == 5) { sq.walk_client_flush[i] = true; s.w[i].st = 0; }
  s.u.seq(sq);
  auto &out = s.u.comb_outputs();
  // the packed form shows the same
  if (!s.koff) {
    int at = 0;
    for (int i = 0; i < 2; ++i, at += B::kCorePortMemClientOutWidth) {
      auto &m = out.mem_clients[i];
      if (kvis[at] != m.req_ready || kvis[at + 1] != m.resp_valid || (m.resp_valid && ((get(kvis, at + 2, 32) ^ m.resp_data) & ~0x300u))) return fail("packed-plain", mc::fmt("packed form differs in the %s plain read port", i ? "I" : "D"));
    }
    for (int i = 0; i < 2; ++i, at += B::kCorePortWalkClientOutWidth) {
      auto &w = out.walk_clients[i];
      if (kvis[at] != w.req_ready || kvis[at + 1] != w.resp_valid) return fail("packed-walk", mc::fmt("packed form differs in the %s walk port handshake", i ? "I" : "D"));
      if (w.resp_valid && (kvis[at + 2] != w.resp.fault || ((get(kvis, at + 3, 32) ^ w.resp.vaddr) & ~0xfffu) || (!w.resp.fault && (((get(kvis, at + 35, 32) ^ w.resp.leaf_pte) & ~0x300u) || get(kvis, at + 67, 8) != w.resp.leaf_level))))
        return fail("packed-answer", mc::fmt("packed form gives the %s side another answer", i ? "I" : "D"));
    }
    if (kvis[at] != out.issue_walk_read || (out.issue_walk_read && get(kvis, at + 1, 32) != out.walk_read_addr)) return fail("packed-read", "packed form issues another walk read");
    for (int i = 0; i < 2; ++i) if (kvis[at + 33 + i] != out.mem_req_pending[i] || (out.mem_req_pending[i] && get(kvis, at + 35 + 32 * i, 32) != out.mem_req_addr[i])) return fail("packed-read", "packed form issues another plain read");
  }
  // answers
  for (int i = 0; i < 2; ++i) {
    const char *n = i ? "instruction" : "data";
    auto &g = out.walk_clients[i]; WC &m = s.w[i];
    if (g.resp_valid && m.st == 0) return fail("unasked", mc::fmt("the %s side gets a walk answer it did not ask for or had cancelled", n));
    if (!g.resp_valid && m.st == 2) return fail("lost", mc::fmt("a walk answer of the %s side disappears before it is taken", n));
    if (g.resp_valid) {
      Ans w = spec(pte1(*tab, m.r, m.a), pte2(*tab, m.r, m.a, m.b));
      if (g.resp.fault != w.fault || (!w.fault && (g.resp.leaf_pte != w.pte || g.resp.leaf_level != w.level)))
        return fail("answer", mc::fmt("the %s side asked for 0x%x under root 0x%x and gets fault=%d entry=0x%x level=%d instead of fault=%d entry=0x%x level=%d", n, vaddr(m.a, m.b), ROOT[m.r], g.resp.fault, g.resp.leaf_pte, g.resp.leaf_level, w.fault, w.pte, w.level));
      if ((g.resp.vaddr ^ vaddr(m.a, m.b)) >> 12) return fail("answer-address", mc::fmt("the %s side asked for 0x%x and gets the answer for 0x%x", n, vaddr(m.a, m.b), g.resp.vaddr));
      m.st = 2;
    }
    auto &gp = out.mem_clients[i]; PC &mp = s.p[i];
    if (gp.resp_valid && mp.st == 0) return fail("plain-unasked", mc::fmt("the %s side gets a word it did not ask for", n));
    if (!gp.resp_valid && mp.st == 2) return fail("plain-lost", mc::fmt("a word of the %s side disappears", n));
    if (gp.resp_valid) { if (gp.resp_data != memread(*tab, mp.addr)) return fail("plain-data", mc::fmt("the %s side reads 0x%x and gets 0x%x", n, mp.addr, gp.resp_data)); mp.st = 2; }
  }
  (void)evid; (void)evdata; (void)evcls;
}
static uint64_t hash(const Sys &s) {
  uint64_t h = mc::hash_bytes(&s.u, sizeof s.u);
  h = mc::hash_bytes(s.kst, sizeof s.kst, h);
  for (int i = 0; i < 2; ++i) { h = mc::mix(h, s.w[i].st ? s.w[i].st * 8 + s.w[i].r * 4 + s.w[i].a * 2 + s.w[i].b : 0); h = mc::mix(h, s.p[i].st * 2 + (s.p[i].addr >> 8 & 1)); }
  for (auto &r : s.rd) h = mc::mix(h, r.on ? ((uint64_t)r.addr << 4 | r.cls << 1 | 1) : 0);
  h = mc::mix(h, s.wait[0] | s.wait[1] << 1 | s.wait[2] << 2);
  return mc::mix(h, s.koff * 256 + s.sends * 16 + s.psends);
}
// everything is answered at once from here on; `busy` keeps asking forever
static void drain(Sys s, int busy) {
  mc::trace();
  s.koff = true;
  for (int n = 0; n < 60; ++n) {
    bool left = false;
    for (int i = 0; i < 2; ++i) left |= (i != busy && s.w[i].st == 1) || s.p[i].st == 1;
    if (!left) return;
    Act a{{0, 0}, {false, false}, {0, 0}, {false, false}, -1, -1, 0, true};
    auto &o = s.u.comb_outputs();
    for (int i = 0; i < 2; ++i) {
      if (s.w[i].st == 2) a.wc[i] = true;
      if (s.p[i].st == 2) a.pc[i] = true;
      if (i == busy && s.w[i].st != 1 && o.walk_clients[i].req_ready) a.w[i] = 1 + (n & 3);
    }
    int pend = pending(s, a), room = 0;
    for (int i = 0; i < 3; ++i) { if (s.rd[i].on && a.ev < 0) a.ev = i; room += !s.rd[i].on; }
    if (room) for (int c = 0; c < 3; ++c) if (pend >> ((c + n) % 3) & 1) { a.grant = (c + n) % 3; break; }
    ah.push_back(a); step(s, a); ah.pop_back();
    if (bad) return;
  }
  if (s.w[0].st == 1 && busy != 0) fail("starved", "a data-side walk is never answered although memory answers everything");
  else if (s.w[1].st == 1 && busy != 1) fail("starved", "an instruction-side walk is never answered although memory answers everything");
  else if (s.p[0].st == 1 || s.p[1].st == 1) fail("plain-starved", "a plain read is never answered although memory answers everything");
}
struct Fam { int depth, sends, psends, npath; bool plain; };
static void dfs(const Sys &s, int depth, const Fam &f, uint64_t salt) {
  if (!mc::visit(mc::mix(hash(s), salt * 64 + depth))) return;
  if (depth == 0) { drain(s, -1); if (!bad && s.w[1].st == 1) drain(s, 0); if (!bad && s.w[0].st == 1) drain(s, 1); return; }
  auto o = s.u.comb_outputs();
  int nw[2][8], cw[2] = {0, 0};
  for (int i = 0; i < 2; ++i) {
    nw[i][cw[i]++] = 0;
    if (s.w[i].st != 1 && o.walk_clients[i].req_ready && s.sends < f.sends) for (int q = 0; q < f.npath; ++q) nw[i][cw[i]++] = 1 + q;
    if (s.w[i].st) nw[i][cw[i]++] = 5;
  }
  for (int x = 0; x < cw[0]; ++x) for (int y = 0; y < cw[1]; ++y) for (int tk = 0; tk < 4; ++tk) for (int pl = 0; pl < (f.plain ? 4 : 1); ++pl) {
    Act a{{nw[0][x], nw[1][y]}, {false, false}, {0, 0}, {false, false}, -1, -1, 0, false};
    bool ok = true;
    for (int i = 0; i < 2; ++i) {
      bool t = tk >> i & 1;
      if (t && s.w[i].st != 2) ok = false;
      // a side with an untaken answer takes it before it asks again
      if (!t && s.w[i].st == 2 && a.w[i] >= 1 && a.w[i] != 5) ok = false;
      if (t && a.w[i] == 5) ok = false;
      a.wc[i] = t;
    }
    if (f.plain) for (int i = 0; i < 2; ++i) if (pl >> i & 1) {
      if (s.p[i].st == 2) a.pc[i] = true;
      else if (s.p[i].st == 0 && s.psends < f.psends && o.mem_clients[i].req_ready) a.p[i] = 1;
      else ok = false;
    }
    if (!ok) continue;
    int pend = pending(s, a), room = 0;
    for (auto &r : s.rd) room += !r.on;
    bool anywait = s.wait[0] || s.wait[1] || s.wait[2];
    for (int g = -1; g < 3; ++g) {
      if (g >= 0 && (!(pend >> g & 1) || !room)) continue;
      for (int e = -1; e < 3; ++e) for (int k = 0; k < (e < 0 ? 1 : 3); ++k) for (int fl = 0; fl < 2; ++fl) {
        if (e >= 0 && !s.rd[e].on) continue;
        if (fl && !anywait && k != 2) continue;
        Act b = a; b.grant = g; b.ev = e; b.kind = k; b.fill = fl;
        Sys t = s;
        ah.push_back(b); step(t, b);
        if (!bad) dfs(t, depth - 1, f, salt);
        ah.pop_back();
        if (bad) return;
      }
    }
  }
}
static void fresh(Sys &s) {
  memset((void *)&s, 0, sizeof s);
  new (&s.u) MemPtwBlock(nullptr);
  s.u.init();
}
static Tab mk(int d, int dl, int i, int il) {
  // data-side path 0.0.0 / 0.0.1, instruction-side paths come from the same
  // enumeration; the second root holds the other kinds
  Tab t;
  t.l1[0][0] = d; t.l1[0][1] = i; t.l1[1][0] = i; t.l1[1][1] = d;
  for (int r = 0; r < 2; ++r) for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) t.l2[r][a][b] = (r + a) & 1 ? (b ? dl : il) : (b ? il : dl);
  return t;
}
static void block(bool quick) {
  struct Job { Tab t; Fam f; int first; };
  std::vector<Job> jobs;
  int kinds[][2] = {{PTR, LEAF2}, {SUPER, LEAF2}, {PTR, INV2}, {INV, LEAF2}, {PTR, PTR2}, {MISAL, LEAF2}, {RES, XLEAF2}, {PTR, XLEAF2}, {PTR, RES2}};
  int n = sizeof kinds / sizeof kinds[0];
  for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y)
    jobs.push_back({mk(kinds[x][0], kinds[x][1], kinds[y][0], kinds[y][1]), {quick ? 7 : 8, 3, 0, x == 0 && y == 1 ? 4 : (x < 3 && y < 3) || !quick ? 2 : 1, false}, 0});
  for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y)
    jobs.push_back({mk(kinds[x][0], kinds[x][1], kinds[y][0], kinds[y][1]), {quick ? 10 : 11, 3, 0, quick ? 1 : 2, false}, 1});
  for (int x = 0; x < 3; ++x) jobs.push_back({mk(kinds[x][0], kinds[x][1], kinds[0][0], kinds[0][1]), {quick ? 5 : 7, 2, 3, 1, true}, 2});
  std::stable_sort(jobs.begin(), jobs.end(), [](const Job &x, const Job &y) { return x.f.npath * 10 + x.f.plain * 35 + x.f.depth > y.f.npath * 10 + y.f.plain * 35 + y.f.depth; });
  mc::parallel([&](int, int) {
    for (int64_t q; (q = mc::take(jobs.size())) >= 0;) {
      double t0 = mc::now();
      Job j = jobs[q]; tab = &j.t;
      bad = false; hist.clear(); ah.clear();
      pre = mc::fmt("walk block, tables %s/%s", KN[j.t.l1[0][0]], KN[j.t.l1[0][1]]);
      mc::current("walk block, job %d", (int)q);
      static Sys s; fresh(s);
      dfs(s, j.f.depth, j.f, 100 + q);
      if (getenv("MC_PHASE") && getenv("MC_VERBOSE")) fprintf(stderr, "job %d paths %d depth %d plain %d %.1f s\n", (int)q, j.f.npath, j.f.depth, j.f.plain, mc::now() - t0);
      mc::count(0);
    }
  });
}
// every entry content: all flag bytes at both levels, page numbers with single bits set
static void contents(bool quick) {
  mc::parallel([&](int, int) {
    for (int64_t q; (q = mc::take(256)) >= 0;) {
      mc::current("walk block contents, first-level flags 0x%x", (int)q);
      pre = "walk block contents"; ah.clear();
      for (int b1 = 0; b1 < 23; ++b1) for (int fl2 = 0; fl2 < 256; ++fl2) {
        uint32_t p1 = (uint32_t)q | 0x300u | (b1 < 22 ? 1u << (10 + b1) : 0), p2 = fl2 | 0x100 | (1u << (10 + (fl2 + b1) % 22));
        if ((p1 & 0xb) != 1 && fl2) break; // the second level is not read
        bad = false; hist.clear();
        hist.push_back(mc::fmt("entries 0x%x 0x%x", p1, p2));
        MemPtwBlock u(nullptr); u.init();
        int side = (fl2 + b1) & 1; uint32_t root = 0x200000u | 1u << (b1 % 22), va = 0x00400000u << (b1 % 10) | 0x1000u << (fl2 % 10) | 0xabc;
        MemPtwBlock::PortIn in{}; in.walk_clients[side].req_valid = true; in.walk_clients[side].req = {}; in.walk_clients[side].req.vaddr = va; in.walk_clients[side].req.satp = 0x80000000u | root;
        uint32_t a1 = (root << 12) + (va >> 22) * 4, a2 = (p1 >> 10 << 12) + (va >> 12 & 0x3ff) * 4;
        int reads = 0; uint32_t pend = 0; bool out = false, done = false;
        for (int n = 0; n < 12 && !done; ++n) {
          u.comb_begin(in); in = {};
          MemPtwBlock::FeedbackIn fb{};
          if (out) { fb.event_count = 1; fb.events[0].valid = true; fb.events[0].owner = MemPtwBlock::RoutedEventOwner::WALK; fb.events[0].data = pend == a1 && reads == 1 ? p1 : pend == a2 && reads == 2 ? p2 : 0xdeaddc0f; fb.events[0].req_id = 7; out = false; }
          else if (u.comb_outputs().issue_walk_read) {
            pend = u.comb_outputs().walk_read_addr; reads++; out = true;
            fb.grant_valid = true; fb.grant_owner = MemPtwBlock::GrantOwner::WALK; fb.grant_req_id = 7;
            uint32_t want = reads == 1 ? a1 : a2;
            if (pend != want || reads > 2) { fail("read-address", mc::fmt("read %d of the walk for 0x%x goes to 0x%x instead of 0x%x", reads, va, pend, want)); break; }
          }
          u.comb_finish(fb); u.seq(); mc::trans();
          auto &o = u.comb_outputs().walk_clients[side];
          if (u.comb_outputs().walk_clients[!side].resp_valid) { fail("unasked", "the other side gets an answer"); break; }
          if (o.resp_valid) {
            done = true; Ans w = spec(p1, p2);
            if (o.resp.fault != w.fault || (!w.fault && (o.resp.leaf_pte != w.pte || o.resp.leaf_level != w.level)) || (o.resp.vaddr ^ va) >> 12)
              fail("answer", mc::fmt("walk of 0x%x over entries 0x%x, 0x%x: fault=%d entry=0x%x level=%d instead of fault=%d entry=0x%x level=%d", va, p1, p2, o.resp.fault, o.resp.leaf_pte, o.resp.leaf_level, w.fault, w.pte, w.level));
          }
        }
        if (!done && !bad) fail("starved", "a walk is never answered");
        mc::visit(mc::mix(p1, (uint64_t)p2 << 32 | 5)); mc::trace();
        if (bad) return;
      }
      mc::count(1);
    }
  });
  (void)quick;
}
// ---- the stand-alone walker ----
namespace solo {
struct Port : PtwMemPort {
  uint32_t addr = 0, data = 0; bool out = false, have = false; int refuse = 0, delay = 0; int reads = 0; uint32_t log[4];
  bool send_read_req(uint32_t p) override { if (refuse > 0) { refuse--; return false; } addr = p; out = true; if (reads < 4) log[reads] = p; reads++; return true; }
  bool resp_valid() const override { return have; }
  uint32_t resp_data() const override { return data; }
  void consume_resp() override { have = false; }
};
static void one(uint32_t p1, uint32_t p2, uint32_t va, uint32_t satp, int r1, int d1, int r2, int d2, int cancel) {
  Port m; PtwWalker w(&m);
  uint32_t a1 = ((satp & 0x3fffff) << 12) + (va >> 22) * 4, a2 = (p1 >> 10 << 12) + (va >> 12 & 0x3ff) * 4;
  if (cancel >= 0) { // an earlier walk abandoned before its read went out, or after its data came
    if (!w.start(va ^ 0xfffff000u, satp ^ 0x15)) return fail("solo-start", "an idle walker does not start");
    for (int n = 0; n < cancel; ++n) { w.tick(); if (m.out) { m.out = false; m.have = true; m.data = n < 2 ? 0x20000001u : 0x12345cfu; } }
    w.flush(); m.have = m.out = false; m.reads = 0; mc::trans(cancel);
    if (w.busy()) return fail("solo-flush", "the walker is still busy after a flush");
  }
  if (!w.start(va, satp)) return fail("solo-start", "an idle walker does not start");
  if (w.start(va ^ 0x1000, satp)) return fail("solo-busy", "a busy walker accepts another walk");
  m.refuse = r1; int wait = 0;
  for (int n = 0; n < 40; ++n) {
    auto st = w.tick(); mc::trans();
    if (st == PtwWalker::State::DONE || st == PtwWalker::State::FAULT) {
      Ans x = spec(p1, p2);
      bool f = st == PtwWalker::State::FAULT;
      if (f != x.fault || (!f && (w.leaf_pte() != x.pte || w.leaf_level() != x.level))) return fail("solo-answer", mc::fmt("walk over entries 0x%x, 0x%x: fault=%d entry=0x%x level=%d instead of fault=%d entry=0x%x level=%d", p1, p2, f, w.leaf_pte(), w.leaf_level(), x.fault, x.pte, x.level));
      if (m.have || m.out) return fail("solo-left", "the walker leaves a read behind");
      if (w.tick() != st) return fail("solo-hold", "the result is not held");
      w.flush(); if (w.busy()) return fail("solo-flush", "the walker is still busy after a flush");
      return;
    }
    if (m.out) { wait = m.reads == 1 ? d1 : d2; m.out = false; if (m.log[m.reads - 1 & 3] != (m.reads == 1 ? a1 : a2)) return fail("solo-address", mc::fmt("read %d goes to 0x%x", m.reads, m.log[m.reads - 1 & 3])); m.data = m.reads == 1 ? p1 : p2; m.refuse = r2; if (!wait) m.have = true; else wait++; }
    if (wait && !--wait) m.have = true;
  }
  fail("solo-stuck", "a walk never ends although memory answers");
}
static void run(bool quick) {
  mc::parallel([&](int, int) {
    for (int64_t q; (q = mc::take(256)) >= 0;) {
      mc::current("walker, first-level flags 0x%x", (int)q);
      for (int b1 = 0; b1 < 23; ++b1) for (int f2 = 0; f2 < 256; ++f2) {
        uint32_t p1 = (uint32_t)q | (b1 < 22 ? 1u << (10 + b1) : 0), p2 = f2 | 1u << (10 + (f2 + b1) % 22);
        if ((p1 & 0xb) != 1 && f2) break;
        for (int t = 0; t < 16; ++t) for (int c = -1; c < (f2 & 7 ? 0 : 6); ++c) {
          bad = false; hist.clear(); pre = mc::fmt("walker, entries 0x%x 0x%x, timing %x, abandoned walk %d", p1, p2, t, c);
          one(p1, p2, 0x00400000u << (b1 % 10) | 0x1000u << (f2 % 10) | 0xabc, 0x80000000u | 1u << (b1 % 22), t & 1, t >> 1 & 1, t >> 2 & 1, t >> 3 & 1, c);
          mc::trace(); if (bad) return;
        }
        mc::visit(mc::mix(p1, (uint64_t)p2 << 32 | 9));
      }
      mc::count(2);
    }
  });
  (void)quick;
}
} // namespace solo
int main(int argc, char **argv) {
  bool quick = argc < 3 || !strcmp(argv[2], "quick");
  mc::init(1ull << 33);
  double t = mc::now();
  block(quick); if (getenv("MC_PHASE")) fprintf(stderr, "block %.1f\n", mc::now() - t);
  contents(quick); if (getenv("MC_PHASE")) fprintf(stderr, "contents %.1f\n", mc::now() - t);
  solo::run(quick); if (getenv("MC_PHASE")) fprintf(stderr, "solo %.1f\n", mc::now() - t);
  return mc::report({{"bounds", "see DESIGN.md"}});
}
