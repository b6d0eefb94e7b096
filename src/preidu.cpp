// P27: the instruction buffer and fetch-target queue between fetch and decode.
#include "mc.h"
#include "PreIduQueue.h"
#include "types.h"
#include <deque>
#include <type_traits>

static uint32_t val(uint64_t g, int f, int i, int j = 0) { return (uint32_t)(mc::mix(mc::mix(g * 977 + f, 0x5151 + i), j) >> 9); }
template <class T> static T cut(uint32_t v, int bits) {
  if constexpr (std::is_same_v<T, bool>) return (v >> 3) & 1;
  else return (T)(bits >= 32 ? v : v & ((1u << bits) - 1u));
}
enum { F_INST = 1, F_PC, F_PF, F_DIR, F_NEXT, F_ALT, F_ALTP, F_PCPN, F_TI, F_TT, F_SU, F_SP, F_SS, F_SI, F_LU, F_LH, F_LP, F_LI, F_LT };
#define V(T, f, i, j, bits) cut<std::decay_t<T>>(val(g, f, i, j), bits)

static FrontPreIO f2p;
static IduConsumeIO consume;
static RobBroadcastIO bcast;
static RobCommitIO commit_io;
static ExuIdIO latch_;
static FtqPrfPcReqIO prf_req;
static FtqRobPcReqIO rob_req;
static PreFrontIO p2f;
static PreIssueIO issue_;
static FtqPrfPcRespIO prf_resp;
static FtqRobPcRespIO rob_resp;
static FtqCommitInfoIO info;

static void fill_group(uint64_t g, int mask) {
  f2p = FrontPreIO();
  for (int i = 0; i < FETCH_WIDTH; ++i) {
    f2p.valid[i] = (mask >> i) & 1;
    f2p.inst[i] = V(decltype(f2p.inst[0]), F_INST, i, 0, 32);
    f2p.pc[i] = V(decltype(f2p.pc[0]), F_PC, i, 0, 32);
    f2p.page_fault_inst[i] = val(g, F_PF, i) & 1;
    f2p.predict_dir[i] = val(g, F_DIR, i) & 1;
    f2p.predict_next_fetch_address[i] = V(decltype(f2p.predict_next_fetch_address[0]), F_NEXT, 0, 0, 32);
    f2p.alt_pred[i] = val(g, F_ALT, i) & 1;
    f2p.altpcpn[i] = V(pcpn_t, F_ALTP, i, 0, pcpn_t_BITS);
    f2p.pcpn[i] = V(pcpn_t, F_PCPN, i, 0, pcpn_t_BITS);
    for (int t = 0; t < 4; ++t) {
      f2p.tage_idx[i][t] = V(tage_idx_t, F_TI, i, t, tage_idx_t_BITS);
      f2p.tage_tag[i][t] = V(tage_tag_t, F_TT, i, t, tage_tag_t_BITS);
    }
    f2p.sc_used[i] = val(g, F_SU, i) & 1;
    f2p.sc_pred[i] = val(g, F_SP, i) & 1;
    f2p.sc_sum[i] = V(tage_scl_meta_sum_t, F_SS, i, 0, tage_scl_meta_sum_t_BITS);
    for (int t = 0; t < BPU_SCL_META_NTABLE; ++t) f2p.sc_idx[i][t] = V(tage_scl_meta_idx_t, F_SI, i, t, tage_scl_meta_idx_t_BITS);
    f2p.loop_used[i] = val(g, F_LU, i) & 1;
    f2p.loop_hit[i] = val(g, F_LH, i) & 1;
    f2p.loop_pred[i] = val(g, F_LP, i) & 1;
    f2p.loop_idx[i] = V(tage_loop_meta_idx_t, F_LI, i, 0, tage_loop_meta_idx_t_BITS);
    f2p.loop_tag[i] = V(tage_loop_meta_tag_t, F_LT, i, 0, tage_loop_meta_tag_t_BITS);
  }
}

struct Fl { uint64_t g; uint8_t slot, last; uint8_t idx, off; };
struct Act { uint8_t mask, take, ret, ev; }; // ev 0 none 1 flush 2.. mispredict at selector
struct St {
  PreIduQueue q;
  std::deque<Fl> buf; // accepted, not yet consumed by decode
  std::deque<Fl> fl;  // consumed, not yet retired
  std::vector<uint64_t> ftq; // live groups, oldest first
  uint64_t next = 1;
  bool stale_flush = false;
};
static std::vector<Act> hist;
static std::string prelude;
static bool bad;
static std::string hs() {
  std::string s = prelude + " |";
  for (auto &a : hist)
    s += mc::fmt(" m%x,c%d,r%d%s", a.mask, a.take, a.ret, a.ev == 0 ? "" : a.ev == 1 ? ",flush" : mc::fmt(",mispred%d", a.ev - 2).c_str());
  return s;
}
static void fail(const char *k, const std::string &t) {
  bad = true;
  mc::violation(mc::fmt("P27:%s", k), hs(), mc::fmt("history [%s]: %s: %s", hs().c_str(), k, t.c_str()));
}
static void bind(St &s) {
  s.q.in = {&f2p, &consume, &bcast, &commit_io, &latch_, &prf_req, &rob_req};
  s.q.out = {&p2f, &issue_, &prf_resp, &rob_resp, &info};
}
static void reset_io() {
  f2p = FrontPreIO(); consume = IduConsumeIO(); bcast = RobBroadcastIO(); commit_io = RobCommitIO(); latch_ = ExuIdIO();
  prf_req = FtqPrfPcReqIO(); rob_req = FtqRobPcReqIO(); p2f = PreFrontIO(); issue_ = PreIssueIO(); prf_resp = FtqPrfPcRespIO();
  rob_resp = FtqRobPcRespIO(); info = FtqCommitInfoIO();
}
static void check_lookup(const FtqPcReadResp &r, const Fl &e, const char *port) {
  uint64_t g = e.g;
  if (!r.valid || !r.entry_valid) { fail("ftq-entry-lost", mc::fmt("%s lookup of a live entry (idx %d) is not valid", port, e.idx)); return; }
  if (r.pc != V(decltype(r.pc), F_PC, e.slot, 0, 32) || r.next_pc != V(decltype(r.next_pc), F_NEXT, 0, 0, 32) || (bool)r.pred_taken != (val(g, F_DIR, e.slot) & 1))
    fail("ftq-content", mc::fmt("%s lookup of live entry idx %d slot %d: pc %08x next %08x taken %d", port, e.idx, e.slot, (uint32_t)r.pc, (uint32_t)r.next_pc, (int)r.pred_taken));
}
static int expect_offered(const St &s) { return (int)s.buf.size() < DECODE_WIDTH ? (int)s.buf.size() : DECODE_WIDTH; }
static void rotate(size_t n, size_t k, const std::function<void(size_t)> &f) { for (size_t i = 0; i < n && i < k; ++i) f(i); }

// executes one cycle; false if the action is not applicable in this state
static bool cycle(St &s, Act a, bool lookups = true) {
  int off = expect_offered(s);
  if (a.take > off || a.ret > s.fl.size() || a.ret > COMMIT_WIDTH) return false;
  int mj = -1;
  if (a.ev >= 2) {
    if (s.fl.empty() || a.ret) return false; // nothing retires in a recovery cycle
    int n = (int)s.fl.size(), w = a.ev - 2;
    mj = w == 0 ? 0 : w == 1 ? n - 1 : n / 2;
    if (w == 2 && (mj == 0 || mj == n - 1)) return false;
    if (w == 1 && n == 1) return false;
  }
  if (a.ev == 1 && a.ret == 0) return false; // a flush is raised by a retiring instruction
  mc::trans();
  bind(s);
  // --- clock edge passed; combinational phase in the core's order
  bcast = RobBroadcastIO(); bcast.flush = s.stale_flush;
  latch_ = ExuIdIO();
  if (mj >= 0) { latch_.mispred = true; latch_.ftq_idx = s.fl[mj].idx; }
  s.q.comb_begin();
  fill_group(s.next, a.mask);
  s.q.comb_accept_front();
  int want = __builtin_popcount(a.mask);
  bool blocked = mj >= 0 || s.stale_flush;
  bool room = s.ftq.size() < FTQ_SIZE && (int)s.buf.size() + want <= IDU_INST_BUFFER_SIZE;
  int fired = 0;
  for (int i = 0; i < FETCH_WIDTH; ++i) fired |= (p2f.fire[i] ? 1 : 0) << i;
  if (!room && fired) fail("overflow", mc::fmt("a group was accepted with %zu groups and %zu instructions held", s.ftq.size(), s.buf.size()));
  if (!room && p2f.ready && want) fail("overflow", mc::fmt("ready with %zu groups and %zu instructions held", s.ftq.size(), s.buf.size()));
  if (room && !blocked && want && !p2f.ready) fail("refused", mc::fmt("not ready although only %zu groups and %zu instructions are held", s.ftq.size(), s.buf.size()));
  if (fired && fired != a.mask) fail("partial", mc::fmt("offered slots %x, accepted %x", a.mask, fired));
  if (want && p2f.ready && !fired) fail("not-accepted", "ready but nothing was taken");
  if (fired && !p2f.ready) fail("fire-without-ready", "slots taken while not ready");
  if (bad) return true;
  // --- offered to decode
  for (int i = 0; i < DECODE_WIDTH; ++i) {
    auto &e = issue_.entries[i];
    if (i >= off) { if (e.valid) fail("invented", mc::fmt("decode slot %d holds an instruction, %zu are buffered", i, s.buf.size())); continue; }
    Fl &w = s.buf[i];
    uint64_t g = w.g;
    if (!e.valid) { fail("not-offered", mc::fmt("decode slot %d is empty, %zu are buffered", i, s.buf.size())); continue; }
    if (e.inst != V(decltype(e.inst), F_INST, w.slot, 0, 32) || e.pc != V(decltype(e.pc), F_PC, w.slot, 0, 32) || (bool)e.page_fault_inst != (val(g, F_PF, w.slot) & 1))
      fail("content", mc::fmt("decode slot %d: inst %08x pc %08x is not the next accepted instruction", i, (uint32_t)e.inst, (uint32_t)e.pc));
    if ((bool)e.ftq_is_last != (bool)w.last) fail("last-mark", mc::fmt("slot %d of its group: last=%d", w.slot, (int)e.ftq_is_last));
    w.idx = e.ftq_idx; w.off = e.ftq_offset;
  }
  if (bad) return true;
  // --- retirement side
  commit_io = RobCommitIO();
  // retiring instructions may sit at any place of the commit line; the other
  // places show instructions that do not retire now
  const int sh = hist.size() % (COMMIT_WIDTH - a.ret + 1);
  for (auto &c : commit_io.commit_entry) c.uop.ftq_is_last = true;
  for (int i = 0; i < a.ret; ++i) {
    auto &c = commit_io.commit_entry[sh + i];
    c.valid = true; c.uop.ftq_idx = s.fl[i].idx; c.uop.ftq_offset = s.fl[i].off; c.uop.ftq_is_last = s.fl[i].last;
  }
  auto look_rob = [&](const Fl &e) {
    rob_req = FtqRobPcReqIO();
    rob_req.req[0].valid = true; rob_req.req[0].ftq_idx = e.idx; rob_req.req[0].ftq_offset = e.off;
    s.q.comb_ftq_lookup_rob();
    check_lookup(rob_resp.resp[0], e, "reorder buffer");
  };
  if (!s.fl.empty()) look_rob(s.fl[0]);
  bcast.flush = a.ev == 1;
  s.q.comb_commit_info();
  for (int i = 0; i < a.ret; ++i) {
    auto &r = info.resp[sh + i];
    Fl &e = s.fl[i];
    uint64_t g = e.g;
    bool ok = r.pc == V(decltype(r.pc), F_PC, e.slot, 0, 32) && (bool)r.pred_taken == (val(g, F_DIR, e.slot) & 1) && (bool)r.alt_pred == (val(g, F_ALT, e.slot) & 1) &&
              r.altpcpn == V(pcpn_t, F_ALTP, e.slot, 0, pcpn_t_BITS) && r.pcpn == V(pcpn_t, F_PCPN, e.slot, 0, pcpn_t_BITS) &&
              (bool)r.sc_used == (val(g, F_SU, e.slot) & 1) && (bool)r.sc_pred == (val(g, F_SP, e.slot) & 1) && r.sc_sum == V(tage_scl_meta_sum_t, F_SS, e.slot, 0, tage_scl_meta_sum_t_BITS) &&
              (bool)r.loop_used == (val(g, F_LU, e.slot) & 1) && (bool)r.loop_hit == (val(g, F_LH, e.slot) & 1) && (bool)r.loop_pred == (val(g, F_LP, e.slot) & 1) &&
              r.loop_idx == V(tage_loop_meta_idx_t, F_LI, e.slot, 0, tage_loop_meta_idx_t_BITS) && r.loop_tag == V(tage_loop_meta_tag_t, F_LT, e.slot, 0, tage_loop_meta_tag_t_BITS);
    for (int t = 0; t < 4; ++t) ok = ok && r.tage_idx[t] == V(tage_idx_t, F_TI, e.slot, t, tage_idx_t_BITS) && r.tage_tag[t] == V(tage_tag_t, F_TT, e.slot, t, tage_tag_t_BITS);
    for (int t = 0; t < BPU_SCL_META_NTABLE; ++t) ok = ok && r.sc_idx[t] == V(tage_scl_meta_idx_t, F_SI, e.slot, t, tage_scl_meta_idx_t_BITS);
    if (!ok) fail("retire-metadata", mc::fmt("retiring slot %d: pc %08x or its prediction metadata is not that of the instruction", i, (uint32_t)r.pc));
  }
  if (lookups)
    for (size_t b = 0; b < s.fl.size(); b += FTQ_PRF_PC_PORT_NUM) {
      prf_req = FtqPrfPcReqIO();
      for (size_t k = 0; k < FTQ_PRF_PC_PORT_NUM && b + k < s.fl.size(); ++k) {
        prf_req.req[k].valid = true; prf_req.req[k].ftq_idx = s.fl[b + k].idx; prf_req.req[k].ftq_offset = s.fl[b + k].off;
      }
      s.q.comb_ftq_lookup_prf();
      for (size_t k = 0; k < FTQ_PRF_PC_PORT_NUM && b + k < s.fl.size(); ++k) check_lookup(prf_resp.resp[k], s.fl[b + k], "execution");
    }
  consume = IduConsumeIO();
  for (int i = 0; i < a.take; ++i) consume.fire[i] = true;
  s.q.comb_fire();
  s.q.seq();
  // --- model step
  if (fired) {
    int last = 31 - __builtin_clz(fired);
    for (int i = 0; i < FETCH_WIDTH; ++i) if ((fired >> i) & 1) s.buf.push_back({s.next, (uint8_t)i, (uint8_t)(i == last), 0, 0});
    s.ftq.push_back(s.next);
    s.next++;
  }
  for (int i = 0; i < a.take; ++i) { s.fl.push_back(s.buf.front()); s.buf.pop_front(); }
  for (int i = 0; i < a.ret; ++i) {
    if (s.fl.front().last) s.ftq.erase(s.ftq.begin());
    s.fl.pop_front();
  }
  if (a.ev == 1) { s.buf.clear(); s.fl.clear(); s.ftq.clear(); }
  if (mj >= 0) {
    s.fl.resize(mj + 1);
    uint64_t g = s.fl[mj].g;
    s.fl[mj].last = 1;
    while (s.ftq.back() != g) s.ftq.pop_back();
    s.buf.clear();
  }
  s.stale_flush = a.ev == 1;
  return true;
}
static uint64_t shash(const St &s) {
  uint64_t h = s.stale_flush;
  uint64_t base = s.ftq.empty() ? s.next : s.ftq[0];
  for (auto &e : s.buf) h = mc::mix(h, (e.g - base) * 64 + e.slot * 2 + e.last);
  h = mc::mix(h, 99);
  for (auto &e : s.fl) h = mc::mix(h, (e.g - base) * 4096 + e.idx * 64 + e.slot * 2 + e.last);
  return mc::mix(h, s.ftq.size() * 100 + s.next - base);
}
static void drain(St s) { // everything still held must come out, and the queues must be usable again
  size_t mark = hist.size();
  for (int n = 0; n < 200 && !bad && (s.buf.size() || s.fl.size() || s.stale_flush); ++n) {
    Act a{0, (uint8_t)expect_offered(s), (uint8_t)(s.fl.size() < COMMIT_WIDTH ? s.fl.size() : COMMIT_WIDTH), 0};
    hist.push_back(a); cycle(s, a, false);
  }
  for (int n = 0; n < FTQ_SIZE && !bad; ++n) { Act a{1, 0, 0, 0}; hist.push_back(a); cycle(s, a, false); }
  hist.resize(mark);
}
static std::vector<Act> alphabet(bool full) {
  std::vector<Act> v;
  std::vector<int> masks;
  if (full) for (int m = 0; m < (1 << FETCH_WIDTH); ++m) masks.push_back(m);
  else masks = {0, 1, 2, (1 << FETCH_WIDTH) - 1, (1 << FETCH_WIDTH) - 2};
  for (int m : masks) for (int t = 0; t <= DECODE_WIDTH; ++t) {
    if (!full && m > 1 && t == 1) continue;
    for (int r = 0; r <= COMMIT_WIDTH; ++r) for (int e = 0; e <= (r ? 1 : 4); ++e) {
      if (!full && e && m != 0 && m != 1) continue;
      v.push_back({(uint8_t)m, (uint8_t)t, (uint8_t)r, (uint8_t)e});
    }
  }
  return v;
}
static void dfs(const St &s, int depth, const std::vector<Act> &first, const std::vector<Act> &rest, bool drain_leaf) {
  if (depth == 0 || bad) { if (drain_leaf && !bad) drain(s); mc::trace(); return; }
  for (auto &a : first) {
    St c = s;
    hist.push_back(a);
    bool ap = cycle(c, a, depth == 1);
    if (ap) { mc::visit(shash(c)); if (!bad) dfs(c, depth - 1, rest, rest, drain_leaf); }
    hist.pop_back();
    bad = false;
  }
}
// brings the queues to: `off` entries already used up, `n` groups of mask `m` held, `c` instructions consumed
static bool make(St &s, int off, int n, int m, int c) {
  prelude = mc::fmt("offset %d, %d groups of mask %x, %d consumed", off, n, m, c);
  hist.clear(); bad = false;
  reset_io();
  s = St(); bind(s);
  s.q.init();
  for (int i = 0; i < off; ++i) {
    cycle(s, {(uint8_t)(1 + (i & 1) * 2), 0, 0, 0}, false);
    while (s.buf.size() && !bad) cycle(s, {0, (uint8_t)expect_offered(s), 0, 0}, false);
    while (s.fl.size() && !bad) cycle(s, {0, 0, (uint8_t)(s.fl.size() < COMMIT_WIDTH ? s.fl.size() : COMMIT_WIDTH), 0}, false);
  }
  int w = __builtin_popcount(m);
  int left = c;
  for (int i = 0; i < n; ++i) {
    while ((int)s.buf.size() + w > IDU_INST_BUFFER_SIZE && left > 0 && !bad) { int t = std::min(left, DECODE_WIDTH); cycle(s, {0, (uint8_t)t, 0, 0}, false); left -= t; }
    if ((int)s.buf.size() + w > IDU_INST_BUFFER_SIZE) return false;
    cycle(s, {(uint8_t)m, 0, 0, 0}, false);
    if (bad) return false;
  }
  while (left > 0 && s.buf.size() && !bad) { int t = std::min({left, DECODE_WIDTH, (int)s.buf.size()}); cycle(s, {0, (uint8_t)t, 0, 0}, false); left -= t; }
  return !bad && left == 0;
}
int main(int argc, char **argv) {
  bool quick = argc < 3 || !strcmp(argv[2], "quick");
  mc::init();
  auto full = alphabet(true), small = alphabet(false);
  // part 1: every start position and fill, all single cycles of the full alphabet followed by all of the small one
  struct Start { int off, n, m, c; };
  std::vector<Start> st;
  for (int off = 0; off < FTQ_SIZE; ++off) for (int n = 0; n <= FTQ_SIZE; ++n) for (int m : {1, (1 << FETCH_WIDTH) - 1, 6}) {
    int tot = n * __builtin_popcount(m);
    for (int c : {0, tot / 2, tot > 1 ? tot - 1 : -1, tot}) if (c >= 0 && (n || (m == 1 && c == 0))) {
      if (st.size() && st.back().off == off && st.back().n == n && st.back().m == m && st.back().c == c) continue;
      st.push_back({off, n, m, c});
    }
  }
  mc::parallel([&](int, int) {
    for (int64_t i; (i = mc::take(st.size())) >= 0;) {
      auto &x = st[i];
      mc::current("start %d %d %x %d", x.off, x.n, x.m, x.c);
      St s;
      if (!make(s, x.off, x.n, x.m, x.c)) { mc::count(0); continue; }
      mc::count(1);
      if (quick) { dfs(s, 1, full, full, true); hist.clear(); dfs(s, 2, small, small, false); }
      else { dfs(s, 2, full, small, true); }
    }
  });
  // part 2: all histories of the small alphabet from empty, near-full and wrapping queues
  std::vector<Start> s2 = {{0, 0, 1, 0}, {FTQ_SIZE - 1, FTQ_SIZE - 1, 1, FTQ_SIZE - 2}, {5, IDU_INST_BUFFER_SIZE / FETCH_WIDTH, (1 << FETCH_WIDTH) - 1, 2}, {FTQ_SIZE - 2, 3, 3, 5}};
  std::vector<Act> micro;
  for (auto &a : small) if ((a.mask == 0 || a.mask == 1 || a.mask == (1 << FETCH_WIDTH) - 1) && a.take != 1 && (a.ret != 1)) micro.push_back(a);
  mc::parallel([&](int, int) {
    for (int64_t i; (i = mc::take(s2.size() * micro.size())) >= 0;) {
      auto &x = s2[i / micro.size()];
      mc::current("deep %d %d %x %d first %d", x.off, x.n, x.m, x.c, (int)(i % micro.size()));
      St s;
      if (!make(s, x.off, x.n, x.m, x.c)) { mc::count(2); continue; }
      std::vector<Act> one{micro[i % micro.size()]};
      dfs(s, quick ? 5 : 6, one, micro, true);
    }
  });
  return mc::report({{"bounds", mc::fmt("start states: every queue offset, every fill, group shapes {1,%x,6}; all cycles of group mask x consumed x retired x {none, flush, mispredict oldest/middle/newest}", (1 << FETCH_WIDTH) - 1)}});
}
