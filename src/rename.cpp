// P20: register renaming against an independent map/pool model.
#include "mc.h"
#include "Ren.h"
#include "types.h"
#include "util.h"
#include <deque>
#include <set>

long long sim_time = 0;
static int n_commit_calls;
void SimContext::run_commit_inst(InstEntry *, int) { ++n_commit_calls; }
void SimContext::run_difftest_inst(InstEntry *) {}

static SimContext ctx;
static DecRenIO d2r;
static DecBroadcastIO bc;
static DisRenIO dis;
static RobBroadcastIO rb;
static RobCommitIO rc;
static RenDecIO r2dec;
static RenDisIO r2dis;
constexpr int NA = ARF_NUM + 1;
constexpr int POOL = PRF_NUM - NA;

enum Kind : uint8_t { K_NONE, K_ND, K_D1, K_D2, K_B, K_J, K_T }; // no dest, rd=1, rd=2, branch, jump rd=1, temp register
struct In { uint8_t kind; uint8_t br; uint32_t tag, mask; };
struct Fl { uint8_t kind, br, resolved; int areg, preg, old; uint32_t mask; };
constexpr int K_W = 16, K_R = 64; // K_W+r writes register r; K_R+i reads registers 2i and 2i+1
static int dest_of(int k) { if (k >= K_W && k < K_R) return k - K_W; return k == K_D1 || k == K_J ? 1 : k == K_D2 ? 2 : k == K_T ? ARF_NUM : -1; }
static bool is_br(int k) { return k == K_B || k == K_J; }
static void srcs(int k, int &a, int &b) {
  if (k >= K_R) { a = 2 * (k - K_R); b = a + 1 < NA ? a + 1 : a; return; }
  if (k >= K_W) { a = k - K_W; b = 1; return; }
  switch (k) { case K_D1: a = 1; b = 2; break; case K_D2: a = 2; b = 1; break; case K_B: a = 1; b = 2; break; case K_T: a = ARF_NUM; b = 1; break; case K_ND: a = 2; b = ARF_NUM; break; default: a = 0; b = 0; }
}
struct Act { uint8_t k[DECODE_WIDTH]; uint8_t ready, ret, ev; }; // ev: 0 none, 1 resolve oldest, 2/3/4 mispredict oldest/newest/middle, 5.. flush kinds
enum { E_NONE, E_OK, E_MO, E_MN, E_MM, E_FL, E_EXC, E_PF, E_INT };
struct St {
  Ren r{&ctx};
  In pipe[DECODE_WIDTH];
  std::deque<Fl> fl;
  int arch[NA];
  uint32_t ids = 0; // branch ids in use
  uint32_t tag = 1;
};
static std::vector<Act> hist;
static std::string prelude;
static bool bad;
static const char *KN[] = {"-", "nd", "d1", "d2", "br", "jalr", "tmp"};
static const char *EN[] = {"", ",resolve", ",mispred-oldest", ",mispred-newest", ",mispred-mid", ",flush", ",exception", ",loadfault", ",interrupt"};
static std::string kn(int k) { return k >= K_R ? mc::fmt("read%d", k - K_R) : k >= K_W ? mc::fmt("w%d", k - K_W) : KN[k]; }
static std::string hs() {
  std::string s = prelude + " |";
  for (auto &a : hist) { s += " "; for (int i = 0; i < DECODE_WIDTH; ++i) s += std::string(i ? "+" : "") + kn(a.k[i]); s += mc::fmt("%s,r%d%s", a.ready ? "" : ",stall", a.ret, EN[a.ev]); }
  return s;
}
static void fail(const char *k, const std::string &t) {
  bad = true;
  mc::violation(mc::fmt("P20:%s", k), hs(), mc::fmt("history [%s]: %s: %s", hs().c_str(), k, t.c_str()));
}
static void bind(St &s) {
  s.r.in = {&d2r, &bc, &dis, &rb, &rc};
  s.r.out = {&r2dec, &r2dis};
}
static void spec_map(const St &s, int *m) {
  for (int i = 0; i < NA; ++i) m[i] = s.arch[i];
  for (auto &f : s.fl) if (f.areg >= 0) m[f.areg] = f.preg;
}
static int new_id(const St &s) { for (int i = 1; i < MAX_BR_NUM; ++i) if (!((s.ids >> i) & 1)) return i; return -1; }

static bool cycle(St &s, Act a) {
  // --- applicability
  bool flush = a.ev >= E_FL;
  if (a.ret > COMMIT_WIDTH || a.ret > s.fl.size()) return false;
  if (flush && a.ret != 1) return false;
  for (int i = 0; i < a.ret; ++i) if (is_br(s.fl[i].kind) && !s.fl[i].resolved) return false;
  std::vector<int> unres;
  for (size_t i = 0; i < s.fl.size(); ++i) if (is_br(s.fl[i].kind) && !s.fl[i].resolved) unres.push_back((int)i);
  int mi = -1, oki = -1;
  if (a.ev >= E_OK && a.ev <= E_MM) {
    if (unres.empty()) return false;
    if (a.ev == E_OK) oki = unres[0];
    else {
      if (a.ret) return false;
      int n = (int)unres.size();
      if (a.ev == E_MO) mi = unres[0];
      if (a.ev == E_MN) { if (n == 1) return false; mi = unres[n - 1]; }
      if (a.ev == E_MM) { if (n < 3) return false; mi = unres[n / 2]; }
    }
  }
  if (flush && a.ev != E_INT && is_br(s.fl[0].kind) && a.ev != E_EXC) return false;
  if ((a.ev == E_PF) && s.fl[0].areg < 0) return false;
  mc::trans();
  bind(s);
  // --- inputs
  In nin[DECODE_WIDTH];
  d2r = DecRenIO(); bc = DecBroadcastIO(); rb = RobBroadcastIO(); rc = RobCommitIO();
  uint32_t inuse = s.ids;
  for (int i = 0; i < DECODE_WIDTH; ++i) {
    nin[i] = {a.k[i], 0, s.tag + i, 0};
    if (a.k[i] == K_NONE) continue;
    uint32_t m = 0;
    for (int b = 1; b < MAX_BR_NUM; ++b) if ((inuse >> b) & 1) m |= 1u << b;
    auto &u = d2r.uop[i];
    d2r.valid[i] = true;
    int dr = dest_of(a.k[i]), s1, s2;
    srcs(a.k[i], s1, s2);
    u.dest_en = dr >= 0; u.dest_areg = dr >= 0 ? dr : 0; u.src1_areg = s1; u.src2_areg = s2; u.src1_en = s1 > 0; u.src2_en = s2 > 0;
    u.imm = nin[i].tag * 2654435761u; u.func3 = nin[i].tag & 7; u.func7 = (nin[i].tag >> 3) & 127; u.ftq_idx = nin[i].tag % FTQ_SIZE; u.ftq_offset = nin[i].tag % FETCH_WIDTH;
    u.ftq_is_last = (nin[i].tag >> 1) & 1; u.diag_val = ~u.imm; u.expect_mask = nin[i].tag & 1; u.csr_idx = nin[i].tag & 0xfff; u.illegal_inst = (nin[i].tag >> 2) & 1; u.src1_is_pc = (nin[i].tag >> 4) & 1; u.src2_is_imm = (nin[i].tag >> 3) & 1;
    u.is_atomic = (nin[i].tag >> 5) & 1;
    u.type = encode_inst_type(is_br(a.k[i]) ? (a.k[i] == K_J ? JALR : BR) : ADD);
    u.br_mask = m;
    if (is_br(a.k[i])) {
      int id = -1;
      for (int b = 1; b < MAX_BR_NUM; ++b) if (!((inuse >> b) & 1)) { id = b; break; }
      if (id < 0) return false;
      u.br_id = id; nin[i].br = id; inuse |= 1u << id;
    }
    nin[i].mask = m;
  }
  uint32_t clear = 0;
  if (oki >= 0) clear = 1u << s.fl[oki].br;
  if (mi >= 0) {
    clear = 1u << s.fl[mi].br;
    bc.mispred = true; bc.br_id = s.fl[mi].br; bc.br_mask = clear;
  }
  bc.clear_mask = clear;
  // retiring instructions may sit at any place of the commit line; the other
  // places show instructions that do not retire now
  const int sh = hist.size() % (COMMIT_WIDTH - a.ret + 1);
  for (auto &c : rc.commit_entry) { c.uop.dest_en = true; c.uop.dest_areg = 3; c.uop.dest_preg = 5; c.uop.old_dest_preg = 6; c.uop.type = encode_inst_type(ADD); }
  for (int i = 0; i < a.ret; ++i) {
    auto &c = rc.commit_entry[sh + i];
    auto &f = s.fl[i];
    c.valid = true;
    c.uop.dest_en = f.areg >= 0; c.uop.dest_areg = f.areg >= 0 ? f.areg : 0; c.uop.dest_preg = f.preg; c.uop.old_dest_preg = f.old;
    c.uop.type = encode_inst_type(is_br(f.kind) ? (f.kind == K_J ? JALR : BR) : ADD);
    if (a.ev == E_FL) c.uop.type = encode_inst_type(CSR);
    if (a.ev == E_EXC) c.uop.illegal_inst = true;
    if (a.ev == E_PF) { c.uop.type = encode_inst_type(LOAD); c.uop.page_fault_load = true; }
  }
  rb.flush = flush; rb.exception = a.ev >= E_EXC; rb.interrupt = a.ev == E_INT;
  dis.ready = a.ready;
  n_commit_calls = 0;
  // --- the cycle
  s.r.comb_begin();
  s.r.comb_alloc();
  s.r.comb_rename();
  bool fired[DECODE_WIDTH];
  int map[NA];
  spec_map(s, map);
  int freec = POOL;
  std::set<int> live(s.arch, s.arch + NA);
  for (auto &f : s.fl) if (f.areg >= 0) { --freec; live.insert(f.preg); }
  bool stall = false;
  std::vector<Fl> add;
  for (int i = 0; i < DECODE_WIDTH; ++i) {
    In &p = s.pipe[i];
    bool v = r2dis.valid[i];
    if (p.kind == K_NONE) { if (v) fail("invented", mc::fmt("slot %d", i)); fired[i] = false; continue; }
    int dr = dest_of(p.kind), s1, s2;
    srcs(p.kind, s1, s2);
    bool can = !stall && (dr < 0 || freec > 0);
    if (v && !can) fail("no-register", mc::fmt("slot %d renamed with %d registers free (older slot stalled: %d)", i, freec, stall));
    if (!v && can) fail("pool-lost", mc::fmt("slot %d not renamed although %d registers must be free", i, freec));
    if (!v) { stall = true; fired[i] = false; continue; }
    if (bad) return true;
    auto &u = r2dis.uop[i];
    if (u.src1_preg != map[s1] || u.src2_preg != map[s2])
      fail("source", mc::fmt("slot %d (%s): sources x%d,x%d renamed to p%d,p%d, newest writers are p%d,p%d", i, kn(p.kind).c_str(), s1, s2, (int)u.src1_preg, (int)u.src2_preg, map[s1], map[s2]));
    int preg = -1, old = -1;
    if ((bool)u.dest_en != (dr >= 0) || (dr >= 0 && u.dest_areg != dr)) fail("fields", mc::fmt("slot %d destination changed", i));
    if (dr >= 0) {
      preg = u.dest_preg; old = u.old_dest_preg;
      if (live.count(preg) || preg >= PRF_NUM) fail("alias", mc::fmt("slot %d (%s) got p%d which still holds a live value", i, kn(p.kind).c_str(), preg));
      if (old != map[dr]) fail("old-mapping", mc::fmt("slot %d: previous mapping of x%d reported as p%d, is p%d", i, dr, old, map[dr]));
      live.insert(preg); map[dr] = preg; --freec;
    }
    uint32_t im = p.tag * 2654435761u;
    if (u.imm != im || u.func3 != (p.tag & 7) || u.func7 != ((p.tag >> 3) & 127) || u.ftq_idx != p.tag % FTQ_SIZE || u.ftq_offset != p.tag % FETCH_WIDTH || u.ftq_is_last != ((p.tag >> 1) & 1) ||
        u.diag_val != (uint32_t)~im || u.expect_mask != (p.tag & 1) || u.csr_idx != (p.tag & 0xfff) || u.illegal_inst != ((p.tag >> 2) & 1) || u.src1_is_pc != ((p.tag >> 4) & 1) ||
        u.src2_is_imm != ((p.tag >> 3) & 1) || u.is_atomic != ((p.tag >> 5) & 1) || (is_br(p.kind) && u.br_id != p.br) || decode_inst_type(u.type) != (is_br(p.kind) ? (p.kind == K_J ? JALR : BR) : ADD))
      fail("fields", mc::fmt("slot %d: instruction fields changed in rename", i));
    if ((u.br_mask & ~clear) != (p.mask & ~clear)) fail("branch-mask", mc::fmt("slot %d: depends on branches %x, should be %x", i, (unsigned)u.br_mask, p.mask));
    if (bad) return true;
    fired[i] = a.ready;
    if (fired[i]) add.push_back({p.kind, p.br, 0, dr, preg, old, p.mask});
  }
  s.r.comb_fire();
  bool all = true;
  for (int i = 0; i < DECODE_WIDTH; ++i) all = all && (fired[i] || s.pipe[i].kind == K_NONE);
  bool want_ready = all && !flush && mi < 0;
  if ((bool)r2dec.ready != want_ready) fail("handshake", mc::fmt("ready to decode is %d, should be %d", (int)r2dec.ready, want_ready));
  if (n_commit_calls != a.ret) fail("commit-hook", mc::fmt("%d of %d retirements reported", n_commit_calls, a.ret));
  s.r.comb_pipeline();
  s.r.seq();
  if (bad) return true;
  // --- model step
  for (int i = 0; i < a.ret; ++i) {
    Fl f = s.fl.front();
    s.fl.pop_front();
    if (f.areg >= 0 && a.ev < E_EXC) s.arch[f.areg] = f.preg;
  }
  // indices below were taken before the pops; retirement never coincides with a recovery
  if (oki >= 0) { auto &f = s.fl[oki - a.ret]; f.resolved = 1; s.ids &= ~clear; }
  if (flush) {
    s.fl.clear(); s.ids = 0;
    for (auto &p : s.pipe) p.kind = K_NONE;
  } else if (mi >= 0) {
    s.fl.resize(mi + 1);
    s.fl[mi].resolved = 1;
    s.ids = 0;
    for (auto &f : s.fl) if (is_br(f.kind) && !f.resolved) s.ids |= 1u << f.br;
    for (auto &p : s.pipe) p.kind = K_NONE;
  } else {
    for (auto &f : add) s.fl.push_back(f);
    for (int i = 0; i < DECODE_WIDTH; ++i) {
      if (want_ready) { s.pipe[i] = nin[i]; if (nin[i].kind != K_NONE && is_br(nin[i].kind)) s.ids |= 1u << nin[i].br; }
      else if (fired[i]) s.pipe[i].kind = K_NONE;
      s.pipe[i].mask &= ~clear;
    }
    if (want_ready) s.tag += DECODE_WIDTH;
  }
  return true;
}
static uint64_t shash(const St &s) {
  uint64_t h = s.ids;
  for (int i = 0; i < NA; ++i) h = mc::mix(h, s.arch[i]);
  for (auto &f : s.fl) h = mc::mix(h, f.kind * 64 + f.br + f.resolved * 8192 + f.preg * 65536);
  for (auto &p : s.pipe) h = mc::mix(h, p.kind * 32 + p.br);
  return h;
}
static std::vector<Act> alphabet(int lvl) {
  std::vector<Act> v;
  std::vector<std::vector<int>> pairs;
  std::vector<int> ks;
  if (lvl == 2) ks = {K_NONE, K_ND, K_D1, K_D2, K_B, K_J, K_T}; else if (lvl == 1) ks = {K_NONE, K_D1, K_D2, K_J}; else ks = {K_NONE, K_D1, K_J};
  int n = 1;
  for (int i = 0; i < 2 && i < DECODE_WIDTH; ++i) n *= (int)ks.size();
  for (int c = 0; c < n; ++c) {
    Act a{}; int x = c;
    for (int i = 0; i < 2 && i < DECODE_WIDTH; ++i) { a.k[i] = ks[x % ks.size()]; x /= ks.size(); }
    if (lvl == 0 && a.k[0] == K_NONE && a.k[1] != K_NONE) continue;
    for (int rdy = 0; rdy < 2; ++rdy) for (int ret = 0; ret <= COMMIT_WIDTH; ++ret) for (int ev = 0; ev <= E_INT; ++ev) {
      if (ev >= E_FL && ret != 1) continue;
      if (ev >= E_MO && ev <= E_MM && ret) continue;
      if (!rdy && (lvl == 0 || (lvl == 1 && (ret || ev)))) continue;
      if (lvl < 2 && ev && c > 1 && lvl == 0) continue;
      if (lvl == 0 && (ret == 1 && ev == 0)) continue;
      if (lvl == 0 && (ev == E_MM || ev == E_PF)) continue;
      a.ready = rdy; a.ret = ret; a.ev = ev;
      v.push_back(a);
    }
  }
  return v;
}
static Act act(int k0, int k1, int rdy, int ret, int ev) { Act a{}; a.k[0] = k0; if (DECODE_WIDTH > 1) a.k[1] = k1; a.ready = rdy; a.ret = ret; a.ev = ev; return a; }
static void probe(St s) { // the whole mapping is as at the recovery point
  size_t mark = hist.size();
  for (int i = 0; i <= (NA + 1) / 2 && !bad; i += DECODE_WIDTH) {
    Act a{};
    for (int k = 0; k < DECODE_WIDTH; ++k) a.k[k] = i + k < (NA + 1) / 2 ? K_R + i + k : K_NONE;
    a.ready = 1;
    hist.push_back(a); cycle(s, a);
  }
  Act z{}; z.ready = 1;
  if (!bad) { hist.push_back(z); cycle(s, z); }
  hist.resize(mark);
}
static void drain(St s) { // every register that must be free can be had once, and none that is in use
  size_t mark = hist.size();
  for (int i = 0; i <= POOL + 6 && !bad; i += 2) {
    Act a = act(K_W + 1 + i % (ARF_NUM - 1), K_W + 1 + (i + 1) % (ARF_NUM - 1), 1, 0, 0);
    hist.push_back(a); cycle(s, a);
  }
  hist.resize(mark);
}
static void dfs(const St &s, int depth, const std::vector<Act> &first, const std::vector<Act> &rest) {
  if (depth == 0) { mc::trace(); return; }
  for (auto &a : first) {
    St c = s;
    hist.push_back(a);
    if (cycle(c, a)) { mc::visit(shash(c)); if (!bad) dfs(c, depth - 1, rest, rest); if (!bad && depth == 1 && a.ev >= E_MO) probe(c); }
    hist.pop_back();
    bad = false;
  }
}
// off registers cycled through the pool, then n destinations in flight with a branch after every `every`-th
static bool make(St &s, int off, int n, int every) {
  prelude = mc::fmt("%d registers cycled, %d in flight, branch every %d", off, n, every);
  hist.clear(); bad = false;
  s = St(); bind(s);
  for (auto &p : s.pipe) p = {K_NONE, 0, 0, 0};
  for (int i = 0; i < NA; ++i) s.arch[i] = -1;
  s.r.init();
  // the initial architectural mapping is whatever the unit uses: read it off by renaming sources
  for (int i = 0; i < NA; ++i) {
    d2r = DecRenIO(); bc = DecBroadcastIO(); rb = RobBroadcastIO(); rc = RobCommitIO(); dis.ready = true;
    d2r.valid[0] = true; d2r.uop[0].src1_areg = i; d2r.uop[0].type = encode_inst_type(ADD);
    for (int c = 0; c < 2; ++c) {
      s.r.comb_begin(); s.r.comb_alloc(); s.r.comb_rename();
      if (c == 1) s.arch[i] = r2dis.uop[0].src1_preg;
      s.r.comb_fire(); s.r.comb_pipeline(); s.r.seq();
      d2r.valid[0] = false;
    }
  }
  std::set<int> d(s.arch, s.arch + NA);
  if ((int)d.size() != NA) { fail("alias", "two registers share a physical register after reset"); return false; }
  for (int i = 0; i < off && !bad; ++i) {
    cycle(s, act(K_W + 1 + i % ARF_NUM, K_NONE, 1, 0, 0));
    cycle(s, act(K_NONE, K_NONE, 1, 0, 0));
    cycle(s, act(K_NONE, K_NONE, 1, 1, 0));
  }
  int nb = 0;
  for (int i = 0; i < n && !bad; ++i) {
    bool b = every && i % every == 0 && nb < MAX_BR_NUM - 4;
    nb += b;
    cycle(s, act(b ? K_J : i % 4 == 3 ? K_D1 : K_W + 1 + i % ARF_NUM, K_NONE, 1, 0, 0));
  }
  if (!bad) cycle(s, act(K_NONE, K_NONE, 1, 0, 0));
  return !bad;
}
int main(int argc, char **argv) {
  bool quick = argc < 3 || !strcmp(argv[2], "quick");
  mc::init();
  auto full = alphabet(2), mid = alphabet(1), small = alphabet(0);
  struct Start { int off, n, every; };
  std::vector<Start> st;
  for (int off = 0; off < PRF_NUM; ++off) for (int n : {0, 1, 2, POOL / 2, POOL - 2, POOL - 1, POOL}) for (int e : {0, 1, 3}) {
    if (quick && off % 4 && off != PRF_NUM - 1 && off != POOL && off != POOL - 1 && off != POOL + 1) continue;
    if (n == 0 && e) continue;
    st.push_back({off, n, e});
  }
  mc::parallel([&](int, int) {
    for (int64_t i; (i = mc::take(st.size())) >= 0;) {
      auto &x = st[i];
      mc::current("%d cycled %d in flight branch every %d", x.off, x.n, x.every);
      St s;
      if (!make(s, x.off, x.n, x.every)) { mc::count(0); continue; }
      mc::count(1);
      dfs(s, 2, full, mid);
      if (!quick && x.off % 16 == 0) dfs(s, 3, mid, mid);
    }
  });
  std::vector<Start> s2 = {{0, 0, 0}, {PRF_NUM - 1, POOL - 1, 3}, {POOL, 4, 1}, {5, POOL - 3, 1}};
  mc::parallel([&](int, int) {
    for (int64_t i; (i = mc::take(s2.size() * small.size() * small.size())) >= 0;) {
      auto &x = s2[i / (small.size() * small.size())];
      int f = (int)(i % (small.size() * small.size()));
      mc::current("deep: %d cycled %d in flight branch every %d, first %d", x.off, x.n, x.every, f);
      St s;
      if (!make(s, x.off, x.n, x.every)) { mc::count(0); continue; }
      hist.push_back(small[f / small.size()]);
      if (!cycle(s, small[f / small.size()]) || bad) continue;
      std::vector<Act> one{small[f % small.size()]};
      dfs(s, quick ? 4 : 5, one, small);
    }
  });
  // recovery: every pair of renamed groups, stalls, retirements in between, then every recovery event and a look at the whole mapping
  const uint8_t ks[] = {K_NONE, K_ND, K_D1, K_D2, K_B, K_J, K_T};
  const int nk = 7, np = nk * nk;
  std::vector<Start> s3 = {{0, 0, 0}, {PRF_NUM - 1, POOL - 4, 3}, {POOL, 4, 1}, {5, POOL - 2, 1}};
  if (!quick) for (int off : {1, POOL - 2, PRF_NUM / 2}) for (int n : {1, POOL / 2, POOL - 1}) s3.push_back({off, n, n % 2 + 1});
  mc::parallel([&](int, int) {
    for (int64_t i; (i = mc::take(s3.size() * np)) >= 0;) {
      auto &x = s3[i / np];
      int g1 = (int)(i % np);
      mc::current("recovery: %d cycled %d in flight branch every %d, first %d", x.off, x.n, x.every, g1);
      St s;
      if (!make(s, x.off, x.n, x.every)) { mc::count(0); continue; }
      Act a1 = act(ks[g1 % nk], ks[g1 / nk], 1, 0, 0);
      hist.push_back(a1);
      if (!cycle(s, a1) || bad) { bad = false; continue; }
      for (int g2 = 0; g2 < np; ++g2) for (int v = 0; v < 12; ++v) {
        St c = s;
        hist.resize(1);
        Act q[3] = {act(ks[g2 % nk], ks[g2 / nk], v & 1, 0, 0), act(K_NONE, K_NONE, v >> 1 & 1, v / 4, 0), act(K_NONE, K_NONE, 1, v / 4, 0)};
        for (int t = 0; t < 3 && !bad; ++t) {
          hist.push_back(q[t]);
          if (!cycle(c, q[t])) break;
          if (bad) break;
          mc::visit(shash(c));
          for (int ev = E_MO; ev <= E_INT; ++ev) {
            St e = c;
            Act z = act(ks[g2 % nk], K_NONE, 1, ev >= E_FL, ev);
            hist.push_back(z);
            if (cycle(e, z) && !bad) { probe(e); if (!bad && (v == 3 || v == 7) && t != 1) drain(e); mc::trace(); }
            hist.pop_back();
            bad = false;
          }
        }
        bad = false;
        mc::beat();
      }
    }
  });
  return mc::report({{"bounds", mc::fmt("alphabets %zu/%zu/%zu cycle actions; recovery after every two groups", full.size(), mid.size(), small.size())}});
}
