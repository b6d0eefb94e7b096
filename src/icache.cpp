// P42: the instruction cache, its look-aside buffer and its lookup tables,
// driven through the calls the fetch unit makes, with a memory, a data cache and
// a page walker that delay and reorder. Executions are enumerated by replay: a
// base policy and every set of up to D departures from it.
#include "../front-end/front_IO.h"
#include "../front-end/front_module.h"
#include "AXI_Interconnect_IO.h"
#include "Csr.h"
#include "FrontTop.h"
#include "PtwWalkPort.h"
#include "mc.h"
#include <algorithm>
long long sim_time = 0;

void icache_peek_ready(struct icache_in *, struct icache_out *);
void icache_comb_calc(struct icache_in *, struct icache_out *);
void icache_set_context(SimContext *);

static constexpr uint32_t LINE = 64;
// ---- choices ----
struct Dev { int at, alt; };
static std::vector<Dev> devs;
static size_t devi;
static std::vector<uint8_t> points;
static std::vector<std::string> said;
static int pick(int n, const char *const *names) {
  int k = (int)points.size(), c = 0;
  points.push_back((uint8_t)n);
  if (devi < devs.size() && devs[devi].at == k) { c = devs[devi].alt; ++devi; if (c >= n) c = 0; }
  if (c) said.push_back(names[c]);
  return c;
}

// ---- the address space ----
enum { PA_, PB_, PF_, PU_, PALIAS, PCONF }; // virtual pages; PCONF+k: conflicting lines
static constexpr uint32_t VBASE = 0x40000000u, PBASE = 0x80004000u, SATP = 0x80000000u | 0x81000u;
struct Scen {
  std::string name;
  bool paged; int priv0;
  std::vector<uint32_t> pcs;
  int depth; bool events; int storm; // storm: redirect every n cycles
};
struct World {
  int tver, priv;               // page-table version
  uint32_t cur, mem, fence;     // content versions: newest, in memory, at the last FENCE.I
  bool paged;
};
static World w;
struct Map { bool ok; uint32_t pa; bool user; };
static Map leaf(uint32_t va, int ver) {
  int p = (int)((va - VBASE) >> 12);
  switch (p) {
  case PA_: return {true, PBASE + (ver ? 0x1000u : 0u), false};
  case PB_: return {true, PBASE + (ver ? 0u : 0x1000u), false};
  case PF_: return {ver == 1, PBASE + 0x2000u, false};
  case PU_: return {true, PBASE + 0x3000u, true};
  case PALIAS: return {true, PBASE, false};
  default: return {true, PBASE + 0x1000u * (uint32_t)p, false};
  }
}
static Map xlate(uint32_t va) {
  if (!w.paged || w.priv == 3) return {true, va, false};
  Map m = leaf(va, w.tver);
  if (!m.ok || m.user != (w.priv == 0)) return {false, 0, false};
  return {true, m.pa | (va & 0xfff), false};
}
static uint32_t word(uint32_t pa, uint32_t ver) { return (uint32_t)mc::mix(pa & ~3u, 0xabc + ver); }

// ---- environment ----
struct Rd { uint32_t addr; uint8_t id; int left; uint32_t data[16]; };
static std::vector<Rd> rq;
static bool rcur; static Rd rc;
static axi_interconnect::ReadMasterPort_t port;
static bool accepted; static uint8_t accepted_id;
static ICacheMemPortReq preq; static ICacheMemPortResp presp;
static struct { bool on; uint32_t addr; int left; } probe;
static const char *E_READY[] = {"", "read refused"};
static const char *E_LAT[] = {"", "read answered at once", "read takes 6", "read takes 23"};
static const char *E_ORD[] = {"", "second read first", "third read first", "fourth read first"};
static const char *E_PRB[] = {"", "probe takes 4", "probe takes 11"};
static const char *E_WALK[] = {"", "walk takes 4", "walk takes 13"};
static const char *E_WBUSY[] = {"", "walker busy"};
struct WPort : PtwWalkPort {
  bool on = false, taken = false, decided = false; int left = 0, block = 0; uint32_t va = 0; PtwWalkResp r{};
  bool send_walk_req(const PtwWalkReq &q) override {
    if (!free()) return false;
    on = true; va = q.vaddr; left = (int[]){1, 4, 13}[pick(3, E_WALK)]; decided = false;
    Map m = leaf(va, w.tver);
    r = PtwWalkResp{}; r.vaddr = va; r.fault = !m.ok; r.leaf_level = 0;
    r.leaf_pte = m.ok ? (m.pa >> 12) << 10 | (m.user ? 0x10u : 0u) | 0x4bu : 0u;
    return true;
  }
  bool free() const { return !on && !taken && !block; }
  bool resp_valid() const override { return on && left == 0; }
  PtwWalkResp resp() const override { return resp_valid() ? r : PtwWalkResp{}; }
  PtwWalkPortCombOut comb_output() const override {
    WPort *s = const_cast<WPort *>(this);
    if (free() && !decided) { s->decided = true; if (pick(2, E_WBUSY)) s->block = 4; }
    PtwWalkPortCombOut o{};
    o.req_ready = free(); o.resp_valid = resp_valid(); o.resp = resp();
    return o;
  }
  void consume_resp() override { on = false; taken = true; }
  void flush_client() override { on = false; }
  void tick() { taken = false; if (on && left) --left; if (block) --block; }
};
static WPort walk;

static const Scen *sc;
static bool bad;
static int cyc;
static std::string replay() {
  std::string s = sc->name;
  for (auto &d : devs) s += mc::fmt(" %d:%d", d.at, d.alt);
  return s;
}
static void fail(const char *key, const std::string &what) {
  if (bad) return;
  bad = true;
  std::string h;
  for (auto &s : said) h += (h.empty() ? "" : ", ") + s;
  mc::violation(std::string("P42:") + key, replay(), mc::fmt("cycle %d: ", cyc) + what + "; fetches " + sc->name + "; " + (h.empty() ? "no departures" : h));
}
static void env(bool) {
  // outputs of the interconnect, after the fetch unit has driven its inputs
  if (rcur && port.resp.valid && port.resp.ready) rcur = false;
  if (!rcur) {
    std::vector<int> can;
    for (int i = 0; i < (int)rq.size(); ++i) if (rq[i].left == 0) can.push_back(i);
    if (!can.empty()) {
      int c = can.size() > 1 ? pick((int)std::min<size_t>(can.size(), 4), E_ORD) : 0;
      rc = rq[can[c]]; rq.erase(rq.begin() + can[c]); rcur = true;
    }
  }
  port.resp.valid = rcur;
  if (rcur) { port.resp.id = rc.id; for (int i = 0; i < 16; ++i) port.resp.data[i] = rc.data[i]; }
  port.req.accepted = accepted; port.req.accepted_id = accepted_id;
  port.req.ready = !accepted && rq.size() < 16 && !(port.req.valid && pick(2, E_READY));
  accepted = false;
  // the data cache's answers; a newer probe replaces an older one
  presp = ICacheMemPortResp{};
  if (probe.on && !preq.req_valid && --probe.left <= 0) {
    probe.on = false;
    presp.resp_valid = true; presp.resp_miss = w.mem == w.cur; presp.resp_data = presp.resp_miss ? 0xdeadbeef : word(probe.addr, w.cur);
  }
  if (preq.req_valid) probe = {true, preq.req_addr, (int[]){1, 4, 11}[pick(3, E_PRB)]};
  // requests into the interconnect
  if (port.req.valid && port.req.ready) {
    Rd r; r.addr = port.req.addr; r.id = port.req.id;
    if (port.req.addr % LINE || port.req.total_size != LINE - 1) return fail("read-shape", mc::fmt("reads %u bytes at 0x%x", port.req.total_size + 1u, port.req.addr));
    for (auto &q : rq) if (q.id == r.id) return fail("read-id", mc::fmt("number %u is used by two reads at a time", r.id));
    if (rcur && rc.id == r.id) return fail("read-id", mc::fmt("number %u is used by two reads at a time", r.id));
    r.left = (int[]){2, 0, 6, 23}[sc->storm ? 3 : pick(4, E_LAT)];
    for (int i = 0; i < 16; ++i) r.data[i] = word(r.addr + 4 * i, w.mem);
    rq.push_back(r);
    accepted = true; accepted_id = r.id;
  }
}
static void env_seq() {
  for (auto &r : rq) if (r.left) --r.left;
  walk.tick();
}

// ---- one execution ----
static struct icache_in in; static struct icache_out out; static CsrStatusIO csr;
static const char *E_EV[] = {"", "redirect", "FENCE.I after a store that is in memory", "FENCE.I after a store held by the data cache",
                             "SFENCE after a table change", "front-end flush", "privilege change", "store", "write-back"};
static const char *E_REQ[] = {"", "fetch delayed"};
enum { NONE, RED, FENCE_M, FENCE_D, SFENCE, INVAL, PRIV, DSTORE, WB, NEV };
static bool live; static uint32_t lpc; static int lsince;
static bool done_ok(const struct icache_out &o) {
  if (!live) { fail("spurious", mc::fmt("a fetch of 0x%x completes that nobody waits for", (unsigned)o.fetch_pc)); return false; }
  if (o.fetch_pc != lpc) { fail("pc", mc::fmt("fetch of 0x%x completes as 0x%x", lpc, (unsigned)o.fetch_pc)); return false; }
  Map m = xlate(lpc);
  for (int i = 0; i < FETCH_WIDTH; ++i) {
    bool inl = (lpc % LINE) / 4 + i < LINE / 4;
    if ((bool)o.inst_valid[i] != inl) { fail("slots", mc::fmt("slot %d of the fetch of 0x%x is %s", i, lpc, inl ? "missing" : "valid beyond the line")); return false; }
    if (!inl) continue;
    if ((bool)o.page_fault_inst[i] != !m.ok) { fail("fault", mc::fmt("fetch of 0x%x slot %d: %s", lpc, i, m.ok ? "page fault on an accessible page" : "no page fault")); return false; }
    if (!m.ok) continue;
    bool ok = false;
    for (uint32_t v = w.fence; v <= w.cur; ++v) ok |= o.fetch_group[i] == word(m.pa + 4 * i, v);
    if (!ok) { fail("content", mc::fmt("fetch of 0x%x slot %d: 0x%08x is not what memory holds at 0x%x (since the last FENCE.I)", lpc, i, (unsigned)o.fetch_group[i], m.pa + 4 * i)); return false; }
  }
  live = false;
  mc::count(0);
  if (!m.ok) mc::count(1);
  return true;
}
static void set_csr() {
  memset(&csr, 0, sizeof csr);
  csr.privilege = w.priv; csr.satp = w.paged ? SATP : 0;
}
static void run_one(const Scen &s) {
  sc = &s; devi = 0; points.clear(); said.clear(); bad = false;
  w = {0, s.priv0, 0, 0, 0, s.paged};
  rq.clear(); rcur = false; port = {}; accepted = false; preq = {}; presp = {}; probe = {}; walk = WPort{};
  live = false; set_csr();
  memset(&in, 0, sizeof in); memset(&out, 0, sizeof out);
  in.reset = true; in.csr_status = &csr;
  icache_comb_calc(&in, &out);
  memset(&in, 0, sizeof in); in.csr_status = &csr;
  icache_comb_calc(&in, &out);
  port = {}; preq = {}; walk = WPort{};
  size_t next = 0; bool kill_next = false; int idle = 0, notready = 0;
  for (cyc = 0; !bad; ++cyc) {
    mc::trans();
    port.req.valid = false; port.resp.ready = false;
    bool over = next >= s.pcs.size() && !live;
    int ev = NONE;
    if (s.events && !over) {
      ev = pick(s.paged ? NEV : NEV, E_EV);
      if (!s.paged && (ev == SFENCE || ev == PRIV)) ev = RED;
    }
    if (s.storm && live && cyc - lsince == s.storm) ev = RED;
    bool refetch = kill_next || ev == RED || ev == FENCE_M || ev == FENCE_D || ev == SFENCE || ev == PRIV;
    bool inval = ev == INVAL && !refetch;
    kill_next = inval;
    if (ev == DSTORE || ev == FENCE_M || ev == FENCE_D) w.cur++;
    if (ev == WB || ev == FENCE_M) w.mem = w.cur;
    if (ev == FENCE_M || ev == FENCE_D) w.fence = w.cur;
    if (ev == SFENCE) w.tver ^= 1;
    if (ev == PRIV) w.priv ^= 1;
    set_csr();
    memset(&in, 0, sizeof in);
    in.csr_status = &csr; in.refetch = refetch; in.itlb_flush = ev == SFENCE; in.fence_i = ev == FENCE_M || ev == FENCE_D;
    if (refetch) live = false;
    icache_peek_ready(&in, &out);
    bool ready = out.icache_read_ready;
    if (ready && !refetch && next < s.pcs.size() && !pick(2, E_REQ)) {
      if (live) { fail("ready", mc::fmt("takes 0x%x while the fetch of 0x%x is not finished", s.pcs[next], lpc)); return; }
      in.icache_read_valid = true; in.fetch_address = s.pcs[next++];
      live = true; lpc = in.fetch_address; lsince = cyc;
    }
    icache_comb_calc(&in, &out);
    bool compl_ = out.icache_read_complete;
    uint64_t h = mc::mix(mc::hash_bytes(out.fetch_group, sizeof out.fetch_group), (uint64_t)compl_ | ready << 1 | live << 2 | refetch << 3 | port.req.valid << 4 | preq.req_valid << 5 | walk.on << 6 | (uint64_t)rq.size() << 8);
    h = mc::mix(mc::mix(h, lpc), (uint64_t)w.cur << 32 | w.mem << 16 | w.fence << 8 | w.tver << 4 | w.priv);
    h = mc::mix(mc::mix(h, port.req.addr), preq.req_addr); h = mc::mix(h, mc::hash_bytes(s.name.data(), s.name.size()));
    mc::visit(h);
    if (compl_ && !refetch && !done_ok(out)) return;
    if (inval) {
      struct icache_in i2; memset(&i2, 0, sizeof i2);
      i2.invalidate_req = true; i2.csr_status = &csr;
      icache_comb_calc(&i2, &out);
      live = false;
    }
    env(false);
    env_seq();
    if (bad) return;
    if (live && cyc - lsince > 500) { fail("stuck", mc::fmt("fetch of 0x%x never completes", lpc)); return; }
    notready = ready || refetch ? 0 : notready + 1;
    if (notready > 500) { fail("stuck", "no fetch is taken any more"); return; }
    if (over && rq.empty() && !rcur) { if (++idle > 3) break; }
    if (cyc > 3000) { fail("stuck", over ? "an answer is never taken" : "script not finished"); return; }
  }
}

static std::vector<Scen> scens;
static void build(const std::string &tier, bool lite) {
  auto va = [](int p, uint32_t o) { return VBASE + 0x1000u * p + o; };
  std::vector<std::pair<std::string, uint32_t>> al = {
      {"A", va(PA_, 0xc0)}, {"A+52", va(PA_, 0xc0 + 52)}, {"B", va(PB_, 0xc0)}, {"C", va(PA_, 0x104)},
      {"alias", va(PALIAS, 0xc8)}, {"fault", va(PF_, 0xc0)}, {"user", va(PU_, 0xc4)}};
  bool th = tier == "thorough";
  if (lite) al = {al[0], al[2], al[3], al[5]};
  int n = (int)al.size();
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int c = 0; c < n; ++c) {
    bool deep = (a == 0 && b == 2 && c == 0) || (a == 0 && b == 5 && c == 4);
    deep |= th && a <= 4 && b <= 5 && c != 1 && a != 1;
    deep |= a == 3 && b == 0 && c == 3;
    Scen s{al[a].first + " " + al[b].first + " " + al[c].first + " again", true, 1, {}, deep ? 2 : 1, true, 0};
    for (int k : {a, b, c, a, b}) s.pcs.push_back(al[k].second);
    scens.push_back(s);
  }
  for (int k = 0; k < 3; ++k) {
    Scen s{mc::fmt("physical %d", k), false, 3, {}, k == 0 || th ? 2 : 1, true, 0};
    static const std::vector<uint32_t> off[3] = {{0xc0, 0x10c0, 0xc0}, {0xfc, 0x100, 0xcc, 0xc0}, {0xc0, 0xc8, 0xf8}};
    for (uint32_t o : off[k]) s.pcs.push_back(PBASE + o);
    scens.push_back(s);
  }
  for (int k = 0; k < 4; ++k) { // more lines than ways in one set
    Scen s{mc::fmt("set overflow %d", k), k != 3, 1, {}, 1, true, 0};
    std::vector<int> o;
    for (int i = 0; i < 10 + k; ++i) o.push_back(i);
    for (int i = 0; i < 10; ++i) o.push_back(k == 1 ? 9 - i : (i * 3) % 10);
    for (int i : o) s.pcs.push_back(k == 3 ? PBASE + 0x1000u * i + 0xc0 : va(PCONF + i, 0xc0));
    if (k == 3) s.priv0 = 3;
    scens.push_back(s);
  }
  for (int k = 4; k < 32; ++k) { // addresses that differ in one bit
    uint32_t x = 0x9ab6c5c0u, y = x ^ 1u << k;
    scens.push_back({mc::fmt("address bit %d", k), false, 3, {x, y, x, y, x}, 1, false, 0});
  }
  for (int k = 2; k < 14; ++k) { // redirects while reads are on their way
    Scen s{mc::fmt("redirect every %d", k), false, 3, {}, 1, false, k};
    for (int i = 0; i < 40; ++i) s.pcs.push_back(PBASE + 0x40u * i);
    scens.push_back(s);
  }
}
static void explore(size_t from, int left) {
  run_one(*sc);
  mc::trace();
  if (bad || !left) return;
  auto pts = points;
  for (size_t i = from; i < pts.size(); ++i)
    for (int alt = 1; alt < pts[i]; ++alt) {
      devs.push_back({(int)i, alt});
      explore(i + 1, left - 1);
      devs.pop_back();
      mc::beat();
    }
}
int main(int argc, char **argv) {
  std::string tier = argc > 2 ? argv[2] : "quick";
  mc::init();
  bool lite = argc > 3 && !strcmp(argv[3], "lite");
  build(tier, lite);
  if (lite && tier != "thorough") for (auto &s : scens) s.depth = 1;
  static SimContext ctx;
  icache_set_context(&ctx);
  icache_ptw_walk_port = &walk; icache_mem_req_port = &preq; icache_mem_resp_port = &presp; icache_mem_read_port = &port;
  // the work: each scenario's base execution and a share of its first departures
  constexpr int SLICE = 32;
  std::stable_sort(scens.begin(), scens.end(), [](const Scen &a, const Scen &b) { return a.depth > b.depth; });
  mc::parallel([&](int, int) {
    for (int64_t j; (j = mc::take(scens.size() * SLICE)) >= 0;) {
      sc = &scens[j / SLICE];
      mc::current("%s", sc->name.c_str());
      devs.clear(); run_one(*sc);
      if (j % SLICE == 0) mc::trace();
      if (bad) continue;
      auto pts = points;
      int k = 0;
      for (size_t p = 0; p < pts.size(); ++p) for (int a = 1; a < pts[p]; ++a)
        if (k++ % SLICE == j % SLICE) {
          mc::current("%s, departure %zu:%d", sc->name.c_str(), p, a);
          devs = {{(int)p, a}}; explore(p + 1, sc->depth - 1);
        }
    }
  });
  return mc::report({{"bounds", mc::fmt("%zu fetch scripts, every set of one (deep scripts: two) departures from the base policy", scens.size())}});
}
