// Driver of the whole-pipeline exploration (see e2e.h): owns the SimCpu, takes
// the place of the difftest callbacks to observe retirement, and runs cases.
#include "e2e.h"

long long sim_time = 0;
CPU_state dut_cpu;

namespace e2e {
const char *const kind_name[] = {"direction", "target", "width", "gap", "stall", "read-accept", "read-latency", "read-order", "write-accept", "write-latency"};
SimCpu cpu;
Machine g;
std::string prop;
Run run;
void (*on_start)() = nullptr;
void (*on_cycle)() = nullptr;
void (*on_end)() = nullptr;
void (*on_retire)() = nullptr;

static std::string describe() {
  std::string s = run.name + mc::fmt(" [pred%d w%d g%d r%d/%d a%d s%d t%ld]", run.c->pol.pred, run.c->pol.width, run.c->pol.gap, run.c->pol.rlat,
                                     run.c->pol.wlat, run.c->pol.acc, run.c->pol.stall, run.c->timer);
  for (auto &h : run.hist) s += mc::fmt(" @%u %s+%u", h.cyc, kind_name[h.kind], h.alt);
  return s;
}
void fail(const std::string &key, const std::string &what) {
  std::string d = describe();
  std::string t = what + "\n  execution: " + d + mc::fmt("\n  cycle %u, %u retired; last pcs:", run.cyc, run.retired);
  for (u32 p : run.pcs) t += mc::fmt(" %08x", p);
  mc::violation(prop + ":" + key, d.substr(0, 400), t);
  if (getenv("MC_VERBOSE")) fprintf(stderr, "FAIL %s %s\n", key.c_str(), t.c_str());
  _exit(0);
}
unsigned choose(Kind k, unsigned n, unsigned base) {
  if (!run.active || n < 2) return base;
  if (run.left <= 0 || !(run.c->kinds >> k & 1) || run.cyc < run.c->from || run.cyc > run.c->until) return base % n;
  for (unsigned a = 1; a < n; ++a) {
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      --run.left;
      run.hist.push_back({uint16_t(run.cyc), k, uint8_t(a)});
      return (base + a) % n;
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      auto h = run.hist;
      run.hist.push_back({uint16_t(run.cyc), k, uint8_t(a)});
      std::string d = describe();
      mc::violation(prop + ":simulator died", d.substr(0, 400), mc::fmt("the simulator stopped with status %x\n  execution: %s", st, d.c_str()));
      run.hist = h;
    }
  }
  return base % n;
}

static unsigned refuse_r, refuse_w; // every request is refused once
static unsigned kit_choose(kit_env::Choice k, int, u32, unsigned n) {
  switch (k) {
  case kit_env::Choice::READ_ACCEPT: return choose(K_RACC, n, run.c->pol.acc ? (refuse_r ^= 1) : 0);
  case kit_env::Choice::READ_LATENCY: return choose(K_RLAT, n, run.c->pol.rlat);
  case kit_env::Choice::READ_ORDER: return choose(K_RORD, n, 0);
  case kit_env::Choice::WRITE_ACCEPT: return choose(K_WACC, n, run.c->pol.acc ? (refuse_w ^= 1) : 0);
  case kit_env::Choice::WRITE_LATENCY: return choose(K_WLAT, n, run.c->pol.wlat);
  }
  return 0;
}

void setup() {
  pmem_init();
  cpu.init();
  kit_env::choose = kit_choose;
}

static void init_model(const Case &c) {
  g = Machine();
  for (int i = 0; i < 32; ++i) g.s.x[i] = c.x[i];
  for (int i = 0; i < golden::NCSR; ++i) g.s.csr[i] = c.csr[i];
  g.s.csr[golden::MISA] = 0x40141103u;
  g.s.csr[golden::SSTATUS] = g.s.csr[golden::MSTATUS] & golden::SSTATUS_M;
  g.s.csr[golden::SIE] = g.s.csr[golden::MIE] & golden::SIE_M;
  g.s.pc = c.pc;
  g.s.priv = c.priv;
  for (size_t i = 0; i < c.code.size(); ++i) g.mem.wr(CODE + 4 * i, c.code[i]);
  for (auto &d : c.data) g.mem.wr(d.first, d.second);
}
static void model_step() {
  g.step();
  if (g.e.unsupported && g.e.inst == 0) { // the illegal instruction of the programs
    g.e = golden::Effect();
    g.e.pc = g.s.pc;
    g.except(2, 0);
    g.e.unsupported = false;
  }
}

static void compare(bool with_store) {
  auto &d = dut_cpu;
  for (int i = 1; i < 32; ++i)
    if (d.gpr[i] != g.s.x[i])
      fail("register", mc::fmt("after pc %08x inst %08x: x%d is %08x, sequential execution gives %08x", g.e.pc, g.e.inst, i, d.gpr[i], g.s.x[i]));
  for (int i = 0; i < golden::NCSR; ++i) {
    u32 m = i == golden::MIP || i == golden::SIP ? ~0x888u & ~0x222u : ~0u;
    if ((d.csr[i] ^ g.s.csr[i]) & m)
      fail("csr", mc::fmt("after pc %08x inst %08x: csr %d is %08x, sequential execution gives %08x", g.e.pc, g.e.inst, i, d.csr[i], g.s.csr[i]));
  }
  if (d.pc != g.s.pc) fail("next pc", mc::fmt("after pc %08x inst %08x: next pc %08x, sequential execution gives %08x", g.e.pc, g.e.inst, d.pc, g.s.pc));
  if (with_store) {
    if (d.store != g.e.store)
      fail("store", mc::fmt("pc %08x inst %08x: %s", g.e.pc, g.e.inst, d.store ? "stores although it must not" : "does not store"));
    if (d.store && (d.store_addr != g.e.sraw_addr || ((d.store_data ^ g.e.sdata) & g.e.smask)))
      fail("store", mc::fmt("pc %08x inst %08x: stores %08x at %08x, sequential execution %08x at %08x", g.e.pc, g.e.inst, d.store_data, d.store_addr,
                            g.e.sdata, g.e.sraw_addr));
  }
}
static void retire(bool synced) {
  if (!run.active) return;
  run.last_retire = run.cyc;
  run.synced = synced;
  const bool irq = synced && cpu.back.rob->out.rob_bcast->interrupt;
  if (run.pcs.size() >= 8) run.pcs.erase(run.pcs.begin());
  run.pcs.push_back(dut_cpu.commit_pc);
  if (dut_cpu.commit_pc != g.s.pc)
    fail("retired pc", mc::fmt("retires pc %08x (inst %08x) where sequential execution is at %08x", dut_cpu.commit_pc, dut_cpu.instruction, g.s.pc));
  if (irq) {
    ++run.irqs;
    if (run.c->timer < 0 || (long)run.cyc < run.c->timer) fail("spurious interrupt", mc::fmt("interrupt taken at pc %08x but none was raised", g.s.pc));
    g.s.csr[golden::MIP] |= 0x80;
    auto q = g.pending_irq();
    if (!q.any) fail("masked interrupt", mc::fmt("interrupt taken at pc %08x although it is not enabled", g.s.pc));
    g.take_irq(q);
    g.s.csr[golden::MIP] &= ~0x80u;
    g.s.csr[golden::SIP] &= ~0x80u;
    compare(false);
  } else {
    ++run.retired;
    model_step();
    if (g.e.unsupported) fail("outside domain", mc::fmt("program left the modelled domain at %08x inst %08x", g.e.pc, g.e.inst));
    if (!g.e.pf_inst && dut_cpu.instruction != g.e.inst && g.e.inst)
      fail("instruction", mc::fmt("pc %08x retires instruction %08x, memory holds %08x", g.e.pc, dut_cpu.instruction, g.e.inst));
    if (dut_cpu.page_fault_inst != g.e.pf_inst || dut_cpu.page_fault_load != g.e.pf_load || dut_cpu.page_fault_store != g.e.pf_store)
      fail("fault", mc::fmt("pc %08x inst %08x: page faults (fetch,load,store) %d%d%d, sequential execution %d%d%d", g.e.pc, g.e.inst,
                            dut_cpu.page_fault_inst, dut_cpu.page_fault_load, dut_cpu.page_fault_store, g.e.pf_inst, g.e.pf_load, g.e.pf_store));
    compare(true);
  }
  if (on_retire) on_retire();
  if (run.retired > run.c->max_retired + 4 * run.c->idle_bound) fail("endless", "program does not reach its end");
}

static const Case *g_case;
void execute(const Case &c, const std::string &name) {
  mc::current("%s", name.c_str());
  fflush(stdout);
  pid_t p = fork();
  if (p) {
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st))
      mc::violation(prop + ":simulator died", name.substr(0, 400), mc::fmt("the simulator stopped with status %x\n  execution: %s", st, name.c_str()));
    return;
  }
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  g_case = &c;
  run.c = &c;
  run.name = name;
  run.left = c.budget;
  // the outcome every branch has when executed one instruction at a time
  init_model(c);
  for (u32 n = 0; n < c.max_retired && g.s.pc != c.end; ++n) {
    model_step();
    if (g.e.unsupported) break;
    if (g.e.is_br && !run.path.count(g.e.pc)) run.path[g.e.pc] = {g.e.taken, g.s.pc};
  }
  if (g.s.pc != c.end) { mc::count(0); _exit(0); } // not a program of the family: never ends
  init_model(c);
  for (size_t i = 0; i < c.code.size(); ++i) pmem_write(CODE + 4 * i, c.code[i]);
  for (auto &d : c.data) pmem_write(d.first, d.second);
  cpu.back.restore_from_ref();
  cpu.restore_pc(c.pc);
  sim_time = 1000;
  cpu.mem_subsystem.on_commit_store(OPENSBI_TIMERCMP_HIGH_ADDR, c.timer < 0 ? 0x7FFFFFFF : 0, 2);
  cpu.mem_subsystem.on_commit_store(OPENSBI_TIMERCMP_LOW_ADDR, c.timer < 0 ? 0 : u32(1000 + c.timer), 2);
  run.active = true;
  if (on_start) on_start();
  for (;;) {
    cpu.cycle();
    ++sim_time;
    ++run.cyc;
    mc::trans();
    if (on_cycle) on_cycle();
    if (cpu.ctx.exit_reason != ExitReason::NONE) fail("stopped", "the simulator ended the run although the program does not ask for it");
    if (g.s.pc == c.end && (c.timer < 0 || run.irqs)) break;
    if (c.timer >= 0 && !run.irqs && (long)run.cyc > c.timer + (long)c.idle_bound)
      fail("lost interrupt", mc::fmt("interrupt raised at cycle %ld is enabled but not taken after %u cycles", c.timer, c.idle_bound));
    if (run.cyc - run.last_retire > c.idle_bound)
      fail("no progress", mc::fmt("nothing retired for %u cycles; next in program order is pc %08x", c.idle_bound, g.s.pc));
  }
  for (u32 n = 0; n < c.drain; ++n) { cpu.cycle(); ++sim_time; ++run.cyc; } // committed stores reach memory
  if (on_end) on_end();
  mc::trace();
  mc::visit(mc::hash_bytes(run.hist.data(), run.hist.size() * sizeof(Choice), mc::hash_bytes(name.data(), name.size())));
  _exit(0);
}
} // namespace e2e

// ---- the difftest interface, observed instead of compared with the reference
void init_difftest(int) {}
void init_diff_ckpt(CPU_state, uint8_t) {}
void get_state(CPU_state &s, uint8_t &priv) {
  s = CPU_state{};
  for (int i = 0; i < 32; ++i) s.gpr[i] = e2e::g.s.x[i];
  for (int i = 0; i < golden::NCSR; ++i) s.csr[i] = e2e::g.s.csr[i];
  s.pc = e2e::g.s.pc;
  priv = e2e::g.s.priv;
}
void difftest_step(bool) { e2e::retire(false); }
void difftest_sync_from_dut(uint8_t priv) {
  e2e::run.sync_priv = priv;
  e2e::retire(true);
}
void difftest_sync_ram_range_from_dut(uint32_t, size_t) {}
bool difftest_ref_sim_end() { return false; }
bool difftest_ref_last_inst_is_wfi() { return false; }
void difftest_ref_set_uart_print(bool) {}
void difftest_ref_set_ref_only(bool) {}
void difftest_ref_set_device_effects(bool) {}
uint64_t difftest_get_oracle_timer() { return 0; }
void difftest_dump_memory_line(const char *, uint32_t) {}
