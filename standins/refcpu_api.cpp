#include "refcpu_api.h"
#include "Csr.h"
#include "RISCV.h"
#include "ref.h"
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>

extern long long sim_time;

struct RefCpuContext {
  RefCpu cpu{};
};

RefCpuContext *refcpu_init(uint32_t reset_pc, uint32_t) {
  auto *c = new RefCpuContext();
  c->cpu.init(reset_pc);
  // all zero: give the pages back, processes are forked from here
  const uintptr_t a = (reinterpret_cast<uintptr_t>(c->cpu.memory) + 4095) & ~uintptr_t(4095);
  madvise(reinterpret_cast<void *>(a), 0x3FFF0000u, MADV_DONTNEED);
  return c;
}
void refcpu_destroy(RefCpuContext *c) {
  if (c) {
    free(c->cpu.memory);
    delete c;
  }
}
void refcpu_step(RefCpuContext *c, uint64_t n) {
  for (uint64_t i = 0; i < n; ++i) c->cpu.exec();
}
#define COPY_FIELDS(d, s)                                                      \
  do {                                                                         \
    (d).pc = (s).pc;                                                           \
    (d).store_addr = (s).store_addr;                                           \
    (d).store_data = (s).store_data;                                           \
    (d).store_strb = (s).store_strb;                                           \
    (d).store = (s).store;                                                     \
    (d).instruction = (s).instruction;                                         \
    (d).page_fault_inst = (s).page_fault_inst;                                 \
    (d).page_fault_load = (s).page_fault_load;                                 \
    (d).page_fault_store = (s).page_fault_store;                               \
    (d).inst_idx = (s).inst_idx;                                               \
    (d).commit_pc = (s).commit_pc;                                             \
    (d).reserve_valid = (s).reserve_valid;                                     \
    (d).reserve_addr = (s).reserve_addr;                                       \
    for (int i_ = 0; i_ < 32; ++i_) (d).gpr[i_] = (s).gpr[i_];                 \
    for (int i_ = 0; i_ < 21; ++i_) (d).csr[i_] = (s).csr[i_];                 \
  } while (0)
void refcpu_get_state(RefCpuContext *c, RefCpuState *s) {
  COPY_FIELDS(*s, c->cpu.state);
  s->privilege = c->cpu.privilege;
  s->instruction = c->cpu.Instruction;
  s->page_fault_inst = c->cpu.page_fault_inst;
  s->page_fault_load = c->cpu.page_fault_load;
  s->page_fault_store = c->cpu.page_fault_store;
}
void refcpu_set_state(RefCpuContext *c, const RefCpuState *s) {
  COPY_FIELDS(c->cpu.state, *s);
  c->cpu.privilege = s->privilege;
}
void refcpu_get_step_info(RefCpuContext *c, RefCpuStepInfo *i) {
  i->instruction = c->cpu.Instruction;
  i->page_fault_inst = c->cpu.page_fault_inst;
  i->page_fault_load = c->cpu.page_fault_load;
  i->page_fault_store = c->cpu.page_fault_store;
  i->sim_end = c->cpu.sim_end;
  i->is_exception = c->cpu.is_exception;
  i->is_csr = c->cpu.is_csr;
  i->is_io = c->cpu.is_mmio_load || c->cpu.is_mmio_store;
  i->is_br = c->cpu.is_br;
  i->br_taken = c->cpu.br_taken;
}
void refcpu_set_sim_time(RefCpuContext *, uint64_t) {}
void refcpu_set_dut_expected_faults(RefCpuContext *c, bool a, bool b, bool d) {
  c->cpu.dut_expect_pf_inst = a;
  c->cpu.dut_expect_pf_load = b;
  c->cpu.dut_expect_pf_store = d;
}
// Without device effects the timer never makes the reference interrupt by
// itself: interrupts come from the core under test. Done with the
// interpreter's own instructions, as the comparator is a register of its timer.
void refcpu_set_device_effects(RefCpuContext *c, bool on) {
  if (on) return;
  RefCpu &r = c->cpu;
  const CPU_state keep = r.state;
  const uint8_t priv = r.privilege;
  const uint32_t word = r.memory[0];
  r.privilege = 3;
  r.state.csr[csr_mie] = 0;
  r.memory[0] = 0x0020A023u; // sw x2, 0(x1)
  r.state.gpr[2] = ~0u;
  for (uint32_t a : {OPENSBI_TIMERCMP_HIGH_ADDR, OPENSBI_TIMERCMP_LOW_ADDR}) {
    r.state.gpr[1] = a;
    r.state.pc = 0x80000000u;
    r.exec();
  }
  r.memory[0] = word;
  r.state = keep;
  r.privilege = priv;
}
void refcpu_set_uart_print(RefCpuContext *c, bool v) { c->cpu.uart_print = v; }
void refcpu_set_ref_only(RefCpuContext *c, bool v) { c->cpu.ref_only = v; }
void refcpu_set_sim_end(RefCpuContext *c, bool v) { c->cpu.sim_end = v; }
void refcpu_sync_ram_from_dut(RefCpuContext *c, const uint32_t *p, size_t n) {
  std::memcpy(c->cpu.memory, p, n);
}
void refcpu_sync_ram_range_from_dut(RefCpuContext *c, uint32_t a, const void *p, size_t n) {
  std::memcpy(reinterpret_cast<char *>(c->cpu.memory) + (a - 0x80000000u), p, n);
}
uint32_t *refcpu_get_ram_ptr(RefCpuContext *c) { return c->cpu.memory; }
uint32_t refcpu_load_word(RefCpuContext *c, uint32_t a) { return c->cpu.load_word(a); }
void refcpu_set_io_word(RefCpuContext *c, uint32_t a, uint32_t v) { c->cpu.io_words[a & ~3u] = v; }
uint32_t refcpu_get_io_word(RefCpuContext *c, uint32_t a) {
  auto it = c->cpu.io_words.find(a & ~3u);
  return it == c->cpu.io_words.end() ? 0 : it->second;
}
void refcpu_clear_io_words(RefCpuContext *c) { c->cpu.io_words.clear(); }
bool refcpu_probe_pc_translation(RefCpuContext *c) {
  uint32_t pa = 0;
  if ((c->cpu.state.csr[csr_satp] & 0x80000000u) && c->cpu.privilege != 3)
    return c->cpu.va2pa(pa, c->cpu.state.pc, 0);
  return true;
}
