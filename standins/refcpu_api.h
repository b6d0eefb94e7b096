#pragma once
// Stand-in for the GenSimpoint reference-model library (not present in the
// tree): a thin C interface around the repository's own RefCpu.
#include <cstddef>
#include <cstdint>
struct RefCpuContext;
struct RefCpuState {
  uint32_t gpr[32];
  uint32_t csr[21];
  uint32_t pc;
  uint32_t store_addr, store_data, store_strb;
  bool store;
  uint32_t instruction;
  bool page_fault_inst, page_fault_load, page_fault_store;
  uint32_t inst_idx, commit_pc;
  bool reserve_valid;
  uint32_t reserve_addr;
  uint8_t privilege;
};
struct RefCpuStepInfo {
  uint32_t instruction;
  bool page_fault_inst, page_fault_load, page_fault_store;
  bool sim_end, is_exception, is_csr, is_io, is_br, br_taken;
};
RefCpuContext *refcpu_init(uint32_t reset_pc, uint32_t ram_size);
void refcpu_destroy(RefCpuContext *);
void refcpu_step(RefCpuContext *, uint64_t n);
void refcpu_get_state(RefCpuContext *, RefCpuState *);
void refcpu_set_state(RefCpuContext *, const RefCpuState *);
void refcpu_get_step_info(RefCpuContext *, RefCpuStepInfo *);
void refcpu_set_sim_time(RefCpuContext *, uint64_t);
void refcpu_set_dut_expected_faults(RefCpuContext *, bool, bool, bool);
void refcpu_set_device_effects(RefCpuContext *, bool);
void refcpu_set_uart_print(RefCpuContext *, bool);
void refcpu_set_ref_only(RefCpuContext *, bool);
void refcpu_set_sim_end(RefCpuContext *, bool);
void refcpu_sync_ram_from_dut(RefCpuContext *, const uint32_t *, size_t);
void refcpu_sync_ram_range_from_dut(RefCpuContext *, uint32_t paddr, const void *, size_t);
uint32_t *refcpu_get_ram_ptr(RefCpuContext *);
uint32_t refcpu_load_word(RefCpuContext *, uint32_t);
void refcpu_set_io_word(RefCpuContext *, uint32_t, uint32_t);
uint32_t refcpu_get_io_word(RefCpuContext *, uint32_t);
void refcpu_clear_io_words(RefCpuContext *);
bool refcpu_probe_pc_translation(RefCpuContext *);
