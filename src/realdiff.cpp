#define init_difftest real_init_difftest
#define init_diff_ckpt real_init_diff_ckpt
#define get_state real_get_state
#define difftest_step real_difftest_step
#define difftest_sync_from_dut real_difftest_sync_from_dut
#define difftest_sync_ram_range_from_dut real_difftest_sync_ram_range_from_dut
#define difftest_ref_sim_end real_difftest_ref_sim_end
#define difftest_ref_last_inst_is_wfi real_difftest_ref_last_inst_is_wfi
#define difftest_ref_set_uart_print real_difftest_ref_set_uart_print
#define difftest_ref_set_ref_only real_difftest_ref_set_ref_only
#define difftest_ref_set_device_effects real_difftest_ref_set_device_effects
#define difftest_get_oracle_timer real_difftest_get_oracle_timer
#define difftest_dump_memory_line real_difftest_dump_memory_line
#include "../diff/diff.cpp"
