#pragma once
// The repository's lock-step comparison, next to the observing one the
// whole-pipeline harness installs under the original names.
#include <cstddef>
#include <cstdint>
void real_init_difftest(int);
void real_difftest_step(bool);
void real_difftest_sync_from_dut(uint8_t);
void real_difftest_sync_ram_range_from_dut(uint32_t, size_t);
