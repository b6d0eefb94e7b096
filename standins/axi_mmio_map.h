#pragma once
#include <cstdint>
#ifndef MMIO_RANGE_BASE
#define MMIO_RANGE_BASE 0x10000000u
#endif
