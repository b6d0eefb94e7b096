#pragma once
// Stand-in for the axi-interconnect-kit submodule (not present in the tree).
// It is the *environment* of the simulator: a memory fabric that accepts
// requests from the four masters and answers them.  Every point where a real
// fabric may vary (accept delay, response delay, response order) asks
// `kit_env::choose`, so a harness can enumerate those answers.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <vector>

namespace kit_env {
enum class Choice { READ_ACCEPT, READ_LATENCY, READ_ORDER, WRITE_ACCEPT, WRITE_LATENCY };
// returns 0..n-1; 0 is the default environment
extern unsigned (*choose)(Choice kind, int master, uint32_t addr, unsigned n);
// observer of fabric level traffic (may be null)
struct Event {
  enum Kind { READ_ACC, READ_RESP, WRITE_ACC, WRITE_RESP } kind;
  int master;
  uint32_t addr;
  uint32_t bytes;
  uint32_t id;
  uint64_t wstrb;
  const uint32_t *data;
};
extern void (*observe)(const Event &);
} // namespace kit_env

namespace axi_interconnect {
constexpr int MASTER_ICACHE = 0;
constexpr int MASTER_DCACHE_R = 1;
constexpr int MASTER_EXTRA_R = 2;
constexpr int NUM_READ_MASTERS = 3;
constexpr int MASTER_DCACHE_W = 0;
constexpr int MASTER_EXTRA_W = 1;
constexpr int NUM_WRITE_MASTERS = 2;
constexpr int CACHELINE_WORDS = 16;
constexpr uint32_t MAX_READ_TRANSACTION_BYTES = 256;
constexpr int MAX_READ_TRANSACTION_WORDS = 64;
constexpr uint32_t AXI_UPSTREAM_PAYLOAD_BYTES = 64;
constexpr uint32_t MAX_OUTSTANDING = 16;
constexpr uint32_t MAX_READ_OUTSTANDING_PER_MASTER = 16;

struct ReadData_t {
  uint32_t words[MAX_READ_TRANSACTION_WORDS] = {0};
  uint32_t &operator[](int i) { return words[i]; }
  const uint32_t &operator[](int i) const { return words[i]; }
};
struct WriteData_t {
  uint32_t words[CACHELINE_WORDS] = {0};
  void clear() { std::memset(words, 0, sizeof(words)); }
  uint32_t &operator[](int i) { return words[i]; }
  const uint32_t &operator[](int i) const { return words[i]; }
};
struct ReadMasterReq_t {
  bool valid = false;
  bool ready = false;
  bool accepted = false;
  uint8_t accepted_id = 0;
  uint32_t addr = 0;
  uint8_t total_size = 0;
  uint8_t id = 0;
  bool bypass = false;
};
struct ReadMasterResp_t {
  bool valid = false;
  bool ready = false;
  ReadData_t data{};
  uint8_t id = 0;
};
struct ReadMasterPort_t {
  ReadMasterReq_t req{};
  ReadMasterResp_t resp{};
};
struct WriteMasterReq_t {
  bool valid = false;
  bool ready = false;
  bool accepted = false;
  uint32_t addr = 0;
  uint8_t total_size = 0;
  uint8_t id = 0;
  bool bypass = false;
  WriteData_t wdata{};
  uint64_t wstrb = 0;
};
struct WriteMasterResp_t {
  bool valid = false;
  bool ready = false;
  uint8_t id = 0;
  uint8_t resp = 0;
};
struct WriteMasterPort_t {
  WriteMasterReq_t req{};
  WriteMasterResp_t resp{};
};
struct ReadReqHoldLatch {
  bool valid = false;
  uint32_t addr = 0;
};
struct AXI_LLCConfig {
  bool enable = false;
  uint64_t size_bytes = 0;
  uint32_t ways = 1;
  uint32_t mshr_num = 1;
  uint32_t lookup_latency = 1;
  uint32_t line_bytes = 64;
  bool valid() const { return set_count() != 0; }
  uint32_t set_count() const {
    return ways && line_bytes ? uint32_t(size_bytes / ways / line_bytes) : 0;
  }
};
constexpr uint32_t AXI_LLC_META_ENTRY_BYTES = 8;
constexpr uint32_t AXI_LLC_REPL_BYTES = 8;
struct AXI_LLC {
  static uint32_t valid_row_bytes(const AXI_LLCConfig &c) { return (c.ways + 7) / 8; }
};
struct AXI_LLC_Bytes_t {
  std::vector<uint8_t> bytes;
  size_t size() const { return bytes.size(); }
  uint8_t *data() { return bytes.data(); }
  const uint8_t *data() const { return bytes.data(); }
};
struct AXI_LLC_TableReq_t {
  bool enable = false;
  bool write = false;
  uint32_t index = 0;
  uint32_t way = 0;
  AXI_LLC_Bytes_t payload;
  std::vector<uint8_t> byte_enable;
};
struct AXI_LLC_TableOut_t {
  bool invalidate_all = false;
  AXI_LLC_TableReq_t data, meta, valid, repl;
};
struct AXI_LLC_LookupIn_t {
  bool data_valid = false, meta_valid = false, valid_valid = false, repl_valid = false;
  AXI_LLC_Bytes_t data, meta, valid, repl;
};
struct AXI_LLCPerfCounters_t {
  uint64_t read_access = 0, read_hit = 0, read_miss = 0, bypass_read = 0,
           write_passthrough = 0, refill = 0, mshr_merge = 0, prefetch_issue = 0,
           prefetch_hit = 0, prefetch_drop_inflight = 0, prefetch_drop_queue_full = 0,
           prefetch_drop_table_hit = 0, prefetch_drop_mshr_full = 0,
           ddr_read_total_cycles = 0, ddr_read_samples = 0, ddr_write_total_cycles = 0,
           ddr_write_samples = 0;
  uint64_t read_access_by_master[NUM_READ_MASTERS] = {};
  uint64_t read_hit_by_master[NUM_READ_MASTERS] = {};
  uint64_t read_miss_by_master[NUM_READ_MASTERS] = {};
};
} // namespace axi_interconnect

namespace sim_ddr {
constexpr uint32_t SIM_DDR_LATENCY = 2;
constexpr uint32_t SIM_DDR_WRITE_RESP_LATENCY = 1;
constexpr uint32_t SIM_DDR_BEAT_BYTES = 32;
constexpr uint32_t SIM_DDR_WRITE_QUEUE_DEPTH = 8;
constexpr uint32_t SIM_DDR_WRITE_ACCEPT_GAP = 0;
constexpr uint32_t SIM_DDR_WRITE_DATA_FIFO_DEPTH = 8;
constexpr uint32_t SIM_DDR_WRITE_DRAIN_GAP = 0;
constexpr uint32_t SIM_DDR_WRITE_DRAIN_HIGH_WATERMARK = 8;
constexpr uint32_t SIM_DDR_WRITE_DRAIN_LOW_WATERMARK = 0;
constexpr uint32_t SIM_DDR_READ_TO_WRITE_TURNAROUND = 0;
constexpr uint32_t SIM_DDR_WRITE_TO_READ_TURNAROUND = 0;
constexpr uint32_t SIM_DDR_MAX_OUTSTANDING = 16;
struct SimDDR_IO_t {
  struct { bool arready = false, arvalid = false; uint32_t arid = 0, araddr = 0, arlen = 0, arsize = 0, arburst = 0; } ar;
  struct { bool rvalid = false, rready = false, rlast = false; uint32_t rid = 0, rdata = 0, rresp = 0; } r;
  struct { bool awready = false, awvalid = false; uint32_t awid = 0, awaddr = 0, awlen = 0, awsize = 0, awburst = 0; } aw;
  struct { bool wready = false, wvalid = false, wlast = false; uint32_t wdata = 0, wstrb = 0; } w;
  struct { bool bvalid = false, bready = false; uint32_t bid = 0, bresp = 0; } b;
};
struct SimDDR {
  SimDDR_IO_t io;
  void init() {}
  void comb_outputs() {}
  void comb_inputs() {}
  void seq() {}
};
} // namespace sim_ddr

namespace mmio {
struct UART16550_Device {
  explicit UART16550_Device(uint32_t) {}
  template <class T> void sync_from_backing(T) {}
};
struct MMIO_Bus_AXI4 {
  sim_ddr::SimDDR_IO_t io;
  void init() {}
  void add_device(uint32_t, uint32_t, UART16550_Device *) {}
  void comb_outputs() {}
  void comb_inputs() {}
  void seq() {}
};
} // namespace mmio

namespace axi_interconnect {
// A fabric with a flat coherent memory behind it.  A write takes effect when it
// is accepted; a read returns the memory contents at the moment its response is
// first presented.
struct AXI_Interconnect {
  ReadMasterPort_t read_ports[NUM_READ_MASTERS];
  WriteMasterPort_t write_ports[NUM_WRITE_MASTERS];
  bool req_ready_r[NUM_READ_MASTERS] = {};
  bool req_drop_warned[NUM_READ_MASTERS] = {};
  ReadReqHoldLatch read_req_hold[NUM_READ_MASTERS];
  bool w_req_ready_r[NUM_WRITE_MASTERS] = {};
  bool read_req_accepted[NUM_READ_MASTERS] = {};
  uint8_t read_req_accepted_id[NUM_READ_MASTERS] = {};
  bool write_req_accepted[NUM_WRITE_MASTERS] = {};
  sim_ddr::SimDDR_IO_t axi_io, axi_ddr_io, axi_mmio_io;

  struct PendR { uint32_t addr, bytes; uint8_t id; unsigned left; };
  struct PendW { uint8_t id; unsigned left; };
  std::vector<PendR> rq[NUM_READ_MASTERS];
  std::vector<PendW> wq[NUM_WRITE_MASTERS];
  bool rcur_valid[NUM_READ_MASTERS] = {};
  ReadMasterResp_t rcur[NUM_READ_MASTERS];
  bool wcur_valid[NUM_WRITE_MASTERS] = {};
  uint8_t wcur_id[NUM_WRITE_MASTERS] = {};
  unsigned rblock[NUM_READ_MASTERS] = {};
  unsigned wblock[NUM_WRITE_MASTERS] = {};

  AXI_LLC_TableOut_t table_out;
  AXI_LLCPerfCounters_t perf;
  void set_llc_config(const AXI_LLCConfig &) {}
  void set_llc_lookup_in(const AXI_LLC_LookupIn_t &) {}
  const AXI_LLC_TableOut_t &get_llc_table_out() const { return table_out; }
  const AXI_LLCPerfCounters_t &get_llc_perf_counters() const { return perf; }
  void init();
  void comb_outputs();
  void comb_inputs();
  void seq();
};
struct AXI_Router_AXI4 {
  void init() {}
  template <class... A> void comb_outputs(A &&...) {}
  template <class... A> void comb_inputs(A &&...) {}
  template <class... A> void seq(A &&...) {}
};
} // namespace axi_interconnect
