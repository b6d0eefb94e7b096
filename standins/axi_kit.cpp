#include "axi_kit.h"
#include "PhysMemory.h"

namespace kit_env {
unsigned (*choose)(Choice, int, uint32_t, unsigned) = nullptr;
void (*observe)(const Event &) = nullptr;
static unsigned pick(Choice k, int m, uint32_t a, unsigned n) {
  return choose ? choose(k, m, a, n) : 0;
}
} // namespace kit_env

namespace axi_interconnect {
using namespace kit_env;
// data lanes are relative to the (byte) address of the request
static uint32_t read_at(uint32_t a) {
  const unsigned sh = 8 * (a & 3);
  uint32_t v = pmem_read(a & ~3u) >> sh;
  if (sh) v |= pmem_read((a & ~3u) + 4) << (32 - sh);
  return v;
}
static void write_at(uint32_t a, uint32_t v, uint32_t strb) {
  for (unsigned b = 0; b < 4; ++b) {
    if (!(strb & (1u << b))) continue;
    const uint32_t w = (a + b) & ~3u, sh = 8 * ((a + b) & 3);
    pmem_write(w, (pmem_read(w) & ~(0xFFu << sh)) | (((v >> (8 * b)) & 0xFF) << sh));
  }
}
void AXI_Interconnect::init() { *this = AXI_Interconnect(); }

void AXI_Interconnect::comb_outputs() {
  for (int m = 0; m < NUM_READ_MASTERS; ++m) {
    auto &p = read_ports[m];
    if (rcur_valid[m] && p.resp.valid && p.resp.ready) {
      rcur_valid[m] = false;
      p.resp.ready = false;
    }
    if (!rcur_valid[m]) {
      // candidates whose latency elapsed
      std::vector<size_t> cand;
      for (size_t i = 0; i < rq[m].size(); ++i)
        if (rq[m][i].left == 0) cand.push_back(i);
      if (!cand.empty()) {
        unsigned c = cand.size() > 1 ? pick(Choice::READ_ORDER, m, 0, cand.size()) : 0;
        PendR r = rq[m][cand[c]];
        rq[m].erase(rq[m].begin() + cand[c]);
        rcur_valid[m] = true;
        rcur[m].id = r.id;
        for (uint32_t w = 0; w * 4 < r.bytes; ++w)
          rcur[m].data[w] = read_at(r.addr + w * 4);
        if (observe) {
          Event e{Event::READ_RESP, m, r.addr, r.bytes, r.id, 0, rcur[m].data.words};
          observe(e);
        }
      }
    }
    p.resp.valid = rcur_valid[m];
    if (rcur_valid[m]) {
      p.resp.id = rcur[m].id;
      p.resp.data = rcur[m].data;
    }
    // the uncached port is not ready in the cycle that reports an acceptance
    p.req.ready = rblock[m] == 0 && rq[m].size() < MAX_READ_OUTSTANDING_PER_MASTER &&
                  !((m == MASTER_EXTRA_R || m == MASTER_ICACHE) && read_req_accepted[m]);
    p.req.accepted = read_req_accepted[m];
    p.req.accepted_id = read_req_accepted_id[m];
    req_ready_r[m] = p.req.ready;
  }
  for (int m = 0; m < NUM_WRITE_MASTERS; ++m) {
    auto &p = write_ports[m];
    if (wcur_valid[m] && p.resp.valid && p.resp.ready) {
      wcur_valid[m] = false;
      p.resp.ready = false;
    }
    if (!wcur_valid[m] && !wq[m].empty() && wq[m][0].left == 0) {
      wcur_valid[m] = true;
      wcur_id[m] = wq[m][0].id;
      wq[m].erase(wq[m].begin());
      if (observe) {
        Event e{Event::WRITE_RESP, m, 0, 0, wcur_id[m], 0, nullptr};
        observe(e);
      }
    }
    p.resp.valid = wcur_valid[m];
    if (wcur_valid[m]) p.resp.id = wcur_id[m];
    p.req.ready = wblock[m] == 0 && wq[m].size() < MAX_OUTSTANDING &&
                  !(m == MASTER_EXTRA_W && write_req_accepted[m]);
    p.req.accepted = write_req_accepted[m];
    w_req_ready_r[m] = p.req.ready;
  }
}

void AXI_Interconnect::comb_inputs() {
  for (int m = 0; m < NUM_READ_MASTERS; ++m) {
    auto &p = read_ports[m];
    read_req_accepted[m] = false;
    if (p.req.valid && p.req.ready) {
      unsigned d = pick(Choice::READ_ACCEPT, m, p.req.addr, 2);
      if (d) { rblock[m] = d + 1; continue; }
      PendR r;
      r.addr = p.req.addr;
      r.bytes = uint32_t(p.req.total_size) + 1;
      r.id = p.req.id;
      r.left = 2 + pick(Choice::READ_LATENCY, m, p.req.addr, 4) * 7;
      rq[m].push_back(r);
      read_req_accepted[m] = true;
      read_req_accepted_id[m] = p.req.id;
      if (observe) {
        Event e{Event::READ_ACC, m, r.addr, r.bytes, r.id, 0, nullptr};
        observe(e);
      }
    }
  }
  for (int m = 0; m < NUM_WRITE_MASTERS; ++m) {
    auto &p = write_ports[m];
    write_req_accepted[m] = false;
    if (p.req.valid && p.req.ready) {
      unsigned d = pick(Choice::WRITE_ACCEPT, m, p.req.addr, 2);
      if (d) { wblock[m] = d + 1; continue; }
      uint32_t bytes = uint32_t(p.req.total_size) + 1;
      for (uint32_t w = 0; w * 4 < bytes && w < (uint32_t)CACHELINE_WORDS; ++w) {
        uint32_t strb = (p.req.wstrb >> (4 * w)) & 0xF;
        if (strb) write_at(p.req.addr + 4 * w, p.req.wdata[w], strb);
      }
      PendW r;
      r.id = p.req.id;
      r.left = 1 + pick(Choice::WRITE_LATENCY, m, p.req.addr, 3) * 9;
      wq[m].push_back(r);
      write_req_accepted[m] = true;
      if (observe) {
        Event e{Event::WRITE_ACC, m, p.req.addr, bytes, p.req.id, p.req.wstrb, p.req.wdata.words};
        observe(e);
      }
    }
  }
}

void AXI_Interconnect::seq() {
  for (int m = 0; m < NUM_READ_MASTERS; ++m) {
    for (auto &r : rq[m]) if (r.left) --r.left;
    if (rblock[m]) --rblock[m];
  }
  for (int m = 0; m < NUM_WRITE_MASTERS; ++m) {
    for (auto &r : wq[m]) if (r.left) --r.left;
    if (wblock[m]) --wblock[m];
  }
}
} // namespace axi_interconnect
