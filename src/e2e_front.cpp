// An adversarial front end in place of the repository's: it delivers the
// instructions of the program in groups of any shape, with any prediction the
// real one could make (direction of conditional branches, target of indirect
// jumps) and any delay.
#include "e2e.h"

namespace e2e {
static u32 fpc = 0;
static unsigned gap = 0;
// what the base policy predicts for a branch
bool base_taken(u32 pc) {
  auto it = run.path.find(pc);
  const bool real = it != run.path.end() && it->second.first;
  return run.c->pol.pred == 0 ? real : run.c->pol.pred == 1 ? !real : run.c->pol.pred == 3;
}
u32 indirect_target(u32 pc, unsigned k) {
  auto it = run.path.find(pc);
  u32 real = it != run.path.end() ? it->second.second : pc + 4;
  return k == 0 ? real : k == 1 ? pc + 4 : k == 2 ? CODE : real + 4;
}
static void deliver(FrontTop &f) {
  auto &o = f.out;
  unsigned n = 1 + choose(K_WIDTH, FETCH_WIDTH, run.c->pol.width - 1u);
  u32 pc = fpc, next = pc;
  unsigned i = 0;
  for (; i < n; ++i) {
    if (i && (pc & 63) == 0) break; // a group lies within one line
    u32 in = pmem_read(pc & ~3u), op = in & 0x7F;
    o.pc[i] = pc;
    o.instructions[i] = in;
    o.inst_valid[i] = true;
    bool taken = false;
    u32 target = 0;
    if (op == 0x63) {
      taken = choose(K_DIR, 2, base_taken(pc));
      target = pc + golden::imm_b(in);
    } else if (op == 0x6F) {
      taken = true;
      target = pc + golden::imm_j(in);
    } else if (op == 0x67) {
      taken = true;
      target = indirect_target(pc, choose(K_TARGET, 4, run.c->pol.pred));
    }
    o.predict_dir[i] = taken;
    pc += 4;
    next = pc;
    if (taken) { next = target; ++i; break; }
  }
  o.predict_next_fetch_address = next;
  o.FIFO_valid = true;
  fpc = next;
}
} // namespace e2e

void FrontTop::init() {
  CsrStatusIO *bound = in.csr_status;
  std::memset(&in, 0, sizeof in);
  std::memset(&out, 0, sizeof out);
  in.csr_status = bound;
}
void FrontTop::step_bpu() {
  using namespace e2e;
  std::memset(&out, 0, sizeof out);
  if (!run.active) return;
  const Policy &p = run.c->pol;
  out.commit_stall = choose(K_STALL, 2, p.stall && run.cyc % p.stall == 0);
  if (in.refetch) {
    fpc = in.refetch_address;
    gap = 0;
    return;
  }
  if (!in.FIFO_read_enable) return;
  if (gap) { --gap; return; }
  if (choose(K_GAP, 2, 0)) { gap = 2; return; }
  deliver(*this);
  gap = p.gap;
}
void FrontTop::step_oracle() { step_bpu(); }
void FrontTop::dump_debug_state() const {}
