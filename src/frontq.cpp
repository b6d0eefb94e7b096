// P40: the four fetch-unit queues as list FIFOs; P41: pre-decode and checker.
#include "mc.h"
#include "front_module.h"
#include "train_IO.h"
#include "predecode.h"
#include "predecode_checker.h"
#include <deque>
#include <type_traits>

int io_gen_cnt = 0;

// ---------------------------------------------------------------- payloads
static uint32_t val(uint64_t item, int field, int i, int j) {
  return (uint32_t)(mc::mix(mc::mix(item * 977 + field, 0x5151 + i), j) >> 7);
}
template <class T> static void setf(T &d, uint32_t v, int bits) {
  if constexpr (std::is_same_v<T, bool>) d = (v >> 5) & 1;
  else d = (T)(bits >= 32 ? v : v & ((1u << bits) - 1u));
}
struct Fill { uint64_t item; template <class T> void operator()(T &d, int f, int i, int j, int bits) { setf(d, val(item, f, i, j), bits); } };
struct Cmp {
  uint64_t item; const char *bad = nullptr; const char *names[64];
  template <class T> void operator()(T &d, int f, int i, int j, int bits) {
    std::remove_const_t<T> w; setf(w, val(item, f, i, j), bits);
    if (d != w && !bad) bad = "field";
    if (d != w) badf = f;
  }
  int badf = -1;
};
#define S(n, b) v(x.n, __LINE__, 0, 0, b);
#define A(n, b) for (int i = 0; i < FETCH_WIDTH; ++i) v(x.n[i], __LINE__, i, 0, b);
#define B(n, m, b) for (int i = 0; i < FETCH_WIDTH; ++i) for (int j = 0; j < m; ++j) v(x.n[i][j], __LINE__, i, j, b);
#define META \
  A(alt_pred, 1) A(altpcpn, pcpn_t_BITS) A(pcpn, pcpn_t_BITS) B(tage_idx, TN_MAX, tage_idx_t_BITS) \
  B(tage_tag, TN_MAX, tage_tag_t_BITS) A(sc_used, 1) A(sc_pred, 1) A(sc_sum, tage_scl_meta_sum_t_BITS) \
  B(sc_idx, BPU_SCL_META_NTABLE, tage_scl_meta_idx_t_BITS) A(loop_used, 1) A(loop_hit, 1) A(loop_pred, 1) \
  A(loop_idx, tage_loop_meta_idx_t_BITS) A(loop_tag, tage_loop_meta_tag_t_BITS)

struct QFetch {
  using In = fetch_address_FIFO_in; using Out = fetch_address_FIFO_out;
  using Rd = fetch_address_FIFO_read_data; using Req = FetchAddrCombOut;
  static constexpr const char *name = "fetch_address"; static constexpr int cap = FETCH_ADDR_FIFO_SIZE; static constexpr bool dummy = false;
  static void rd(In *i, Rd *r) { fetch_address_FIFO_seq_read(i, r); }
  static void comb(In *i, Rd *r, Out *o, Rd *n, Req *q) { fetch_address_FIFO_comb_calc(i, r, o, n, q); }
  static void wr(Req *q) { fetch_address_FIFO_seq_write(q); }
  static void acc(Req &a, const Req &s) { a.clear_fifo |= s.clear_fifo; a.pop_en |= s.pop_en; if (s.push_en) { a.push_en = true; a.push_data = s.push_data; } }
  template <class X, class V> static void each(X &x, V &v) { S(fetch_address, 32) }
  static int valid(const Out &o) { return o.read_valid; }
  static bool is_dummy(const Out &) { return false; }
  static void mini(In &, bool) {}
};
struct QInst {
  using In = instruction_FIFO_in; using Out = instruction_FIFO_out;
  using Rd = instruction_FIFO_read_data; using Req = InstructionCombOut;
  static constexpr const char *name = "instruction"; static constexpr int cap = INSTRUCTION_FIFO_SIZE; static constexpr bool dummy = false;
  static void rd(In *i, Rd *r) { instruction_FIFO_seq_read(i, r); }
  static void comb(In *i, Rd *r, Out *o, Rd *n, Req *q) { instruction_FIFO_comb_calc(i, r, o, n, q); }
  static void wr(Req *q) { instruction_FIFO_seq_write(q); }
  static void acc(Req &a, const Req &s) { a.clear_fifo |= s.clear_fifo; a.pop_en |= s.pop_en; if (s.push_en) { a.push_en = true; a.push_entry = s.push_entry; } }
  static const char *fieldsof(int);
  template <class X, class V> static void eachi(X &x, V &v) { A(pc, 32) A(page_fault_inst, 1) A(inst_valid, 1) A(predecode_type, 2) A(predecode_target_address, 32) S(seq_next_pc, 32) }
  template <class V> static void each(In &x, V &v) { for (int i = 0; i < FETCH_WIDTH; ++i) v(x.fetch_group[i], 1, i, 0, 32); eachi(x, v); }
  template <class V> static void each(Out &x, V &v) { for (int i = 0; i < FETCH_WIDTH; ++i) v(x.instructions[i], 1, i, 0, 32); eachi(x, v); }
  static int valid(const Out &o) { return o.FIFO_valid; }
  static bool is_dummy(const Out &) { return false; }
  static void mini(In &, bool) {}
};
struct QPtab {
  using In = PTAB_in; using Out = PTAB_out; using Rd = PTAB_read_data; using Req = PtabCombOut;
  static constexpr const char *name = "ptab"; static constexpr int cap = PTAB_SIZE; static constexpr bool dummy = true;
  static void rd(In *i, Rd *r) { PTAB_seq_read(i, r); }
  static void comb(In *i, Rd *r, Out *o, Rd *n, Req *q) { PTAB_comb_calc(i, r, o, n, q); }
  static void wr(Req *q) { PTAB_seq_write(q); }
  static void acc(Req &a, const Req &s) {
    a.clear_ptab |= s.clear_ptab; a.pop_en |= s.pop_en;
    if (s.push_write_en) { a.push_write_en = true; a.push_write_entry = s.push_write_entry; }
    if (s.push_dummy_en) { a.push_dummy_en = true; a.push_dummy_entry = s.push_dummy_entry; }
  }
  template <class X, class V> static void each(X &x, V &v) { A(predict_dir, 1) S(predict_next_fetch_address, 32) A(predict_base_pc, 32) META }
  static int valid(const Out &) { return -1; }
  static bool is_dummy(const Out &o) { return o.dummy_entry; }
  static void mini(In &i, bool m) { i.need_mini_flush = m; }
};
struct QF2B {
  using In = front2back_FIFO_in; using Out = front2back_FIFO_out;
  using Rd = front2back_FIFO_read_data; using Req = Front2BackCombOut;
  static constexpr const char *name = "front2back"; static constexpr int cap = FRONT2BACK_FIFO_SIZE; static constexpr bool dummy = false;
  static void rd(In *i, Rd *r) { front2back_FIFO_seq_read(i, r); }
  static void comb(In *i, Rd *r, Out *o, Rd *n, Req *q) { front2back_FIFO_comb_calc(i, r, o, n, q); }
  static void wr(Req *q) { front2back_FIFO_seq_write(q); }
  static void acc(Req &a, const Req &s) { a.clear_fifo |= s.clear_fifo; a.pop_en |= s.pop_en; if (s.push_en) { a.push_en = true; a.push_entry = s.push_entry; } }
  template <class X, class V> static void each(X &x, V &v) {
    A(fetch_group, 32) A(page_fault_inst, 1) A(inst_valid, 1) A(predict_dir_corrected, 1)
    S(predict_next_fetch_address_corrected, 32) A(predict_base_pc, 32) META }
  static int valid(const Out &o) { return o.front2back_FIFO_valid; }
  static bool is_dummy(const Out &) { return false; }
  static void mini(In &, bool) {}
};

// ---------------------------------------------------------------- P40
// One cycle: bits 0 read, 1 write, 2 mini-flush write (PTAB), 3-4 ctrl
// (0 none, 1 refetch, 2 reset), 5 the way the fetch unit drives the queue
// (0: one combined evaluation, 1: read stage then write stage).
static std::string act_name(int a) {
  std::string s;
  if (a & 1) s += "R";
  if (a & 2) s += (a & 4) ? "M" : "W";
  int c = (a >> 3) & 3;
  if (c == 1) s += "f";
  if (c == 2) s += "x";
  if (a & 32) s += "2";
  return s.empty() ? "-" : s;
}
template <class Q> struct Runner {
  std::deque<int64_t> q; // item number, -1 dummy
  uint64_t next = 1;
  std::string hist;
  bool ok = true;
  void fail(const char *what, const std::string &more) {
    ok = false;
    mc::violation(mc::fmt("P40:%s:%s", Q::name, what), mc::fmt("queue=%s history=%s", Q::name, hist.c_str()),
                  mc::fmt("%s queue, history [%s]: %s %s", Q::name, hist.c_str(), what, more.c_str()));
  }
  void deliver(typename Q::Out &o) {
    int v = Q::valid(o);
    if (q.empty()) { if (v == 1) fail("invented", "an item was delivered by an empty queue"); return; }
    if (v == 0) { fail("not-delivered", "a read of a non-empty queue delivered nothing"); return; }
    int64_t want = q.front(); q.pop_front();
    if (want < 0) { if (!Q::is_dummy(o)) fail("order", "expected the filler entry"); return; }
    if (Q::is_dummy(o)) { fail("order", "got a filler entry instead of an item"); return; }
    Cmp c{(uint64_t)want};
    Q::each(o, c);
    if (c.bad) fail("content", mc::fmt("item %lld was not delivered intact (field %d)", (long long)want, c.badf));
  }
  void flags(const typename Q::Out &o) {
    int n = (int)q.size();
    if (o.empty != (n == 0)) fail("empty-flag", mc::fmt("empty=%d with %d items", (int)o.empty, n));
    if (n >= Q::cap && !o.full) fail("full-flag", mc::fmt("full=%d with %d items", (int)o.full, n));
    if (Q::dummy && n >= Q::cap - 1 && !o.full) fail("full-flag", mc::fmt("full=%d with %d items and no room for an item with filler", (int)o.full, n));
    if (n <= Q::cap - 2 && o.full) fail("full-flag", mc::fmt("full=%d with only %d items", (int)o.full, n));
  }
  bool legal(int a) {
    int c = (a >> 3) & 3;
    if ((a & 4) && (!Q::dummy || !(a & 2))) return false;
    if ((a & 32) && (a & 3) != 3) return false; // one stage only: same as combined
    if (c == 2 && (a & 36)) return false;
    size_t n = c ? 0 : q.size();
    if (a & 2) {
      size_t need = (a & 4) ? 2 : 1;
      if (n + need > (size_t)Q::cap) return false; // the producer respects full
    }
    return true;
  }
  void step(int a) {
    hist += (hist.empty() ? "" : " ") + act_name(a);
    int c = (a >> 3) & 3;
    typename Q::In in; typename Q::Out out; typename Q::Rd rd{}, nx{}; typename Q::Req req{}, acc{};
    std::memset((void *)&in, 0, sizeof in); std::memset((void *)&out, 0, sizeof out);
    in.refetch = c == 1; in.reset = c == 2;
    Q::rd(&in, &rd);
    auto put = [&] {
      in.write_enable = true; Fill f{next}; Q::each(in, f); Q::mini(in, a & 4);
    };
    auto model_push = [&] { q.push_back((int64_t)next); if (a & 4) q.push_back(-1); ++next; };
    if (c) q.clear();
    if (a & 32) {
      in.read_enable = true;
      Q::comb(&in, &rd, &out, &nx, &req);
      Q::acc(acc, req);
      deliver(out); flags(out);
      rd = nx;
      in.read_enable = false; put();
      std::memset((void *)&out, 0, sizeof out);
      req = typename Q::Req{};
      Q::comb(&in, &rd, &out, &nx, &req);
      Q::acc(acc, req);
      model_push(); flags(out);
      Q::wr(&acc);
    } else {
      in.read_enable = a & 1;
      if (a & 2) put();
      Q::comb(&in, &rd, &out, &nx, &req);
      if (c != 2) {
        if (a & 2) model_push();
        if (a & 1) deliver(out);
        else if (Q::valid(out) == 1) fail("invented", "an item was delivered without a read");
      } else if (Q::valid(out) == 1) fail("after-reset", "an item was delivered in the reset cycle");
      flags(out);
      Q::wr(&req);
    }
    // the size the queue shows to the next cycle
    typename Q::Rd r2{};
    Q::rd(&in, &r2);
    if (ok && (int)r2.size != (int)q.size()) fail("size", mc::fmt("queue holds %d items, should hold %d", (int)r2.size, (int)q.size()));
    if (ok && r2.size && !r2.head_valid) fail("size", "non-empty queue without a head");
    mc::trans();
    uint64_t h = mc::hash_bytes(Q::name, 4, next);
    for (auto x : q) h = mc::mix(h, (uint64_t)x);
    mc::visit(mc::mix(h, hist.size()));
  }
  void reset() { q.clear(); step(2 << 3); hist.clear(); next = 1; ok = true; }
};
template <class Q> static void explore(int depth, int w, int n) {
  std::vector<int> acts;
  for (int a = 0; a < 64; ++a) if (((a >> 3) & 3) != 3) acts.push_back(a);
  // every fill level reached after every number of earlier push+pop pairs
  uint64_t idx = 0;
  for (int off = 0; off <= Q::cap; ++off)
    for (int fill = 0; fill <= Q::cap; ++fill)
      for (int a0 : acts) {
        if ((int)(idx++ % n) != w) continue;
        std::vector<int> seq(depth, 0);
        std::vector<int> pos(depth, 0);
        // iterate all sequences with first action a0 (odometer with pruning by replay)
        std::function<void(std::vector<int> &)> rec = [&](std::vector<int> &pre) {
          Runner<Q> r;
          r.reset();
          for (int i = 0; i < off; ++i) { r.step(2); r.step(1); }
          for (int i = 0; i < fill; ++i) if (r.legal(2)) r.step(2);
          bool legal = true;
          for (int a : pre) { if (!r.legal(a)) { legal = false; break; } r.step(a); if (!r.ok) return; }
          if (!legal) return;
          // drain after a complete history: nothing may be lost
          if ((int)pre.size() == depth) {
            for (int i = 0; i <= Q::cap && r.ok; ++i) r.step(1);
            mc::trace();
            mc::sample("%s off=%d fill=%d [%s]", Q::name, off, fill, r.hist.c_str());
            return;
          }
          for (int a : acts) { pre.push_back(a); rec(pre); pre.pop_back(); }
        };
        std::vector<int> pre{a0};
        mc::current("queue=%s off=%d fill=%d first=%s", Q::name, off, fill, act_name(a0).c_str());
        rec(pre);
      }
}
static void p40(bool thorough) {
  mc::parallel([&](int w, int n) {
    explore<QFetch>(thorough ? 5 : 4, w, n);
    explore<QInst>(thorough ? 4 : 3, w, n);
    explore<QPtab>(thorough ? 4 : 3, w, n);
    explore<QF2B>(thorough ? 4 : 3, w, n);
  });
}

// ---------------------------------------------------------------- P41
static void check_word(uint32_t inst, uint32_t pc) {
  predecode_in in{inst, pc}; predecode_read_data rd{}; PredecodeResult r{};
  predecode_seq_read(&in, &rd);
  predecode_comb(rd, r);
  uint32_t op = inst & 0x7f, f3 = (inst >> 12) & 7;
  int want; uint32_t tgt = 0; bool ct = false;
  if (op == 0x6f) {
    want = PREDECODE_JAL; ct = true;
    int32_t imm = (int32_t)(((inst & 0x80000000u) ? 0xfff00000u : 0) | (inst & 0x000ff000u) | ((inst >> 9) & 0x800u) | ((inst >> 20) & 0x7feu));
    tgt = pc + (uint32_t)imm;
  } else if (op == 0x63) {
    if (f3 == 2 || f3 == 3) return; // reserved
    want = PREDECODE_DIRECT_JUMP_NO_JAL; ct = true;
    int32_t imm = (int32_t)(((inst & 0x80000000u) ? 0xfffff000u : 0) | ((inst << 4) & 0x800u) | ((inst >> 20) & 0x7e0u) | ((inst >> 7) & 0x1eu));
    tgt = pc + (uint32_t)imm;
  } else if (op == 0x67) {
    if (f3) return; // reserved
    want = PREDECODE_JALR;
  } else want = PREDECODE_NON_BRANCH;
  if ((int)r.type != want || (ct && r.target_address != tgt))
    mc::violation(mc::fmt("P41:predecode:op=%02x.%s", op, (int)r.type != want ? "class" : "target"),
                  mc::fmt("inst=%08x pc=%08x", inst, pc),
                  mc::fmt("pre-decode of %08x at %08x: class %d target %08x, expected class %d target %08x", inst, pc, (int)r.type, r.target_address, want, tgt));
}
static void p41(bool thorough) {
  const uint32_t pcs[] = {0x80000000u, 0x8000003cu, 0x00000000u, 0x7ffffff8u, 0xfffffffcu, 0x80001ffcu};
  int npc = thorough ? 6 : 2;
  mc::parallel([&](int, int) {
    for (;;) {
      int64_t blk = mc::take(4096);
      if (blk < 0) break;
      mc::current("inst=%08x.. (block of 2^20 words)", (uint32_t)blk << 20);
      for (int p = 0; p < npc; ++p)
        for (uint32_t lo = 0; lo < (1u << 20); ++lo) check_word((uint32_t)blk << 20 | lo, pcs[p]);
      mc::trans((uint64_t)npc << 20);
      mc::W().states += 1u << 20;
    }
  });
  // checker: all class x direction groups, all equalities between addresses
  constexpr int FW = FETCH_WIDTH;
  uint64_t types = 1;
  for (int i = 0; i < FW; ++i) types *= 4;
  mc::parallel([&](int, int) {
    for (;;) {
      int64_t t = mc::take(types);
      if (t < 0) break;
      for (uint32_t dirs = 0; dirs < (1u << FW); ++dirs)
        for (int pn = 0; pn < FW + 2; ++pn)      // predicted next: a target, sequential, other
          for (int eq = 0; eq < (1 << FW); ++eq) // which targets coincide with sequential
            for (int base = 0; base < 2; ++base) {
              predecode_checker_in in; std::memset(&in, 0, sizeof in);
              uint32_t b = base ? 0xfffffff0u : 0x80000040u, seqn = b + FW * 4;
              for (int i = 0; i < FW; ++i) {
                in.predict_dir[i] = (dirs >> i) & 1;
                in.predecode_type[i] = (t >> (2 * i)) & 3;
                bool direct = in.predecode_type[i] == PREDECODE_JAL || in.predecode_type[i] == PREDECODE_DIRECT_JUMP_NO_JAL;
                in.predecode_target_address[i] = !direct ? 0 : (eq >> i) & 1 ? seqn : b - 0x100 * (i + 1);
              }
              in.seq_next_pc = seqn;
              in.predict_next_fetch_address = pn < FW ? b - 0x100 * (pn + 1) : pn == FW ? seqn : 0x12345678u;
              predecode_checker_read_data rd{}; predecode_checker_out o{};
              predecode_checker_seq_read(&in, &rd);
              predecode_checker_comb(rd, o);
              uint32_t want = seqn; int first = FW;
              for (int i = 0; i < FW; ++i) {
                int ty = in.predecode_type[i];
                if (ty == PREDECODE_NON_BRANCH || (ty == PREDECODE_DIRECT_JUMP_NO_JAL && !in.predict_dir[i])) continue;
                first = i;
                want = ty == PREDECODE_JALR ? in.predict_next_fetch_address : in.predecode_target_address[i];
                break;
              }
              const char *bad = nullptr;
              if (o.predict_next_fetch_address_corrected != want) bad = "next";
              if (o.predecode_flush_enable != (want != in.predict_next_fetch_address)) bad = "flush";
              for (int i = 0; i < FW && i <= first; ++i)
                if (o.predict_dir_corrected[i] != (i == first)) bad = "dir";
              if (bad)
                mc::violation(mc::fmt("P41:checker:%s", bad), mc::fmt("types=%llx dirs=%x pn=%d eq=%x base=%d", (unsigned long long)t, dirs, pn, eq, base),
                              mc::fmt("checker, classes %llx (2 bits per slot) directions %x predicted next %08x sequential %08x: got next %08x flush %d, expected %08x",
                                      (unsigned long long)t, dirs, in.predict_next_fetch_address, seqn, o.predict_next_fetch_address_corrected, (int)o.predecode_flush_enable, want));
              mc::trans(); mc::W().states++;
            }
      mc::trace();
    }
  });
  mc::me() = 0;
  mc::sample("all 2^32 instruction words at %d addresses; all %llu class groups x directions x address equalities", npc, (unsigned long long)types);
}

int main(int argc, char **argv) {
  std::string p = argc > 1 ? argv[1] : "P40";
  bool th = argc > 2 && std::string(argv[2]) == "thorough";
  mc::init(1ull << 30);
  if (p == "P40") p40(th);
  else p41(th);
  return mc::report();
}
