// The type predictor and the branch target buffer, driven through every short
// history of training and compared with a plain record of that history.
#include "mc.h"
#include "front_module.h"
#include "BPU/target_predictor/BTB_top.h"
#include "BPU/type_predictor/TypePredictor.h"
#include <algorithm>
#include <map>
#include <functional>

using u32 = uint32_t;
static bool thorough;
struct Op { int pc; int type; int target; bool taken; };
static std::string show(const std::vector<Op> &h, const std::vector<u32> &pcs) {
  std::string s;
  for (auto &o : h) s += mc::fmt(" %08x:type%d%s->%d", pcs[o.pc], o.type, o.taken ? "" : "(not taken)", o.target);
  return s;
}
// what one entry of a set is worth: confirmed so many times
struct Entry { bool on = false; int type = 0; u32 target = 0; int worth = 0; };

// ---- type predictor
struct Types {
  static constexpr int WAYS = TYPE_PRED_WAY_NUM;
  TypePredictor p;
  void train(u32 pc, int type, int slot) {
    TypePredictor::InputPayload in;
    memset(&in, 0, sizeof in);
    in.upd_valid[slot] = true;
    in.upd_pc[slot] = pc;
    in.upd_br_type[slot] = type;
    step(in);
  }
  void train2(u32 a, int ta, u32 b, int tb) {
    TypePredictor::InputPayload in;
    memset(&in, 0, sizeof in);
    in.upd_valid[0] = in.upd_valid[1] = true;
    in.upd_pc[0] = a; in.upd_br_type[0] = ta;
    in.upd_pc[1] = b; in.upd_br_type[1] = tb;
    step(in);
  }
  void step(TypePredictor::InputPayload &in) {
    static TypePredictor::ReadData rd;
    TypePredictor::OutputPayload out;
    TypePredictor::CombResult req;
    p.type_pred_seq_read(in, rd);
    p.type_pred_comb_calc(in, rd, out, req);
    p.type_pred_seq_write(in, req, false);
  }
  int ask(u32 pc, int slot) {
    TypePredictor::InputPayload in;
    memset(&in, 0, sizeof in);
    in.pred_valid[slot] = true;
    in.pred_pc[slot] = pc;
    static TypePredictor::ReadData rd;
    TypePredictor::OutputPayload out;
    TypePredictor::CombResult req;
    p.type_pred_seq_read(in, rd);
    p.type_pred_comb_calc(in, rd, out, req);
    mc::trans();
    for (int i = 0; i < FETCH_WIDTH; ++i)
      if (i != slot && out.pred_type[i] != BR_NONCTL) return -1;
    if (!out.pred_hit[slot] && out.pred_type[slot] != BR_NONCTL) return -2;
    return out.pred_type[slot];
  }
};
// ---- branch target buffer of one bank
struct Targets {
  static constexpr int WAYS = BTB_WAY_NUM;
  BTB_TOP p;
  void train(u32 pc, int type, u32 target, bool taken) {
    BTB_TOP::InputPayload in;
    memset(&in, 0, sizeof in);
    in.upd_valid = true;
    in.upd_pc = pc;
    in.upd_br_type_in = type;
    in.upd_actual_addr = target;
    in.upd_actual_dir = taken;
    static BTB_TOP::ReadData rd;
    static BTB_TOP::CombResult req;
    BTB_TOP::OutputPayload out;
    p.btb_seq_read(in, rd);
    p.btb_comb_calc(in, rd, out, req);
    p.btb_seq_write(in, req, false);
  }
  u32 ask(u32 pc, int type) {
    BTB_TOP::InputPayload in;
    memset(&in, 0, sizeof in);
    in.pred_req = true;
    in.pred_pc = pc;
    in.pred_type_in = type;
    static BTB_TOP::ReadData rd;
    static BTB_TOP::CombResult req;
    BTB_TOP::OutputPayload out;
    p.btb_seq_read(in, rd);
    p.btb_comb_calc(in, rd, out, req);
    mc::trans();
    return out.btb_pred_out_valid ? out.pred_target : 1;
  }
};

// places of one bank's buffer that share a set (were the hash to change they
// would merely stop competing)
static std::vector<u32> rivals(int n) {
  std::vector<u32> v;
  const int w = clog2(BTB_ENTRY_NUM);
  for (u32 t = 0; int(v.size()) < n; ++t) {
    const u32 tag = t < 2 ? t : t == 2 ? 1u << (BTB_TAG_LEN - 1) : t;
    u32 low = 5;
    for (int k = 0; k < 4; ++k) low ^= (tag >> (k * w)) & (BTB_ENTRY_NUM - 1);
    v.push_back((tag << w | low) << 2);
  }
  return v;
}
static u32 where(int t) { return t == 0 ? 0x80001230u : t == 1 ? 0x7FFFFFF4u : 0x80000008u + 16 * t; }

static void types_from(Types &t, std::vector<Op> &h, std::vector<Entry> &m, const std::vector<u32> &pcs, int rivals, const std::vector<int> &kinds, int left) {
  for (size_t i = 0; i < pcs.size(); ++i) {
    const int want = m[i].on ? m[i].type : BR_NONCTL, got = t.ask(pcs[i], i % FETCH_WIDTH);
    if (got != want) {
      mc::violation("P43:type", mc::fmt("%08x", pcs[i]), mc::fmt("type predicted for %08x: %d, last trained: %d; history:%s", pcs[i], got, want, show(h, pcs).c_str()));
      return;
    }
  }
  mc::visit(mc::hash_bytes(&t, sizeof t));
  if (!left) { mc::trace(); return; }
  for (size_t i = 0; i < pcs.size(); ++i)
    for (int k : kinds) {
      Types n = t;
      std::vector<Entry> nm = m;
      h.push_back({int(i), k, 0, true});
      n.train(pcs[i], k, h.size() % COMMIT_WIDTH);
      Entry &e = nm[i];
      if (k == BR_NONCTL) e = Entry{};
      else {
        // the other branches of the set; the one confirmed least gives way
        if (!e.on && int(i) < rivals) {
          int on = 0, least = 99, lost = -1;
          for (int j = 0; j < rivals; ++j) if (nm[j].on) { ++on; least = std::min(least, nm[j].worth); }
          if (on >= Types::WAYS) {
            bool ok = true;
            for (int j = 0; j < rivals; ++j)
              if (nm[j].on && n.ask(pcs[j], 0) == BR_NONCTL) {
                if (lost >= 0 || nm[j].worth != least) ok = false;
                lost = j;
              }
            if (!ok) mc::violation("P43:type displaced", mc::fmt("%08x", pcs[i]), mc::fmt("training %08x displaces a branch confirmed more often than another, or more than one; history:%s", pcs[i], show(h, pcs).c_str()));
            if (lost >= 0) nm[lost] = Entry{};
          }
        }
        if (e.on && e.type == k) e.worth = std::min(e.worth + 1, TYPE_PRED_AGE_MAX);
        else { e.on = true; e.type = k; e.worth = 1; }
      }
      types_from(n, h, nm, pcs, rivals, kinds, left - 1);
      h.pop_back();
    }
}
static void targets_from(Targets &t, std::vector<Op> &h, std::vector<Entry> &m, const std::vector<u32> &pcs, int rivals, const std::vector<Op> &ops, int left) {
  for (size_t i = 0; i < pcs.size(); ++i) {
    const u32 want = m[i].on ? m[i].target : pcs[i] + 4;
    for (int type : {BR_DIRECT, BR_CALL, BR_RET, BR_JAL}) {
      const u32 got = t.ask(pcs[i], type);
      if (got != want) {
        mc::violation("P43:target", mc::fmt("%08x", pcs[i]), mc::fmt("target predicted for %08x: %08x, last trained: %08x; history:%s", pcs[i], got, want, show(h, pcs).c_str()));
        return;
      }
    }
    if (t.ask(pcs[i], BR_NONCTL) != pcs[i] + 4)
      mc::violation("P43:plain", mc::fmt("%08x", pcs[i]), mc::fmt("a plain instruction at %08x is predicted to jump; history:%s", pcs[i], show(h, pcs).c_str()));
  }
  mc::visit(mc::hash_bytes(m.data(), m.size() * sizeof(Entry)));
  if (!left) { mc::trace(); return; }
  for (auto &o : ops) {
    Targets n = t;
    std::vector<Entry> nm = m;
    h.push_back(o);
    n.train(pcs[o.pc], o.type, where(o.target), o.taken);
    Entry &e = nm[o.pc];
    if (o.taken) {
      if (!e.on && o.pc < rivals) {
        int on = 0, least = 99, lost = -1;
        for (int j = 0; j < rivals; ++j) if (nm[j].on) { ++on; least = std::min(least, nm[j].worth); }
        if (on >= Targets::WAYS) {
          bool ok = true;
          for (int j = 0; j < rivals; ++j)
            if (nm[j].on && n.ask(pcs[j], BR_DIRECT) == pcs[j] + 4) {
              if (lost >= 0 || nm[j].worth != least) ok = false;
              lost = j;
            }
          if (!ok) mc::violation("P43:target displaced", mc::fmt("%08x", pcs[o.pc]), mc::fmt("training %08x displaces a branch more useful than another, or more than one; history:%s", pcs[o.pc], show(h, pcs).c_str()));
          if (lost >= 0) nm[lost] = Entry{};
        }
      }
      if (!e.on) { e.on = true; e.worth = 1; }
      else if (e.target == where(o.target)) e.worth = std::min(e.worth + 1, 7);
      else e.worth = std::max(e.worth - 1, 0);
      e.target = where(o.target);
    }
    targets_from(n, h, nm, pcs, rivals, ops, left - 1);
    h.pop_back();
  }
}
// indirect jumps that each have one target
static void indirect_from(Targets &t, std::vector<Op> &h, std::vector<Entry> &m, const std::vector<u32> &pcs, const std::vector<Op> &ops, int left) {
  for (size_t i = 0; i < pcs.size(); ++i) {
    const u32 want = m[i].on ? m[i].target : pcs[i] + 4, got = t.ask(pcs[i], BR_IDIRECT);
    if (got != want) {
      mc::violation("P43:indirect", mc::fmt("%08x", pcs[i]), mc::fmt("target predicted for the indirect jump %08x: %08x, its only target: %08x; history:%s", pcs[i], got, want, show(h, pcs).c_str()));
      return;
    }
  }
  if (!left) { mc::trace(); return; }
  for (auto &o : ops) {
    Targets n = t;
    std::vector<Entry> nm = m;
    h.push_back(o);
    n.train(pcs[o.pc], o.type, where(o.target), o.taken);
    if (o.taken) { nm[o.pc].on = true; nm[o.pc].target = where(o.target); }
    indirect_from(n, h, nm, pcs, ops, left - 1);
    h.pop_back();
  }
}

int main(int argc, char **argv) {
  thorough = argc > 2 && !strcmp(argv[2], "thorough");
  mc::init();
  const u32 B = 0x80000000u, set = 4 * BPU_BANK_NUM * TYPE_PRED_SET_NUM;
  const std::vector<u32> tp = {B + 0x1230, B + 0x1230 + set, B + 0x1230 + (set << (TYPE_PRED_TAG_WIDTH - 1)), B + 0x1234, B + 0x1230 + 4 * BPU_BANK_NUM};
  const int trivals = 3;
  const std::vector<u32> bp = rivals(BTB_WAY_NUM + 1);
  std::vector<Op> ops;
  for (int i = 0; i < int(bp.size()); ++i) for (int t = 0; t < 2; ++t) ops.push_back({i, i & 1 ? BR_CALL : BR_DIRECT, t, true});
  std::vector<std::function<void()>> jobs;
  // type predictor: every history; the first training splits the work
  for (size_t i = 0; i < tp.size(); ++i)
    for (int first : {BR_DIRECT, BR_RET, BR_JAL})
      jobs.push_back([=] {
        static Types t;
        t.p.reset();
        std::vector<Entry> m(tp.size());
        std::vector<Op> h = {{int(i), first, 0, true}};
        t.train(tp[i], first, 0);
        m[i] = {true, first, 0, 1};
        types_from(t, h, m, tp, trivals, {first, BR_CALL, BR_NONCTL}, thorough ? 6 : 5);
      });
  // every type, every slot, two trainings in one cycle in different places
  jobs.push_back([=] {
    static Types t;
    for (int a = 0; a <= BR_JAL; ++a)
      for (int b = 0; b <= BR_JAL; ++b)
        for (size_t i = 0; i < tp.size(); ++i)
          for (size_t j = 0; j < tp.size(); ++j) {
            if (i == j || (int(i) < trivals && int(j) < trivals)) continue;
            t.p.reset();
            t.train2(tp[i], a, tp[j], b);
            mc::trace();
            for (int s = 0; s < FETCH_WIDTH; ++s)
              if (t.ask(tp[i], s) != a || t.ask(tp[j], s) != b)
                mc::violation("P43:two types", mc::fmt("%d %d", a, b), mc::fmt("%08x trained as %d and %08x as %d in one cycle: predicted %d and %d in slot %d", tp[i], a, tp[j], b, t.ask(tp[i], s), t.ask(tp[j], s), s));
          }
  });
  // target buffer: every history over one set and one branch more than it holds
  for (size_t i = 0; i < ops.size(); ++i)
    for (size_t j = 0; j < ops.size(); ++j)
      jobs.push_back([=] {
        static Targets t;
        t.p.reset();
        std::vector<Entry> m(bp.size());
        std::vector<Op> h;
        for (const Op &o : {ops[i], ops[j]}) {
          h.push_back(o);
          Entry &e = m[o.pc];
          t.train(bp[o.pc], o.type, where(o.target), true);
          e.worth = !e.on ? 1 : e.target == where(o.target) ? e.worth + 1 : e.worth - 1;
          e.on = true;
          e.target = where(o.target);
        }
        targets_from(t, h, m, bp, bp.size(), ops, thorough ? 6 : 5);
      });
  // how often each branch of a full set was confirmed, then a new one
  for (int k = 0; k < 256; ++k)
    jobs.push_back([=] {
      static Targets t;
      t.p.reset();
      std::vector<Entry> m(bp.size());
      std::vector<Op> h;
      for (int i = 0; i < 4 && i < BTB_WAY_NUM; ++i)
        for (int n = 0; n <= (k >> 2 * i & 3) * 3; ++n) {
          h.push_back({i, BR_JAL, 0, true});
          t.train(bp[i], BR_JAL, where(0), true);
          m[i] = {true, 0, where(0), std::min(m[i].worth + 1, 7)};
        }
      targets_from(t, h, m, bp, bp.size(), {{int(bp.size()) - 1, BR_DIRECT, 1, true}, {0, BR_DIRECT, 1, true}, {0, BR_DIRECT, 0, false}}, 3);
    });
  // branches not taken are not recorded; every kind
  for (int type : {BR_DIRECT, BR_CALL, BR_RET, BR_JAL})
    jobs.push_back([=] {
      static Targets t;
      t.p.reset();
      std::vector<Entry> m(2);
      std::vector<Op> h, o;
      for (int i = 0; i < 2; ++i) { o.push_back({i, type, 0, true}); o.push_back({i, type, 1, true}); o.push_back({i, type, 1, false}); }
      targets_from(t, h, m, {bp[0], bp[1]}, 2, o, 4);
    });
  // indirect jumps with one target each among other branches
  for (int a = 0; a < 2; ++a)
    jobs.push_back([=] {
      static Targets t;
      t.p.reset();
      std::vector<u32> pcs = a ? std::vector<u32>{0x100, 0x1104, 0x20C} : std::vector<u32>{bp[0], bp[1], bp[2]};
      std::vector<Entry> m(3);
      std::vector<Op> h;
      indirect_from(t, h, m, pcs, {{0, BR_IDIRECT, 0, true}, {1, BR_IDIRECT, 1, true}, {2, BR_IDIRECT, 2, true}}, thorough ? 13 : 11);
    });
  mc::parallel([&](int, int) {
    for (int64_t j; (j = mc::take(jobs.size())) >= 0;) {
      mc::current("history family %d", int(j));
      jobs[j]();
    }
  });
  return mc::report();
}
