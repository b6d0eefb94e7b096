// The complete simulator - its own branch predictor, fetch queues and
// instruction cache included - runs programs while every retirement is
// compared with the sequential model.  The programs loop, so that the
// predictors are trained, mispredict and are repaired; they change code and
// translations and announce it with fence.i / sfence.vma.
#include "e2e.h"
#include <sys/mman.h>

using namespace e2e;
static bool thorough;
using Gen = std::function<Code(u32 pc)>;
struct El { std::string n; Gen c; };
using Els = std::vector<El>;
static Gen K(Code c) { return [c](u32) { return c; }; }
static u32 slli(u32 rd, u32 r, u32 n) { return I(n, r, 1, rd, 0x13); }
static u32 rem(u32 rd, u32 a, u32 b) { return R(1, b, a, 6, rd, 0x33); }

// ------------------------------------------------------------ P14
// x9 loop counter, x1 link, x12 accumulator, x6..x8 scratch, x11 SUB, x16 NEST,
// x17 REC, x18 the patched function, x19 its first instruction, x21 CHAIN
constexpr u32 SUB = CODE + 0x800, NEST = CODE + 0x840, REC = CODE + 0x87C, PATCH = CODE + 0x2400, CHAIN = CODE + 0x10040;
static const Els &flow() {
  static const Els v = {
      {"add", K({add(12, 12, 13)})},
      {"mem", K({lw(14, 0, 10), addi(14, 14, 1), sw(14, 0, 10)})},
      {"alt", K({andi(6, 9, 1), B(8, 0, 6, 0), addi(12, 12, 3)})},
      {"third", K({rem(6, 9, 15), B(8, 0, 6, 0), addi(12, 12, 5)})},
      {"taken", K({B(8, 0, 0, 0), addi(12, 12, 7)})},
      {"not", K({B(8, 0, 0, 1), addi(12, 12, 9)})},
      {"inner", K({addi(7, 0, 2), addi(12, 12, 1), addi(7, 7, -1), B(-8, 0, 7, 1)})},
      {"call", K({jalr(1, 11, 0)})},
      {"jal", [](u32 pc) { return Code{J(int(SUB - pc), 1)}; }},
      {"nest", K({jalr(1, 16, 0)})},
      {"rec", K({addi(7, 0, 4), jalr(1, 17, 0)})},
      {"ind", K({andi(6, 9, 1), slli(6, 6, 3), auipc(7, 0), add(7, 7, 6), jalr(0, 7, 12), addi(12, 12, 1), J(8, 0), addi(12, 12, 2)})},
      {"fencei", K({I_FENCE_I})},
      {"patch", K({andi(6, 9, 7), slli(6, 6, 20), add(6, 6, 19), auipc(7, 0), sw(6, 12, 7), I_FENCE_I, addi(12, 12, 0)})},
      {"patchfar", K({andi(6, 9, 3), slli(6, 6, 20), add(6, 6, 19), sw(6, 0, 18), I_FENCE_I, jalr(1, 18, 0)})},
      // the loads push the changed line out of the data cache while it is fetched
      {"patchev", K({andi(6, 9, 3), slli(6, 6, 20), add(6, 6, 19), sw(6, 0, 18), I_FENCE_I, add(8, 18, 23), lw(14, 0, 8), add(8, 8, 23), lw(14, 0, 8), add(8, 8, 23), lw(14, 0, 8),
                     add(8, 8, 23), lw(14, 0, 8), add(8, 8, 23), lw(14, 0, 8), jalr(1, 18, 0)})},
      {"usefar", K({jalr(1, 18, 0)})},
      {"chain", K({jalr(1, 21, 0)})},
      {"ecall", K({I_ECALL})},
      {"csr", K({csrrs(14, 0x340, 9)})},
  };
  return v;
}
static void lay(Case &c, u32 a, const Code &k) { for (size_t i = 0; i < k.size(); ++i) c.data.push_back({u32(a + 4 * i), k[i]}); }
static Case flow_case(const Els &els, const std::vector<int> &ix, int pad, int loops) {
  Case c;
  c.code = {addi(9, 0, loops)};
  for (int i = 0; i < pad; ++i) c.code.push_back(addi(12, 12, 1));
  u32 head = CODE + 4 * c.code.size();
  for (int i : ix) c.code = c.code + els[i].c(CODE + 4 * c.code.size());
  c.code.push_back(addi(9, 9, -1));
  u32 pc = CODE + 4 * c.code.size();
  c.code.push_back(B(int(head - pc), 0, 9, 1));
  c.code = c.code + Code{csrrs(20, 0x340, 0), J(0, 0)};
  c.pc = CODE;
  c.end = CODE + 4 * (c.code.size() - 1);
  lay(c, SUB, {addi(12, 12, 11), jalr(0, 1, 0)});
  lay(c, NEST, {addi(22, 1, 0), jalr(1, 11, 0), addi(1, 22, 0), jalr(0, 1, 0)});
  lay(c, REC, {addi(7, 7, -1), B(24, 0, 7, 0), sw(1, 0, 2), addi(2, 2, 4), J(-16, 1), addi(2, 2, -4), lw(1, 0, 2), jalr(0, 1, 0)});
  lay(c, PATCH, {addi(12, 12, 0), jalr(0, 1, 0)});
  for (int i = 0; i < 10; ++i) // ten lines of one set of the instruction cache
    lay(c, CHAIN + 0x1000 * i, {addi(12, 12, 1 << i), i < 9 ? J(0x1000 - 4, 0) : jalr(0, 1, 0)});
  lay(c, HANDLER, {csrrs(30, 0x341, 0), addi(30, 30, 4), csrrw(0, 0x341, 30), I_MRET});
  c.x[2] = DATA + 0x100; c.x[10] = DATA; c.x[11] = SUB; c.x[12] = 1; c.x[13] = 0x1234567; c.x[15] = 3;
  c.x[16] = NEST; c.x[17] = REC; c.x[18] = PATCH; c.x[19] = addi(12, 12, 0); c.x[21] = CHAIN; c.x[23] = 0x4000;
  c.csr[golden::MTVEC] = HANDLER;
  c.max_retired = 20000;
  return c;
}

// ------------------------------------------------------------ P13
constexpr u32 ROOT1 = 0x80020000u, ROOT2 = 0x80021000u, T1 = 0x80022000u, T2 = 0x80023000u, VA = 0x40000000u, PG = 0x80030000u, FN = 0x80040000u;
constexpr u32 USER = 0x00400000u; // user code runs at this distance from the physical code
static u32 pte(u32 pa, u32 flags) { return pa >> 12 << 10 | flags; }
constexpr u32 RW = 0xC7, RO = 0x43, RX = 0x4B, URW = 0xD7, XO = 0x49;
static const Els &space() {
  // x20..x23 virtual pages 0..3 (3 is a user page), x24 virtual function page,
  // x28 table entries of space 1 (x29: of space 2)
  static const Els v = {
      {"lw0", K({lw(14, 0, 20)})},
      {"sw0", K({sw(13, 0, 20)})},
      {"lw1", K({lw(15, 4, 21)})},
      {"sw1", K({sw(13, 4, 21)})},
      {"lwU", K({lw(14, 8, 23)})},
      {"amo0", K({amo(0, 15, 13, 20)})},
      {"fn", K({jalr(1, 24, 0)})},
      {"beq", K({B(8, 0, 14, 0), addi(12, 12, 3)})},
      {"map0", K({sw(2, 0, 28), I_SFENCE})},     // page 0 -> frame 5
      {"ro0", K({sw(3, 0, 28), I_SFENCE})},      // page 0 read only
      {"un0", K({sw(0, 0, 28), I_SFENCE})},      // page 0 unmapped
      {"mapf", K({sw(4, 16, 28), I_SFENCE})},    // function page -> second function
      {"xo1", K({sw(5, 4, 28), I_SFENCE})},      // page 1 execute only
      {"as2", K({csrrw(0, 0x180, 26)})},         // other space, other identifier
      {"as1", K({csrrw(0, 0x180, 27)})},
      {"same", K({csrrw(0, 0x180, 25), I_SFENCE})}, // other space, same identifier
      {"sum", K({csrrs(14, 0x100, 7)})},
      {"mxr", K({csrrs(14, 0x100, 8)})},
      {"sfence", K({I_SFENCE})},
  };
  return v;
}
static Case space_case(const std::vector<int> &ix, int loops, bool user = false) {
  Case c;
  const u32 base = CODE;
  c.code = {addi(9, 0, loops)};
  u32 head = base + 4 * c.code.size();
  for (int i : ix) c.code = c.code + space()[i].c(base + 4 * c.code.size());
  c.code.push_back(addi(9, 9, -1));
  c.code.push_back(B(int(head - (base + 4 * c.code.size())), 0, 9, 1));
  c.code = c.code + Code{csrrw(0, 0x180, 27), I_SFENCE, lw(16, 0, 20), lw(17, 4, 21), J(0, 0)};
  c.pc = base + (user ? USER : 0);
  c.end = c.pc + 4 * (c.code.size() - 1);
  c.priv = user ? 0 : 1;
  const u32 roots[2] = {ROOT1, ROOT2}, tabs[2] = {T1, T2};
  for (int s = 0; s < 2; ++s) {
    c.data.push_back({roots[s] + 4 * 0x200, pte(0x80000000u, 0xCF)}); // code and tables, supervisor
    c.data.push_back({roots[s] + 4 * 0x201, pte(0x80000000u, 0xDF)}); // the same, user
    c.data.push_back({roots[s] + 4 * 0x100, pte(tabs[s], 1)});
    for (u32 p = 0; p < 3; ++p) c.data.push_back({tabs[s] + 4 * p, pte(PG + 0x1000 * ((p + s) % 3), RW)});
    c.data.push_back({tabs[s] + 4 * 3, pte(PG + 0x3000 + 0x1000 * s, URW)});
    c.data.push_back({tabs[s] + 4 * 4, pte(FN + 0x1000 * s, RX)});
  }
  for (u32 p = 0; p < 8; ++p)
    for (u32 w = 0; w < 4; ++w) c.data.push_back({PG + 0x1000 * p + 4 * w, 0x1000 * (p + 1) + w});
  for (u32 f = 0; f < 3; ++f) lay(c, FN + 0x1000 * f, {addi(12, 12, 1 << f), jalr(0, 1, 0)});
  lay(c, HANDLER, {csrrs(30, 0x342, 0), addi(31, 0, 12), B(20, 31, 30, 0), csrrs(30, 0x341, 0), addi(30, 30, 4), csrrw(0, 0x341, 30), I_MRET,
                   csrrw(0, 0x341, 1), I_MRET});
  c.x[2] = pte(PG + 0x5000, RW); c.x[3] = pte(PG + 0x1000, RO); c.x[4] = pte(FN + 0x2000, RX); c.x[5] = pte(PG + 0x2000, XO);
  c.x[7] = 1u << 18; c.x[8] = 1u << 19; c.x[12] = 1; c.x[13] = 0x77; c.x[14] = 1;
  for (u32 p = 0; p < 5; ++p) c.x[20 + p] = VA + 0x1000 * p;
  c.x[26] = 1u << 31 | 2u << 22 | ROOT2 >> 12; c.x[27] = 1u << 31 | 1u << 22 | ROOT1 >> 12; c.x[25] = 1u << 31 | 1u << 22 | ROOT2 >> 12;
  c.x[28] = T1; c.x[29] = T2;
  c.csr[golden::SATP] = c.x[27];
  c.csr[golden::MTVEC] = HANDLER;
  c.max_retired = 20000;
  c.idle_bound = 1200;
  return c;
}
// one access of each kind under every flag byte of the leaf entry
static Case pte_case(u32 flags, bool super, int acc, int mode) {
  Case c = space_case({acc == 0 ? 0 : acc == 1 ? 1 : acc == 2 ? 6 : 5}, 2, mode >= 4);
  u32 frame = super ? 0x80000000u : acc == 2 ? FN : PG;
  if (super) {
    // page 0 becomes a superpage over physical memory from 0x80000000
    c.data.push_back({ROOT1 + 4 * 0x100, pte(frame, flags)});
    c.x[20] = VA + (PG - 0x80000000u);
    c.x[24] = VA + (FN - 0x80000000u);
  } else {
    c.data.push_back({T1 + 4 * (acc == 2 ? 4 : 0), pte(frame, flags)});
  }
  if (mode & 1) c.csr[golden::MSTATUS] |= 1u << 18;
  if (mode & 2) c.csr[golden::MSTATUS] |= 1u << 19;
  if (mode >= 4) c.code[c.code.size() - 5] = c.code[c.code.size() - 4] = I_NOP;
  if (mode >= 4) { c.x[20] |= 0; }
  return c;
}

// ------------------------------------------------------------ P16
// The same programs run in processes whose fresh memory - heap and stack -
// holds different contents and lies elsewhere; what can be observed of a run
// must not depend on it.
struct Seen { uint64_t trace, perf; u32 cycles, retired, done, _; };
static Seen *seen;              // what the execution at hand showed
static int fill = 0;
static __attribute__((noinline)) void fill_stack() {
  volatile unsigned char a[1 << 16];
  memset((void *)a, fill, sizeof a);
  asm volatile("" : : "r"(a) : "memory");
}
static void det_start() { fill_stack(); }
static void det_cycle() { fill_stack(); }
static void det_retire() {
  struct { u32 cyc, pc; } r = {run.cyc, dut_cpu.commit_pc};
  seen->trace = mc::hash_bytes(&r, sizeof r, seen->trace);
}
static void det_end() {
  const auto &q = cpu.ctx.perf;
  const uint64_t v[] = {q.cycle, q.commit_num, q.commit_load_num, q.commit_store_num, q.dcache_access_num, q.dcache_miss_num,
                        q.icache_access_num, q.icache_miss_num, q.cond_br_num, q.jalr_br_num, q.ret_br_num, q.cond_mispred_num,
                        q.jalr_mispred_num, q.ret_mispred_num, q.slots_issued, q.slots_backend_bound, q.slots_frontend_bound};
  seen->perf = mc::hash_bytes(v, sizeof v);
  seen->cycles = run.cyc;
  seen->retired = run.retired;
  seen->done = 1;
}

// ------------------------------------------------------------ P43
// Loops whose branches, jumps, calls and returns each do the same in every
// iteration: after the first iterations the core's redirections must stop.
constexpr u32 FN1 = CODE + 0x140, FN2 = FN1 + 0x14, FN3 = FN1 + 0x34, FN4 = FN1 + 0x44;
static const Els &fixed() {
  static const Els v = [] {
    Els r;
    for (const El &e : flow())
      for (const char *n : {"add", "mem", "taken", "not", "ecall", "csr"})
        if (e.n == n) r.push_back(e);
    r.push_back({"call", [](u32 pc) { return Code{J(int(FN1 - pc), 1)}; }});
    r.push_back({"nest", [](u32 pc) { return Code{J(int(FN2 - pc), 1)}; }});
    r.push_back({"other", [](u32 pc) { return Code{J(int(FN3 - pc), 1)}; }});
    r.push_back({"deep", [](u32 pc) { return Code{J(int(FN4 - pc), 1)}; }});
    r.push_back({"indirect", K({auipc(7, 0), jalr(0, 7, 12), addi(12, 12, 1)})});
    r.push_back({"jump", K({J(8, 0), addi(12, 12, 1)})});
    r.push_back({"two", K({B(8, 0, 0, 1), B(8, 0, 12, 1), addi(12, 12, 7)})});
    r.push_back({"twice", [](u32 pc) { return Code{J(int(FN1 - pc), 1), J(int(FN3 - pc - 4), 1)}; }});
    return r;
  }();
  return v;
}
// everything within one 512-byte window, so that no two branches share a place in a predictor
static Case fixed_case(const std::vector<int> &ix, int pad) {
  Case c = flow_case(fixed(), ix, pad, 80);
  lay(c, FN1, {addi(12, 12, 11), jalr(0, 1, 0)});
  lay(c, FN2, {addi(22, 1, 0), J(int(FN1 - FN2 - 4), 1), addi(1, 22, 0), jalr(0, 1, 0)});
  lay(c, FN3, {addi(12, 12, 5), addi(12, 12, 6), jalr(0, 1, 0)});
  for (u32 i = 0; i < 4; ++i) // four calls deep, then FN1
    lay(c, FN4 + 16 * i, {addi(24 + i, 1, 0), J(i < 3 ? 12 : int(FN1 - FN4 - 16 * i - 4), 1), addi(1, 24 + i, 0), jalr(0, 1, 0)});
  c.x[31] = CODE + 4 * (1 + pad); // the head of the loop
  return c;
}
constexpr int LEARN = 60, STEADY = 20, SELDOM = STEADY / 5;
static u32 head_pc, iter;
static uint64_t cond_at[LEARN + STEADY], jump_at[LEARN + STEADY];
static void learn_start() { head_pc = run.c->x[31]; iter = 0; }
static void learn_retire() {
  if (dut_cpu.commit_pc != head_pc || iter >= LEARN + STEADY) return;
  const auto &q = cpu.ctx.perf;
  cond_at[iter] = q.cond_mispred_num;
  jump_at[iter++] = q.jalr_mispred_num + q.ret_mispred_num;
}
static void learn_end() {
  if (iter < LEARN + STEADY) fail("harness", "the loop did not run");
  const uint64_t c = cond_at[LEARN + STEADY - 1] - cond_at[LEARN - 1], j = jump_at[LEARN + STEADY - 1] - jump_at[LEARN - 1];
  if (j) fail("jumps", mc::fmt("after %d iterations %llu calls, returns or jumps of %d further iterations are still mispredicted", LEARN, (unsigned long long)j, STEADY));
  if (c > SELDOM) fail("branches", mc::fmt("after %d iterations constant branches are mispredicted %llu times in %d further iterations", LEARN, (unsigned long long)c, STEADY));
}

// ------------------------------------------------------------ driver
struct Job { std::string name; uint64_t n; std::function<std::pair<std::string, Case>(uint64_t)> make; };
static Policy P(int rlat, int wlat, int acc) { Policy p; p.rlat = rlat; p.wlat = wlat; p.acc = acc; return p; }

// every program once per contents of fresh memory, each in a process of its own
static int compare_contents(int argc, char **argv, uint64_t total, std::function<std::string(uint64_t)> name) {
  static const int FILLS[] = {0x00, 0xFE, 0xA5, 0x01};
  const uint64_t NF = 4, NS = 8;
  Seen *all = (Seen *)mmap(nullptr, NF * total * sizeof(Seen), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  mc::parallel([&](int, int) {
    for (int64_t j; (j = mc::take(NF * NS)) >= 0;) {
      const int f = j / NS, part = j % NS;
      mc::current("contents %02x, part %d", FILLS[f], part);
      int fd[2];
      if (pipe(fd)) _exit(2);
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(fd[0]);
        if (fd[1] != 3) { dup2(fd[1], 3); close(fd[1]); }
        // glibc fills what malloc returns with the complement of this value
        setenv("GLIBC_TUNABLES", mc::fmt("glibc.malloc.perturb=%d", FILLS[f] ^ 0xFF).c_str(), 1);
        std::vector<std::string> a(argv, argv + argc);
        a.push_back("slice"); a.push_back(std::to_string(FILLS[f])); a.push_back(std::to_string(part)); a.push_back(std::to_string(NS));
        std::vector<char *> v;
        for (auto &s : a) v.push_back(&s[0]);
        v.push_back(nullptr);
        execv("/proc/self/exe", v.data());
        _exit(2);
      }
      close(fd[1]);
      for (uint64_t k = part; k < total; k += NS) {
        Seen s;
        size_t got = 0;
        while (got < sizeof s) {
          ssize_t n = read(fd[0], (char *)&s + got, sizeof s - got);
          if (n <= 0) break;
          got += n;
        }
        if (got < sizeof s) break;
        all[f * total + k] = s;
        mc::trans(s.cycles);
        mc::trace();
        mc::visit(mc::hash_bytes(&s, sizeof s, k));
        mc::beat();
      }
      close(fd[0]);
      int st = 0;
      waitpid(p, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) mc::count(1); // its executions show as not done
    }
  });
  for (uint64_t k = 0; k < total; ++k)
    for (uint64_t f = 1; f < NF; ++f) {
      const Seen &a = all[k], &b = all[f * total + k];
      if (a.done == b.done && a.trace == b.trace && a.perf == b.perf && a.cycles == b.cycles) continue;
      std::string nm = name(k);
      mc::violation("P16:depends on memory contents", nm,
                    mc::fmt("program %s: with fresh memory holding 00: %s, %u cycles, %u retired, timing %016llx, counters %016llx; holding %02x: %s, %u cycles, %u retired, timing "
                            "%016llx, counters %016llx", nm.c_str(), a.done ? "ends" : "does not end", a.cycles, a.retired, (unsigned long long)a.trace,
                            (unsigned long long)a.perf, FILLS[f], b.done ? "ends" : "does not end", b.cycles, b.retired, (unsigned long long)b.trace, (unsigned long long)b.perf));
    }
  return mc::report();
}

int main(int argc, char **argv) {
  prop = argc > 1 ? argv[1] : "P14";
  thorough = argc > 2 && !strcmp(argv[2], "thorough");
  // P16 <tier> <args> slice <contents> <part> <of>: one part of the programs in this process
  const bool slice = argc > 4 && !strcmp(argv[argc - 4], "slice");
  mc::init();
  if (prop != "P16" || slice) setup();
  std::vector<Job> jobs;
  auto seq = [&](std::string nm, const Els &els, int len, std::vector<Policy> pols, int budget, std::function<Case(const std::vector<int> &)> mk) {
    uint64_t n = pols.size();
    for (int i = 0; i < len; ++i) n *= els.size();
    const Els *E = &els;
    jobs.push_back({nm, n, [=](uint64_t k) {
      const Policy pol = pols[k % pols.size()];
      k /= pols.size();
      std::vector<int> ix;
      std::string s = nm + ":";
      for (int i = 0; i < len; ++i, k /= E->size()) {
        ix.push_back(k % E->size());
        s += (i ? "," : "") + (*E)[ix.back()].n;
      }
      Case c = mk(ix);
      c.pol = pol;
      c.budget = budget;
      return std::make_pair(s, c);
    }});
  };
  if (prop == "P16") {
    seq("loop2", flow(), 2, {P(0, 0, 0)}, 0, [](const std::vector<int> &ix) { return flow_case(flow(), ix, 13, 5); });
    seq("space2", space(), 2, {P(1, 1, 0)}, 0, [](const std::vector<int> &ix) { return space_case(ix, 2); });
    if (thorough) {
      seq("loop3", flow(), 3, {P(1, 0, 0)}, 0, [](const std::vector<int> &ix) { return flow_case(flow(), ix, 5, 5); });
      seq("space3", space(), 3, {P(0, 0, 0)}, 0, [](const std::vector<int> &ix) { return space_case(ix, 2); });
    }
  } else if (prop == "P43") {
    on_start = learn_start; on_retire = learn_retire; on_end = learn_end;
    for (int pad : {0, 13, 14, 15})
      seq(mc::fmt("fixed2 pad %d", pad), fixed(), 2, {P(0, 0, 0)}, 0, [pad](const std::vector<int> &ix) { return fixed_case(ix, pad); });
    seq("fixed3", fixed(), 3, {P(0, 0, 0)}, 0, [](const std::vector<int> &ix) { return fixed_case(ix, 5); });
    if (thorough) seq("fixed3 pad 14", fixed(), 3, {P(2, 1, 1)}, 0, [](const std::vector<int> &ix) { return fixed_case(ix, 14); });
  } else if (prop == "P14") {
    for (int pad : {0, 13, 14, 15})
      seq(mc::fmt("loop2 pad %d", pad), flow(), 2, {P(0, 0, 0), P(3, 2, 1)}, 0, [pad](const std::vector<int> &ix) { return flow_case(flow(), ix, pad, 9); });
    seq("loop3", flow(), 3, {P(1, 0, 0)}, 0, [](const std::vector<int> &ix) { return flow_case(flow(), ix, 5, 6); });
    seq("timing1", flow(), 1, {P(0, 0, 0)}, 1, [](const std::vector<int> &ix) { return flow_case(flow(), ix, 15, 4); });
    if (thorough) {
      seq("loop4", flow(), 4, {P(1, 1, 0)}, 0, [](const std::vector<int> &ix) { return flow_case(flow(), ix, 3, 5); });
      seq("timing2", flow(), 2, {P(0, 0, 0), P(2, 1, 1)}, 1, [](const std::vector<int> &ix) { return flow_case(flow(), ix, 15, 4); });
    }
  } else {
    seq("space3", space(), 3, {P(0, 0, 0)}, 0, [](const std::vector<int> &ix) { return space_case(ix, 2); });
    seq("space2", space(), 2, {P(3, 2, 1), P(1, 1, 0), P(0, 2, 1)}, 0, [](const std::vector<int> &ix) { return space_case(ix, 3); });
    seq("timing1", space(), 1, {P(0, 0, 0), P(2, 1, 1)}, 1, [](const std::vector<int> &ix) { return space_case(ix, 2); });
    jobs.push_back({"pte", 256u * 2 * 4 * 5, [](uint64_t k) {
      u32 f = k & 255; k >>= 8;
      bool sup = k & 1; k >>= 1;
      int acc = k & 3, mode = k >> 2;
      return std::make_pair(mc::fmt("pte flags %02x super %d access %d mode %d", f, sup, acc, mode), pte_case(f, sup, acc, mode));
    }});
    if (thorough) {
      seq("space4", space(), 4, {P(0, 0, 0)}, 0, [](const std::vector<int> &ix) { return space_case(ix, 2); });
      seq("timing2", space(), 2, {P(0, 0, 0)}, 1, [](const std::vector<int> &ix) { return space_case(ix, 2); });
    }
  }
  if (argc > 3 && !strcmp(argv[3], "lite")) { // second bus speed: without the longest families
    std::vector<Job> k;
    for (auto &f : jobs) if (f.name != "loop3" && f.name != "space3" && f.name != "loop4" && f.name != "space4") k.push_back(f);
    jobs = k;
  }
  if (const char *e = getenv("FAM")) {
    std::vector<Job> k;
    for (auto &f : jobs) if (f.name.rfind(e, 0) == 0) k.push_back(f);
    jobs = k;
  }
  uint64_t total = 0;
  std::vector<uint64_t> start;
  for (auto &f : jobs) { start.push_back(total); total += f.n; }
  const double t0 = mc::now();
  if (slice) {
    fill = atoi(argv[argc - 3]);
    const uint64_t part = atoi(argv[argc - 2]), of = atoi(argv[argc - 1]);
    seen = (Seen *)mmap(nullptr, sizeof *seen, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    on_start = det_start; on_cycle = det_cycle; on_retire = det_retire; on_end = det_end;
    for (uint64_t j = part; j < total; j += of) {
      size_t fi = jobs.size() - 1;
      while (start[fi] > j) --fi;
      auto r = jobs[fi].make(j - start[fi]);
      memset((void *)seen, 0, sizeof *seen);
      execute(r.second, r.first);
      if (write(3, seen, sizeof *seen) != sizeof *seen) return 2;
    }
    return 0;
  }
  if (prop == "P16") return compare_contents(argc, argv, total, [&](uint64_t j) {
    size_t fi = jobs.size() - 1;
    while (start[fi] > j) --fi;
    return jobs[fi].make(j - start[fi]).first;
  });
  mc::parallel([&](int, int) {
    for (int64_t j; (j = mc::take(total)) >= 0;) {
      size_t fi = jobs.size() - 1;
      while (start[fi] > (uint64_t)j) --fi;
      auto r = jobs[fi].make(j - start[fi]);
      execute(r.second, r.first);
    }
  });
  if (getenv("MC_TIME")) fprintf(stderr, "%.1f s\n", mc::now() - t0);
  return mc::report();
}
