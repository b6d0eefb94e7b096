// P36: guest physical memory (every history of writes, block copies and reads
// over boundary addresses), the image loader (every size around boundaries)
// and checkpoint restore (every truncation and read-error point, every header
// and layout mismatch, every register and window content).
// The compressed stream is supplied by this file, so a restore sees exactly
// the enumerated stream content and failure.
#include "PhysMemory.h"
#include "RISCV.h"
#include "SimCpu.h"
#include "diff.h"
#include "mc.h"
#include "oracle.h"
#include "ref.h"
#include <map>
#include <algorithm>
#include <functional>
#include <sys/stat.h>
#include <vector>
#include <zlib.h>

long long sim_time = 0;
static SimCpu cpu;
using mc::fmt;
static bool thorough = false;
constexpr uint32_t RAM = 0x80000000u;
constexpr uint64_t RSZ = 1ull << 30;

// --------------------------------------------------------- stream stand-in
// A stream is a list of segments: explicit bytes or a zero run with a few
// non-zero words in it.
struct Seg { std::vector<uint8_t> bytes; uint64_t zeros = 0; std::vector<std::pair<uint64_t, uint32_t>> words; uint64_t size() const { return bytes.size() + zeros; } };
static std::vector<Seg> stream;
static uint64_t spos, send; // read position, end of data
static bool fail_at_end;    // the decompressor reports an error there instead of end of file
static uint64_t max_read;   // a read returns at most so many bytes (0: no limit)
static int opened, missing;
extern "C" {
gzFile gzopen(const char *, const char *) { if (missing > 0) { --missing; return nullptr; } ++opened; return (gzFile)&stream; }
gzFile gzopen64(const char *p, const char *m) { return gzopen(p, m); }
int gzclose(gzFile) { --opened; return 0; }
int gzbuffer(gzFile, unsigned) { return 0; }
int gzeof(gzFile) { return spos >= send; }
int gzread(gzFile, void *dst, unsigned len) {
  uint64_t n = len;
  if (max_read && n > max_read) n = max_read;
  if (spos + n > send) {
    if (fail_at_end) return -1;
    n = send - spos;
  }
  uint8_t *d = (uint8_t *)dst;
  uint64_t base = 0, from = spos, to = spos + n;
  for (auto &s : stream) {
    uint64_t a = std::max(from, base), b = std::min(to, base + s.size());
    if (a < b) {
      if (s.zeros) {
        memset(d + (a - from), 0, b - a);
        for (auto &w : s.words) for (int i = 0; i < 4; ++i) {
          uint64_t p = base + w.first + i;
          if (p >= a && p < b) d[p - from] = uint8_t(w.second >> (8 * i));
        }
      } else memcpy(d + (a - from), &s.bytes[a - base], b - a);
    }
    base += s.size();
  }
  spos += n;
  return int(n);
}
size_t gzfread(void *p, size_t s, size_t n, gzFile f) { int r = gzread(f, p, unsigned(s * n)); return r < 0 ? 0 : size_t(r) / s; }
}

// runs fn in a child; true if the child left through the end of fn
static bool survives(const std::function<void()> &fn, bool *hang = nullptr) {
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(20);
    fn();
    _exit(77);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (hang) *hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
  return WIFEXITED(st) && WEXITSTATUS(st) == 77;
}

// ---------------------------------------------------------- physical memory
struct MemOp { int kind; uint32_t a; uint32_t v; }; // 0 write word, 1 copy in v bytes, 2 release and start again
static const uint32_t WORDS[] = {0x7ffffffcu, 0x80000000u, 0x80000004u, 0xbffffffcu, 0xc0000000u, 0u, 0x10000000u, 0x10000004u, 0xfffffffcu, 0x00001ffcu};
struct MemModel {
  std::map<uint32_t, uint8_t> b;
  uint32_t rd(uint32_t a) { a &= ~3u; uint32_t r = 0; for (int i = 0; i < 4; ++i) { auto it = b.find(a + i); if (it != b.end()) r |= uint32_t(it->second) << (8 * i); } return r; }
};
static void mem_histories(int first, int depth) {
  std::vector<MemOp> ops;
  for (uint32_t a : WORDS) { ops.push_back({0, a, 0x83726150u ^ a * 7u}); ops.push_back({0, a, 0}); }
  ops.push_back({0, 0x80000002u, 0x11223344u}); // the word containing the address
  ops.push_back({0, 0x10000003u, 0x55667788u});
  for (uint32_t n : {1u, 3u, 6u}) { ops.push_back({1, 0x80000000u, n}); ops.push_back({1, 0x80000001u, n}); ops.push_back({1, 0xc0000000u - n, n}); }
  const int N = int(ops.size());
  if (first >= N) return;
  const std::vector<uint32_t> probe = {0x7ffffff8u, 0x7ffffffcu, 0x80000000u, 0x80000004u, 0x80000008u, 0xbffffff8u, 0xbffffffcu, 0xc0000000u, 0xc0000004u, 0u, 4u, 0x10000000u, 0x10000004u, 0x10000008u, 0xfffffffcu, 0x00001ffcu, 0x00002000u, 0x40000000u};
  int ix[6] = {first};
  for (bool go = true; go;) {
    for (uint32_t a : probe) pmem_write(a, 0);
    MemModel m;
    for (int i = 0; i < depth; ++i) {
      const MemOp &o = ops[ix[i]];
      if (o.kind == 0) { pmem_write(o.a, o.v); for (int k = 0; k < 4; ++k) m.b[(o.a & ~3u) + k] = uint8_t(o.v >> (8 * k)); }
      else {
        uint8_t d[8];
        for (int k = 0; k < 8; ++k) d[k] = uint8_t(0x91 + 17 * k + ix[i]);
        pmem_memcpy_to_ram(o.a, d, o.v);
        for (uint32_t k = 0; k < o.v; ++k) m.b[o.a + k] = d[k];
      }
      mc::trans();
      auto hist = [&] { std::string s; for (int j = 0; j <= i; ++j) s += fmt("%s%s %08x %x", j ? "; " : "", ops[ix[j]].kind ? "copy" : "write", ops[ix[j]].a, ops[ix[j]].v); return s; };
      uint64_t h = 3;
      for (uint32_t a : probe) {
        uint32_t g = pmem_read(a), w = m.rd(a);
        h = mc::mix(h, g);
        if (g != w || pmem_read(a + 1) != w || pmem_read(a + 3) != w) { mc::violation("P36:memory", hist(), fmt("address %08x reads %08x, expected %08x, after %s", a, g, w, hist().c_str())); return; }
      }
      uint8_t back[8];
      for (uint32_t a : {0x80000000u, 0x80000001u, 0xbffffff8u}) {
        memset(back, 0xee, 8);
        pmem_memcpy_from_ram(back, a, 7);
        for (int k = 0; k < 7; ++k) if (back[k] != uint8_t(m.rd(a + k) >> (8 * ((a + k) & 3)))) { mc::violation("P36:copy out", hist(), fmt("byte %08x copied out as %02x after %s", a + k, back[k], hist().c_str())); return; }
        if (back[7] != 0xee) { mc::violation("P36:copy out", hist(), "copying out 7 bytes wrote an eighth"); return; }
      }
      mc::visit(h);
    }
    mc::trace();
    int k = depth - 1;
    while (k > 0 && ++ix[k] == N) ix[k--] = 0;
    go = k > 0;
  }
}
static void mem_bits() { // every address bit selects
  std::vector<uint32_t> base = {0x80000000u, 0x80001000u, 0x8aaaaaa8u, 0xbffffffcu, 0x00000000u, 0x10000000u, 0x0c201004u, 0x1fd0e008u, 0x55555554u, 0xfffffffcu};
  for (uint32_t a : base) {
    std::vector<uint32_t> nb;
    for (int k = 2; k < 32; ++k) nb.push_back(a ^ 1u << k);
    pmem_write(a, 0x5a5a1234u);
    for (uint32_t n : nb) if (pmem_read(n)) { mc::violation("P36:alias", fmt("%08x", a), fmt("writing %08x changed %08x", a, n)); return; }
    for (uint32_t n : nb) pmem_write(n, n ^ 0x01234567u);
    if (pmem_read(a) != 0x5a5a1234u) { mc::violation("P36:alias", fmt("%08x", a), fmt("writing addresses differing in one bit changed %08x", a)); return; }
    for (uint32_t n : nb) { if (pmem_read(n) != (n ^ 0x01234567u)) { mc::violation("P36:alias", fmt("%08x", n), fmt("%08x lost its value", n)); return; } mc::trans(); }
    for (uint32_t n : nb) pmem_write(n, 0);
    pmem_write(a, 0);
  }
  mc::trace();
}
static void mem_bounds() { // what counts as RAM, and what block copies accept
  struct { uint32_t a; uint64_t n; } cs[] = {{0x7fffffffu, 1}, {0x7fffffffu, 2}, {0x80000000u, 1}, {0x80000000u, 4}, {0x80000000u, RSZ}, {0x80000000u, RSZ + 1}, {0x80000001u, RSZ}, {0xbfffffffu, 1}, {0xbfffffffu, 2}, {0xbffffffcu, 4}, {0xbffffffdu, 4},
      {0xc0000000u, 1}, {0xfffffffcu, 4}, {0xffffffffu, 2}, {0u, 1}, {0x10000000u, 4}, {0x80000000u, 0x100000000ull}, {0x80000000u, 0x100000004ull}, {0x90000000u, 0xf0000000u}, {0x80000000u, 0xffffffffu}, {0x9fffffffu, 0x20000001u}, {0x9fffffffu, 0x20000002u}};
  for (auto &c : cs) {
    bool ok = c.n > 0 && c.a >= RAM && uint64_t(c.a) + c.n <= RAM + RSZ;
    if (c.n <= 0xffffffffu && pmem_is_ram_addr(c.a, uint32_t(c.n)) != ok) mc::violation("P36:is ram", fmt("%08x %llx", c.a, (unsigned long long)c.n), fmt("range %08x+%llx is%s taken for RAM", c.a, (unsigned long long)c.n, ok ? " not" : ""));
    for (int dir = 0; dir < 2; ++dir) {
      if (ok && c.n > 4096) continue; // legal large copies are covered by the loaders
      uint8_t buf[64] = {};
      bool s = survives([&] { if (dir) pmem_memcpy_from_ram(buf, c.a, c.n); else pmem_memcpy_to_ram(c.a, buf, c.n); });
      mc::trans();
      if (s != ok) mc::violation("P36:copy bounds", fmt("%s %08x %llx", dir ? "out" : "in", c.a, (unsigned long long)c.n), fmt("copy %s %08x+%llx is %s", dir ? "out of" : "into", c.a, (unsigned long long)c.n, s ? "accepted" : "rejected"));
    }
  }
  for (uint32_t a : {0u, 0x80000000u, 0xffffffffu}) if (pmem_is_ram_addr(a, 0)) mc::violation("P36:is ram", "empty", "an empty range counts as RAM");
  mc::trace();
}

static void mem_restart() { // a new start leaves nothing of the run before
  static const char *how[] = {"second initialisation", "clearing", "release and initialisation"};
  for (int k = 0; k < 3; ++k) {
    for (uint64_t a = RAM; a < RAM + RSZ; a += 1 << 20) { pmem_write(uint32_t(a) + 4 * (a >> 20 & 0x3f), uint32_t(a) | 1); pmem_write(uint32_t(a + (1 << 20) - 4), 7); }
    const uint32_t io[] = {0u, 0x10000000u, 0x0c201004u, 0x1fd0e008u, 0x7ffffffcu, 0xc0000000u, 0xfffffffcu};
    for (uint32_t a : io) pmem_write(a, ~a | 1);
    if (k == 2) pmem_release();
    if (k == 1) pmem_clear_all();
    else if (!pmem_init()) { mc::violation("P36:restart", how[k], "guest memory cannot be initialised again"); return; }
    mc::trans();
    for (uint32_t a : io) if (pmem_read(a)) { mc::violation("P36:restart", how[k], fmt("after %s address %08x still reads %08x", how[k], a, pmem_read(a))); return; }
    const uint64_t *w = reinterpret_cast<const uint64_t *>(pmem_ram_ptr());
    for (uint64_t i = 0; i < RSZ / 8; ++i) if (w[i]) { mc::violation("P36:restart", how[k], fmt("after %s address %08llx still reads %016llx", how[k], (unsigned long long)(RAM + 8 * i), (unsigned long long)w[i])); return; }
    mc::beat();
    mc::trace();
  }
  pmem_release();
}

// ------------------------------------------------------------------ images
static std::string dir;
static uint8_t img_byte(uint64_t i) { uint32_t h = uint32_t(i) * 2654435761u; return uint8_t(1 + (h >> 13) % 255); }
static void image_case(uint64_t size, int mode) { // mode 0: plain, 1: missing file, 2: hole-filled large file
  std::string f = dir + fmt("/img-%d", getpid());
  if (mode != 1) {
    FILE *o = fopen(f.c_str(), "wb");
    if (!o) { mc::violation("P36:scratch", f, "cannot create scratch file"); return; }
    if (mode == 0) { std::vector<uint8_t> d(size); for (uint64_t i = 0; i < size; ++i) d[i] = img_byte(i); fwrite(d.data(), 1, size, o); fclose(o); }
    else { fclose(o); if (truncate(f.c_str(), off_t(size))) {} FILE *e = fopen(f.c_str(), "r+b"); uint32_t t = 0x89abcdefu; fseek(e, long(size - 4), SEEK_SET); fwrite(&t, 4, 1, e); fclose(e); }
  }
  bool want = mode != 1 && size <= RSZ, hang = false;
  std::string why;
  int pfd[2];
  if (pipe(pfd)) return;
  bool got = survives([&] {
    sim_time = 0;
    pmem_init();
    cpu.init();
    cpu.back.load_image(f);
    auto *p = reinterpret_cast<uint8_t *>(pmem_ram_ptr());
    std::string w;
    if (mode == 0) {
      for (uint64_t i = 0; i < size && w.empty(); ++i) if (p[i] != img_byte(i)) w = fmt("byte %llu is %02x, expected %02x", (unsigned long long)i, p[i], img_byte(i));
      for (uint64_t i = size; i < size + 8192 && w.empty(); ++i) if (p[i]) w = fmt("byte %llu behind the image is %02x", (unsigned long long)i, p[i]);
    } else { uint32_t t; memcpy(&t, p + size - 4, 4); if (t != 0x89abcdefu) w = "the last word of the image is wrong"; }
    // the checker's copy
    CPU_state s{};
    uint8_t pr = 0;
    if (w.empty() && mode == 0 && size) {
      std::vector<uint8_t> keep(p, p + size + 64);
      memset(p, 0xcc, size + 64);
      get_state(s, pr);
      if (memcmp(p, keep.data(), keep.size())) w = "the reference's memory differs from the loaded image";
      if (w.empty() && s.pc != 0) w = "the reference does not start at the reset address";
    }
    struct { uint32_t a, v; } boot[] = {{0, 0xf1402573u}, {4, 0x83e005b7u}, {8, 0x800002b7u}, {12, 0x00028067u}, {0x10000004u, 0x6000u}, {16, 0}, {0x10000000u, 0}};
    for (auto &b : boot) if (w.empty() && pmem_read(b.a) != b.v) w = fmt("boot word %08x is %08x, expected %08x", b.a, pmem_read(b.a), b.v);
    if (!w.empty() && write(pfd[1], w.data(), w.size()) < 0) _exit(3);
  }, &hang);
  close(pfd[1]);
  char buf[300];
  ssize_t n = read(pfd[0], buf, sizeof buf);
  close(pfd[0]);
  if (n > 0) why.assign(buf, size_t(n));
  unlink(f.c_str());
  mc::trans();
  mc::trace();
  std::string id = fmt("image of %llu bytes%s", (unsigned long long)size, mode == 1 ? " (missing)" : "");
  if (got != want) mc::violation("P36:image " + std::string(want ? "refused" : "accepted"), id, id + (got ? " is accepted" : hang ? ": loading never ends" : " is refused"));
  else if (!why.empty()) mc::violation("P36:image content", id, id + ": " + why);
}

// ------------------------------------------------------------- checkpoints
struct IoWin { uint32_t base, size; };
struct Ck {
  uint32_t magic = 0x006d6552u; uint16_t ver = 2, priv = 1; uint32_t ram = uint32_t(RSZ), nio = 4;
  IoWin io[4] = {{0, 0x2000}, {0x10000000u, 0x100}, {0x0c000000u, 0x210000}, {0x1fd0e000u, 0x100}};
  uint32_t seed = 1;
  bool rv = true, st = false;
  uint64_t interval = 0x123456789abcull;
};
static uint32_t ckv(const Ck &c, int i) { uint32_t h = (c.seed * 977u + i) * 0x9E3779B1u; return h ^ h >> 16; }
static std::vector<std::pair<uint64_t, uint32_t>> ram_words(const Ck &c) {
  std::vector<std::pair<uint64_t, uint32_t>> w;
  int i = 1000;
  for (uint64_t a : {0ull, 4ull, 0xffcull, 0x1000ull, 0x3ffffffcull, 0x20000000ull, 0x1ffffffcull, 0x3ffff000ull, 0x12345678ull}) w.push_back({a, ckv(c, i++) | 1});
  return w;
}
static std::vector<std::pair<uint64_t, uint32_t>> io_words(const Ck &c, int k) {
  std::vector<std::pair<uint64_t, uint32_t>> w;
  uint32_t n = c.io[k].size & ~3u;
  int i = 2000 + 100 * k;
  for (uint64_t a : {0u, 4u, n / 2 & ~3u, n - 8, n - 4}) {
    bool dup = a + 4 > n;
    for (auto &p : w) dup |= p.first == a;
    if (!dup) w.push_back({a, ckv(c, i++) | 1});
  }
  return w;
}
static void build(const Ck &c) {
  stream.clear();
  auto put = [&](const void *p, size_t n) { Seg s; s.bytes.assign((const uint8_t *)p, (const uint8_t *)p + n); stream.push_back(s); };
  struct { uint32_t m; uint16_t v, p; uint32_t r, n; } h = {c.magic, c.ver, c.priv, c.ram, c.nio};
  put(&h, 16);
  struct { uint32_t gpr[32], csr[21], pc, sa, sd, ss; bool st, rv; uint32_t ra; } s;
  memset(&s, 0, sizeof s);
  for (int i = 1; i < 32; ++i) s.gpr[i] = ckv(c, i);
  for (int i = 0; i < 21; ++i) s.csr[i] = ckv(c, 50 + i);
  s.csr[18] &= 0x7fffffffu; // bare addressing: the saved pc needs no page table
  s.pc = 0x80000000u | (ckv(c, 80) & 0x00fffffcu);
  s.sa = ckv(c, 81); s.sd = ckv(c, 82); s.ss = 0xf;
  s.st = c.st; s.rv = c.rv; s.ra = ckv(c, 83) & ~3u;
  put(&s, sizeof s);
  put(&c.interval, 8);
  Seg r;
  r.zeros = RSZ;
  r.words = ram_words(c);
  stream.push_back(r);
  for (int k = 0; k < 4; ++k) {
    put(&c.io[k], 8);
    Seg z;
    z.zeros = c.io[k].size;
    z.words = io_words(c, k);
    if (z.zeros) stream.push_back(z);
  }
  spos = 0;
  send = 0;
  for (auto &x : stream) send += x.size();
}
struct Case { Ck c; int64_t cut = -1; bool err = false; bool accept = true; uint64_t chunk = 0; int missing = 0; std::string id; };
static void ckpt_case(const Case &k) {
  build(k.c);
  const Ck &c = k.c;
  fail_at_end = k.err;
  max_read = k.chunk;
  missing = k.missing;
  if (k.cut >= 0) send = uint64_t(k.cut);
  int pfd[2];
  if (pipe(pfd)) return;
  bool hang = false;
  bool got = survives([&] {
    pmem_init();
    cpu.init();
    // leftovers of an earlier run
    if (k.accept) {
      for (uint32_t a : {0x80000008u, 0xbffffff8u, 0x00001000u, 0x10000010u, 0x1fd0f000u, 0x40000000u}) pmem_write(a, 0xdddddddd);
    }
    cpu.back.restore_checkpoint("some-checkpoint");
    std::string w;
    auto eq = [&](const char *what, int i, uint32_t g, uint32_t x) { if (w.empty() && g != x) w = fmt("%s %d is %08x, saved %08x", what, i, g, x); };
    CPU_state rs{};
    uint8_t rp = 0xff;
    // what was put into memory
    for (auto &p : ram_words(c)) eq("RAM word offset", int(p.first), pmem_read(uint32_t(RAM + p.first)), p.second);
    for (uint32_t a : {0x80000008u, 0xbffffff8u, 0x80002000u, 0xa0000004u}) eq("RAM word (saved as zero)", int(a), pmem_read(a), 0);
    for (int j = 0; j < 4; ++j) for (auto &p : io_words(c, j)) eq("device word", int(c.io[j].base + p.first), pmem_read(uint32_t(c.io[j].base + p.first)), p.second);
    for (uint32_t a : {0x00001008u, 0x10000010u, 0x1fd0f000u, 0x40000000u}) { bool saved = false; for (int j = 0; j < 4; ++j) for (auto &p : io_words(c, j)) saved |= c.io[j].base + p.first == a; if (!saved) eq("device word (not saved)", int(a), pmem_read(a), 0); }
    auto regs = [&](const char *who, const uint32_t *g, const uint32_t *cs) {
      for (int i = 0; i < 32; ++i) eq((std::string(who) + " register").c_str(), i, g[i], i ? ckv(c, i) : 0);
      for (int i = 0; i < 21; ++i) eq((std::string(who) + " CSR").c_str(), i, cs[i], i == 18 ? ckv(c, 68) & 0x7fffffffu : ckv(c, 50 + i));
    };
    uint32_t pc = 0x80000000u | (ckv(c, 80) & 0x00fffffcu);
    auto core = [&](const char *who) {
      uint32_t g[32], s[21];
      for (int i = 0; i < 32; ++i) g[i] = cpu.back.prf->reg_file[i];
      for (int i = 0; i < 21; ++i) s[i] = cpu.back.csr->CSR_RegFile[i];
      regs(who, g, s);
      for (int i = 0; i < 32; ++i) g[i] = cpu.back.prf->reg_file_1[i];
      for (int i = 0; i < 21; ++i) s[i] = cpu.back.csr->CSR_RegFile_1[i];
      regs(who, g, s);
      eq("privilege", 0, cpu.back.csr->privilege, c.priv & 3);
      eq("privilege", 1, cpu.back.csr->privilege_1, c.priv & 3);
      eq("pc", 0, cpu.back.number_PC, pc);
      eq("redirect", 0, cpu.back.out.flush ? cpu.back.out.redirect_pc : 1, pc);
      eq("reservation valid", 0, cpu.back.lsu->cur.lrsc_unit.reserve_valid, c.rv);
      eq("reservation address", 0, cpu.back.lsu->cur.lrsc_unit.reserve_addr, ckv(c, 83) & ~3u);
    };
    core("core");
    eq("interval", 0, uint32_t(cpu.back.ckpt_interval_inst_count), uint32_t(c.interval));
    eq("interval", 1, uint32_t(uint64_t(cpu.back.ckpt_interval_inst_count) >> 32), uint32_t(c.interval >> 32));
    regs("checker mirror", dut_cpu.gpr, dut_cpu.csr);
    eq("checker mirror pc", 0, dut_cpu.pc, pc);
    // the reference's side, moved back into the core
    for (auto &p : ram_words(c)) pmem_write(uint32_t(RAM + p.first), 0x77777777);
    for (int j = 0; j < 4; ++j) for (auto &p : io_words(c, j)) pmem_write(uint32_t(c.io[j].base + p.first), 0x77777777);
    for (int i = 0; i < 32; ++i) cpu.back.prf->reg_file[i] = cpu.back.prf->reg_file_1[i] = 0x66666666;
    for (int i = 0; i < 21; ++i) cpu.back.csr->CSR_RegFile[i] = cpu.back.csr->CSR_RegFile_1[i] = 0x66666666;
    cpu.back.number_PC = 1; cpu.back.out.flush = false;
    cpu.back.restore_from_ref();
    core("core after hand-over");
    for (auto &p : ram_words(c)) eq("handed-over RAM word offset", int(p.first), pmem_read(uint32_t(RAM + p.first)), p.second);
    for (int j = 0; j < 4; ++j) for (auto &p : io_words(c, j)) if (p.first < 0x210000u && (j != 3 || p.first < 0x100)) eq("handed-over device word", int(c.io[j].base + p.first), pmem_read(uint32_t(c.io[j].base + p.first)), p.second);
    get_state(rs, rp);
    regs("reference", rs.gpr, rs.csr);
    eq("reference pc", 0, rs.pc, pc);
    eq("reference privilege", 0, rp, c.priv & 3);
    eq("reference reservation", 0, rs.reserve_valid ? rs.reserve_addr : 1, c.rv ? ckv(c, 83) & ~3u : 1);
    if (!w.empty() && write(pfd[1], w.data(), w.size()) < 0) _exit(3);
  }, &hang);
  close(pfd[1]);
  char buf[300];
  ssize_t n = read(pfd[0], buf, sizeof buf);
  close(pfd[0]);
  mc::trans();
  mc::trace();
  mc::visit(mc::hash_bytes(k.id.data(), k.id.size()));
  if (got != k.accept) mc::violation(fmt("P36:checkpoint %s", k.accept ? "refused" : "accepted"), k.id, "checkpoint (" + k.id + ")" + (got ? " is accepted" : hang ? ": restoring never ends" : " is refused"));
  else if (n > 0) mc::violation("P36:checkpoint content", k.id, "checkpoint (" + k.id + "): " + std::string(buf, size_t(n)));
}
static std::vector<Case> ckpt_cases() {
  std::vector<Case> v;
  auto add = [&](Case k, const std::string &id) { k.id = id; v.push_back(k); };
  const uint64_t HEAD = 16, STATE = 4 * (32 + 21 + 1 + 3) + 8, RAM0 = HEAD + STATE + 8;
  Ck d;
  // accepted: contents, modes, window sizes, read granularity
  for (int p : {0, 1, 3}) for (int r = 0; r < 2; ++r) { Case k; k.c.priv = uint16_t(p); k.c.rv = r; k.c.st = !r; k.c.seed = 10 + p * 2 + r; add(k, fmt("mode %d reservation %d", p, r)); }
  for (uint32_t n : {0u, 1u, 3u, 4u, 5u, 16u, 0xffu, 0x101u, 0x1000u}) { Case k; k.c.io[3].size = n; k.c.seed = 40 + n; add(k, fmt("timer window of %u bytes", n)); }
  for (uint64_t n : {1ull << 16, 0x3000001ull, 0x3fffffffull}) { Case k; k.chunk = n; k.c.seed = 77; add(k, fmt("read at most %llu bytes at a time", (unsigned long long)n)); }
  { Case k; k.c.interval = 0; k.c.seed = 78; add(k, "interval 0"); }
  { Case k; k.c.interval = ~0ull; k.c.seed = 79; add(k, "interval maximal"); }
  { Case k; k.missing = 1; k.c.seed = 80; add(k, "only present with the .gz suffix"); }
  // refused: header and layout
  auto rej = [&](const std::string &id, const std::function<void(Case &)> &f) { Case k; k.accept = false; f(k); add(k, id); };
  rej("file missing", [](Case &k) { k.missing = 9; });
  for (int b = 0; b < 32; ++b) rej(fmt("magic bit %d", b), [b](Case &k) { k.c.magic ^= 1u << b; });
  for (int b = 0; b < 16; ++b) rej(fmt("version bit %d", b), [b](Case &k) { k.c.ver ^= uint16_t(1u << b); });
  for (int b = 0; b < 32; ++b) rej(fmt("RAM size bit %d", b), [b](Case &k) { k.c.ram ^= 1u << b; });
  for (uint32_t n : {0u, 1u, 3u, 5u, 0x80000004u}) rej(fmt("window count %u", n), [n](Case &k) { k.c.nio = n; });
  // refused: every truncation and read error before the RAM content
  for (int e = 0; e < 2; ++e) for (uint64_t p = 0; p < RAM0; ++p) rej(fmt("%s at byte %llu", e ? "read error" : "end of file", (unsigned long long)p), [p, e](Case &k) { k.cut = int64_t(p); k.err = e; });
  // and inside RAM and the windows
  std::vector<uint64_t> cuts = {RAM0, RAM0 + 1, RAM0 + RSZ - 1, RAM0 + RSZ};
  uint64_t at = RAM0 + RSZ;
  for (int j = 0; j < 4; ++j) {
    for (uint64_t o : {1ull, 7ull, 8ull, 9ull, 8ull + d.io[j].size - 1}) cuts.push_back(at + o);
    at += 8 + d.io[j].size;
    if (j < 3) cuts.push_back(at);
  }
  for (int e = 0; e < 2; ++e) for (uint64_t p : cuts) rej(fmt("%s at byte %llu", e ? "read error" : "end of file", (unsigned long long)p), [p, e](Case &k) { k.cut = int64_t(p); k.err = e; });
  for (int j = 0; j < 4; ++j) {
    rej(fmt("window %d elsewhere", j), [j](Case &k) { k.c.io[j].base += 4; });
    if (j < 3) rej(fmt("window %d of another size", j), [j](Case &k) { k.c.io[j].size += 4; });
  }
  rej("windows swapped", [](Case &k) { std::swap(k.c.io[1], k.c.io[2]); });
  return v;
}

int main(int argc, char **argv) {
  thorough = argc > 2 && !strcmp(argv[2], "thorough");
  mc::init(1ull << 28);
  char t[] = "/tmp/verif-loader-XXXXXX";
  if (!mkdtemp(t)) return 2;
  dir = t;
  auto cases = ckpt_cases();
  std::vector<std::pair<uint64_t, int>> img;
  for (uint64_t s : {RSZ, RSZ + 1, RSZ + 4096, RSZ - 3}) img.push_back({s, 2});
  for (uint64_t s = 0; s < (thorough ? 300u : 70u); ++s) img.push_back({s, 0});
  for (uint64_t b : {4096ull, 8192ull, 65536ull, 1ull << 20}) for (int k = -2; k <= 2; ++k) img.push_back({b + k, 0});
  img.push_back({0, 1});
  const int MH = 31, depth = thorough ? 4 : 3;
  std::stable_sort(cases.begin(), cases.end(), [](const Case &a, const Case &b) { return a.accept > b.accept; });
  size_t total = cases.size() + img.size() + MH + 3;
  mc::parallel([&](int, int) {
    for (int64_t j; (j = mc::take(total)) >= 0;) {
      size_t i = size_t(j);
      if (i < cases.size()) { mc::current("checkpoint (%s)", cases[i].id.c_str()); ckpt_case(cases[i]); continue; }
      i -= cases.size();
      if (i < img.size()) { mc::current("image of %llu bytes", (unsigned long long)img[i].first); image_case(img[i].first, img[i].second); continue; }
      i -= img.size();
      if (!pmem_ram_ptr()) pmem_init();
      if (i == 0) { mc::current("address bits"); mem_bits(); }
      else if (i == 1) { mc::current("bounds"); mem_bounds(); }
      else if (i == 2) { mc::current("new start"); mem_restart(); }
      else { mc::current("memory histories %zu", i); mem_histories(int(i - 3), depth); }
    }
  });
  rmdir(dir.c_str());
  return mc::report({{"bounds", fmt("memory: all sequences of %d writes and copies over boundary words; images: every size 0..%d and around 4 KiB..1 MiB and RAM size; checkpoints: %zu streams incl. every truncation point before RAM", depth, thorough ? 299 : 69, cases.size())}});
}
