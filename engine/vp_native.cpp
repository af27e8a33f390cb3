// Native side of the harness API: runs harness functions on concrete inputs against the real code.
//   replay FN FILE            inputs one per line; exit 0 every CHECK held, 1 violated, 77 an ASSUME is false
//   trace  FILE               lines "FN<TAB>checkhash<TAB>in,in,..."; prints one line per mismatch, then "TRACES n bad m"
//   random FN SEED            pseudo-random inputs
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <exception>
#include <string>
#include <vector>
#include <csetjmp>
#include <dlfcn.h>
static std::vector<unsigned long long> vals; static std::size_t pos; static std::uint64_t rng; static bool rnd, quiet, assumed;
static int failed; static std::uint64_t trace; static std::jmp_buf jb;
static unsigned long long next() {
  if (rnd) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; std::uint64_t r = rng * 0x2545F4914F6CDD1DULL; std::uint64_t k = (r >> 60) & 7; return k < 3 ? (r & 3) : k < 5 ? (r & 15) : k == 5 ? (std::uint64_t)(0 - (r & 3)) : r; }
  return pos < vals.size() ? vals[pos++] : (pos++, 0); }
extern "C" {
std::uint8_t vp_nd_u8() noexcept { return (std::uint8_t)next(); }
std::uint16_t vp_nd_u16() noexcept { return (std::uint16_t)next(); }
std::uint32_t vp_nd_u32() noexcept { return (std::uint32_t)next(); }
std::uint64_t vp_nd_u64() noexcept { return next(); }
bool vp_fork(bool b) noexcept { return b; }
std::uint64_t vp_concrete(std::uint64_t x) noexcept { return x; }
void vp_assume(bool b) noexcept { if (!b) { assumed = true; std::longjmp(jb, 1); } }
void vp_assert(bool b, unsigned id) noexcept { if (id < 9000) trace = (trace ^ id) * 1099511628211ULL; if (!b) { if (!quiet) { std::printf("CHECK-FAILED line %u\n", id); std::fflush(stdout); } failed = 1; } }
}
static void once(const char* fn) {
  pos = 0; failed = 0; assumed = false; trace = 1469598103934665603ULL;
  void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, fn);
  if (!f) { std::printf("no function %s\n", fn); std::exit(3); }
  if (setjmp(jb)) return;
  try { f(); } catch (std::exception& e) { std::printf("UNCAUGHT exception %s\n", e.what()); failed = 1; } catch (...) { std::printf("UNCAUGHT exception\n"); failed = 1; }
}
int main(int argc, char** argv) {
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "trace" && argc > 2) {
    FILE* f = std::fopen(argv[2], "r"); if (!f) return 3; char* line = nullptr; std::size_t cap = 0; unsigned long n = 0, bad = 0; quiet = true;
    while (getline(&line, &cap, f) > 0) { char* t1 = std::strchr(line, '\t'); if (!t1) continue; *t1 = 0; char* t2 = std::strchr(t1 + 1, '\t'); if (!t2) continue; *t2 = 0; vals.clear();
      for (char* p = t2 + 1; *p && *p != '\n';) { vals.push_back(std::strtoull(p, &p, 10)); if (*p == ',') ++p; }
      once(line); n++;
      if (failed || assumed || trace != std::strtoull(t1 + 1, 0, 10) || pos != vals.size()) { bad++; std::printf("MISMATCH %s failed=%d assumed=%d trace=%d inputs %zu/%zu: %s", line, failed, (int)assumed, (int)(trace == std::strtoull(t1 + 1, 0, 10)), pos, vals.size(), t2 + 1); } }
    std::printf("TRACES %lu bad %lu\n", n, bad); return 0;
  }
  if (cmd == "random" && argc > 3) { rnd = true; rng = std::strtoull(argv[3], 0, 10) * 0x9E3779B97F4A7C15ULL + 1; for (int i = 0; i < 8; i++) next(); }
  else if (cmd == "replay" && argc > 3) { FILE* f = std::fopen(argv[3], "r"); if (!f) return 3; char line[256];
    while (std::fgets(line, sizeof line, f)) { if (line[0] == '#' || line[0] == '\n') continue; vals.push_back(std::strtoull(line, 0, 0)); } std::fclose(f); }
  else return 3;
  once(argv[2]);
  if (failed) { std::printf("REPLAY: violated\n"); return 1; }
  if (assumed) { std::printf("REPLAY: assumption false\n"); return 77; }
  std::printf("REPLAY: held\n");
  return 0;
}
