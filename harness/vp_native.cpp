// Native runtime of the harness interface: replays one concrete assignment on the compiled code.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <vector>

static std::vector<std::pair<char, std::uint64_t>> in;
static std::size_t pos = 0;
static bool exactMode = false;
static bool failed = false;
static double tolD = 1e-6, tolF = 5e-3;

static std::uint64_t next(const char* what) {
  if (pos >= in.size()) { std::printf("REPLAY input exhausted at %s\n", what); std::exit(failed ? 1 : 78); }
  return in[pos++].second;
}
extern "C" {
double vp_f64(const char* n) { auto b = next(n); double d; std::memcpy(&d, &b, 8); return d; }
float vp_f32(const char* n) { auto b = static_cast<std::uint32_t>(next(n)); float d; std::memcpy(&d, &b, 4); return d; }
std::int32_t vp_i32(const char* n) { return static_cast<std::int32_t>(next(n)); }
std::int64_t vp_i64(const char* n) { return static_cast<std::int64_t>(next(n)); }
std::int8_t vp_i8(const char* n) { return static_cast<std::int8_t>(next(n)); }
std::int32_t vp_choose(const char* n, std::int32_t) { return static_cast<std::int32_t>(next(n)); }
void vp_assume(bool c) { if (!c) { std::printf("REPLAY assumption-not-met\n"); std::exit(failed ? 1 : 77); } }
void vp_check(bool c, const char* id) { if (!c) { std::printf("REPLAY FAIL %s\n", id); failed = true; } }
std::int32_t vp_is_replay(void) { return 1; }
static void eq(double a, double b, double tol, const char* id) {
  if (a == b || (a != a && b != b)) return;
  if (!exactMode && std::abs(a - b) <= tol * (1.0 + std::fmax(std::abs(a), std::abs(b)))) return;
  std::printf("REPLAY FAIL %s: %.17g vs %.17g\n", id, a, b); failed = true;
}
static void le(double a, double b, double tol, const char* id) {
  if (a <= b) return;
  if (!exactMode && a - b <= tol * (1.0 + std::fmax(std::abs(a), std::abs(b)))) return;
  std::printf("REPLAY FAIL %s: %.17g > %.17g\n", id, a, b); failed = true;
}
void vp_eq_f64(double a, double b, const char* id) { eq(a, b, tolD, id); }
void vp_eq_f32(float a, float b, const char* id) { eq(a, b, tolF, id); }
void vp_le_f64(double a, double b, const char* id) { le(a, b, tolD, id); }
void vp_le_f32(float a, float b, const char* id) { le(a, b, tolF, id); }
}

int main(int argc, char** argv) {
  if (argc < 3) return 79;
  std::FILE* f = std::fopen(argv[2], "r");
  if (!f) return 79;
  char line[512];
  while (std::fgets(line, sizeof line, f)) {
    char t; unsigned long long v;
    if (line[0] == '#') continue;
    if (std::sscanf(line, "%c %llx", &t, &v) == 2) in.emplace_back(t, v);
  }
  std::fclose(f);
  exactMode = std::strncmp(argv[1], "vp_f", 4) == 0;
  void* h = dlopen(nullptr, RTLD_NOW);
  auto fn = reinterpret_cast<void (*)()>(dlsym(h, argv[1]));
  if (!fn) { std::printf("REPLAY no harness %s\n", argv[1]); return 79; }
  fn();
  std::printf(failed ? "REPLAY VIOLATED\n" : "REPLAY OK\n");
  return failed ? 1 : 0;
}
