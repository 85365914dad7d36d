// Native interpretation of the harness interface, and the driver that runs
// harnesses on concrete values: random (seeded), or replayed from a tape.
#include <dlfcn.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <set>
#include <vector>
#include "verif.h"

namespace {
struct Shared {
  uint64_t iter, done, checks, assumed_away, covers, expected_aborts, distinct;
  char sample[3][512];
  int expect, cond, failed;
  char expect_label[128], fail_label[256];
  size_t tape_n;
  char tape[1 << 16];
};
Shared* sh;
std::mt19937_64 rng;
sigjmp_buf jb;
std::string hint_text;
bool have_hint = false;
std::vector<std::string> tape;  // replayed values
size_t tape_pos = 0;
bool replay = false;
std::vector<char*> to_free;
struct Reserve { Reserve() { to_free.reserve(1 << 14); } } reserve_;
uint64_t tape_hash;

void Record(const char* kind, const char* name, const char* val) {
  for (const char* p = val; *p; p++) tape_hash = (tape_hash ^ (unsigned char)*p) * 1099511628211ULL;
  tape_hash = (tape_hash ^ 10) * 1099511628211ULL;
  size_t n = strlen(kind) + strlen(name) + strlen(val) + 4;
  if (sh->tape_n + n < sizeof(sh->tape))
    sh->tape_n += (size_t)snprintf(sh->tape + sh->tape_n, sizeof(sh->tape) - sh->tape_n, "%s %s %s\n", kind, name, val);
}
const char* Next() {
  if (tape_pos < tape.size()) return tape[tape_pos++].c_str();
  return nullptr;
}
uint64_t R() { return rng(); }
uint64_t Interesting(uint32_t bits) {
  const uint64_t mask = bits == 64 ? ~0ULL : (1ULL << bits) - 1;
  switch (R() % 8) {
    case 0: case 1: case 2: return R() % 5;
    case 3: return (0 - R() % 4) & mask;
    case 4: return ((1ULL << (bits - 1)) + R() % 3 - 1) & mask;
    case 5: return ((1ULL << (R() % bits)) + R() % 3 - 1) & mask;
    default: return R() & mask;
  }
}
const char kAlphabet[] = "{}{}..ab01-AF_/ \n\"%";
std::string RandBytes(bool cstr) {
  std::string s;
  if (have_hint) {
    s = hint_text;
    const auto muts = R() % 4;
    for (uint64_t i = 0; i < muts && !s.empty(); i++) {
      const size_t p = R() % s.size();
      switch (R() % 6) {
        case 0: s.erase(p, 1); break;
        case 1: s.insert(p, 1, (char)R()); break;
        case 2: s[p] = (char)(s[p] ^ (1 << (R() % 8))); break;
        default: s[p] = kAlphabet[R() % (sizeof(kAlphabet) - 1)]; break;
      }
    }
  } else {
    static const size_t lens[] = {0, 1, 2, 3, 5, 8, 15, 16, 17, 31, 40, 64, 300};
    const size_t n = lens[R() % (R() % 4 ? 7 : 13)];
    for (size_t i = 0; i < n; i++)
      s.push_back(R() % 4 ? kAlphabet[R() % (sizeof(kAlphabet) - 1)] : (char)R());
  }
  if (cstr)
    for (auto& c : s) if (c == 0) c = 'z';
  have_hint = false;
  return s;
}
std::string Hex(const std::string& s) {
  std::string o;
  char b[4];
  for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); o += b; }
  return o.empty() ? "-" : o;
}
std::string UnHex(const char* h) {
  std::string o;
  if (h[0] == '-') return o;
  for (; h[0] && h[1]; h += 2) { unsigned v; sscanf(h, "%2x", &v); o.push_back((char)v); }
  return o;
}
size_t Bytes(const char** p, const char* name, bool cstr) {
  std::string s;
  if (replay) { const char* t = Next(); s = t ? UnHex(t) : std::string(); have_hint = false; }
  else s = RandBytes(cstr);
  Record("b", name, Hex(s).c_str());
  char* b = (char*)malloc(s.size() + (cstr ? 1 : 0));
  if (!s.empty()) memcpy(b, s.data(), s.size());
  if (cstr) b[s.size()] = 0;
  to_free.push_back(b);
  *p = b;
  return s.size();
}
void Fail(const char* label) {
  snprintf(sh->fail_label, sizeof sh->fail_label, "%s", label);
  sh->failed = 1;
  _exit(3);
}
}  // namespace

extern "C" {
uint64_t verif_any(uint32_t bits, const char* name) {
  uint64_t v;
  if (replay) { const char* t = Next(); v = t ? strtoull(t, nullptr, 10) : 0; }
  else v = Interesting(bits);
  char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)v);
  Record("i", name, b);
  return v;
}
double verif_any_double(const char* name) {
  uint64_t v;
  if (replay) { const char* t = Next(); v = t ? strtoull(t, nullptr, 10) : 0; }
  else {
    double d;
    static const double k[] = {0.0, -0.0, 0.5, -0.5, 1, -1, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0,
      2147483647.5, -2147483648.5, 9007199254740991.0, 9007199254740992.0, -9007199254740991.0, -9007199254740992.0, 4503599627370495.5,
      9007199254740993.0, 1e300, -1e300, 5e-324, 1e-17, 2.220446049250313e-16, 1.1102230246251565e-16, INFINITY, -INFINITY, NAN};
    switch (R() % 5) {
      case 0: d = k[R() % (sizeof k / sizeof *k)]; break;
      case 1: d = (double)(int64_t)Interesting(64); break;
      case 2: d = (double)(int32_t)Interesting(32) + (R() % 3 ? 0 : 0.25); break;
      case 3: d = k[R() % (sizeof k / sizeof *k)] + (double)(R() % 5) - 2; break;
      default: { uint64_t x = R(); memcpy(&d, &x, 8); }
    }
    memcpy(&v, &d, 8);
  }
  char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)v);
  Record("d", name, b);
  double d; memcpy(&d, &v, 8);
  return d;
}
void verif_assume(bool c) { if (!c) siglongjmp(jb, 1); }
__attribute__((no_sanitize("thread"))) void verif_check(bool c, const char* label) {
  sh->checks++;
  if (!c) Fail(label);
}
void verif_expect_abort(bool c, const char* label) {
  snprintf(sh->expect_label, sizeof sh->expect_label, "%s", label);
  sh->cond = c; sh->expect = 1;
}
void verif_end_expect() {
  sh->checks++;
  const bool c = sh->cond; sh->expect = 0; sh->cond = 0;
  if (c) { char b[200]; snprintf(b, sizeof b, "no abort where one is required: %.150s", sh->expect_label); Fail(b); }
}
void verif_cover(const char*) { sh->covers++; }
size_t verif_any_bytes(const char** p, const char* name) { return Bytes(p, name, false); }
size_t verif_any_cstr(const char** p, const char* name) { return Bytes(p, name, true); }
void verif_hint(const char* t, size_t n) { hint_text.assign(t, n); have_hint = true; }
bool verif_native() { return true; }
uint32_t verif_rand() { return (uint32_t)R(); }
// optional per-harness-file hook run before each iteration
void verif_reset() __attribute__((weak));
// optional: what distinguishes the last run (0: trivial), and the last run in words
uint64_t verif_run_key() __attribute__((weak));
void verif_run_text(char* p, size_t n) __attribute__((weak));
}

// native <harness> <seed> <iterations> <seconds> [tape]
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  const std::string name = std::string("harness_") + argv[1];
  auto fn = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, name.c_str()));
  if (!fn) { printf("NO-HARNESS %s\n", argv[1]); return 2; }
  const uint64_t seed = strtoull(argv[2], nullptr, 10), iters = strtoull(argv[3], nullptr, 10);
  const double secs = atof(argv[4]);
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (argc > 5) {
    replay = true;
    FILE* f = fopen(argv[5], "r");
    if (!f) return 2;
    static char line[1 << 16], k[8], nm[256], v[1 << 16];
    while (fgets(line, sizeof line, f))
      if (sscanf(line, "%7s %255s %65535s", k, nm, v) == 3) tape.push_back(v);
    fclose(f);
  }
  timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  char errname[] = "/tmp/verif_err_XXXXXX";
  const int efd = mkstemp(errname);
  unlink(errname);
  int bad = 0;
  while (sh->iter < iters) {
    (void)!ftruncate(efd, 0); lseek(efd, 0, SEEK_SET);
    fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0) {
      dup2(efd, 2);
      std::set<uint64_t> keys;
      for (; sh->iter < iters; sh->iter++) {
        timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        if ((double)(t.tv_sec - t0.tv_sec) + 1e-9 * (double)(t.tv_nsec - t0.tv_nsec) > secs && sh->iter > 20) _exit(4);
        rng.seed(seed * 1000003 + sh->iter);
        sh->tape_n = 0; sh->tape[0] = 0; sh->expect = 0; sh->cond = 0; tape_pos = 0; have_hint = false;
        tape_hash = 1469598103934665603ULL;
        if (verif_reset) verif_reset();
        alarm(60);
        if (sigsetjmp(jb, 0) == 0) {
          fn();
          sh->done++;
          if (verif_run_key) { const auto k = verif_run_key(); if (k && keys.insert(k).second) sh->distinct++; }
          if (verif_run_text && sh->iter < 3) verif_run_text(sh->sample[sh->iter], sizeof sh->sample[0]);
        }
        else sh->assumed_away++;
        alarm(0);
        for (auto p : to_free) free(p);
        to_free.clear();
      }
      _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 4)) break;
    if (!sh->failed && WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && sh->expect && sh->cond) {
      sh->expected_aborts++; sh->done++; sh->iter++; continue;
    }
    bad = 1;
    printf("FAIL harness=%s seed=%llu iteration=%llu\n", argv[1], (unsigned long long)seed, (unsigned long long)sh->iter);
    if (sh->failed) printf("violated: %s\n", sh->fail_label);
    else if (WIFSIGNALED(st)) printf("violated: process ended by signal %d%s%s\n", WTERMSIG(st), sh->expect ? " inside expectation " : "", sh->expect ? sh->expect_label : "");
    else printf("violated: process ended with status %d (sanitizer report)\n", WEXITSTATUS(st));
    printf("values:\n%s", sh->tape);
    char buf[6000]; lseek(efd, 0, SEEK_SET); const auto n = read(efd, buf, sizeof buf - 1);
    if (n > 0) { buf[n] = 0; printf("stderr:\n%s\n", buf); }
    break;
  }
  for (auto& t : sh->sample) if (t[0]) printf("SAMPLE %s\n", t);
  if (sh->distinct) printf("DISTINCT %llu\n", (unsigned long long)sh->distinct);
  printf("STATS done=%llu checks=%llu assumed_away=%llu expected_aborts=%llu\n", (unsigned long long)sh->done, (unsigned long long)sh->checks,
         (unsigned long long)sh->assumed_away, (unsigned long long)sh->expected_aborts);
  return bad;
}
