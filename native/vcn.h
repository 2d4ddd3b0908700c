// vcn.h -- runs one property's oracle against the real code (real std::, absl,
// protobuf) on generated inputs. Used (a) to turn a failed proof obligation
// into a concrete failing input and (b) as the labelled bounded stand-in for
// what lies outside the contracts. Public API of the code under test only.
#ifndef VCN_H_
#define VCN_H_
#include <signal.h>
#include <unistd.h>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace vcn {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // inclusive
  int64_t in(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(next() % static_cast<uint64_t>(hi - lo + 1)); }
  bool coin() { return next() & 1; }
  bool one_in(int n) { return next() % n == 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // multiples of 2^-bits in [lo, hi]
  double dyadic(int lo, int hi, int bits) { return static_cast<double>(in(static_cast<int64_t>(lo) << bits, static_cast<int64_t>(hi) << bits)) / (1 << bits); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};
inline std::ostringstream& log_() { static std::ostringstream s; return s; }
inline std::string& out_path() { static std::string s; return s; }
inline std::string& label_() { static std::string s; return s; }
inline uint64_t& checks() { static uint64_t n = 0; return n; }
inline uint64_t& sig() { static uint64_t n = 0; return n; }      // shape signature of the case
inline bool& nontrivial() { static bool b = false; return b; }
inline void Sig(uint64_t x) { sig() = (sig() ^ x) * 0x100000001b3ull + 0x9E37; }
[[noreturn]] inline void Report(const char* what) {
  static bool once = false;
  if (once) _exit(1);
  once = true;
  std::string s = std::string("FAILED: ") + what + "\ncase: " + label_() + "\ninput:\n" + log_().str() + "\n";
  FILE* f = fopen(out_path().c_str(), "w");
  if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); }
  fprintf(stderr, "%s", s.substr(0, 4000).c_str());
  fflush(stderr);
  _exit(1);
}
inline void OnSignal(int n) {
  Report(n == SIGALRM ? "the call does not return (watchdog)" : n == SIGABRT ? "the code aborted (CHECK failure or abort)" : "the code crashed (memory fault or arithmetic trap)");
}
#define VCN_STR2(x) #x
#define VCN_STR(x) VCN_STR2(x)
#define REQUIRE(c, ...) do { ++::vcn::checks(); if (!(c)) { std::ostringstream vcn_o; vcn_o << #c << " [" << __VA_ARGS__ << "] at " << __FILE__ << ":" << __LINE__; ::vcn::Report(vcn_o.str().c_str()); } } while (0)
#define NOTE(...) do { ::vcn::log_() << __VA_ARGS__ << "\n"; } while (0)
struct Case { const char* name; std::function<void(Rng&)> f; };
inline std::vector<Case>& cases() { static std::vector<Case> v; return v; }
struct Reg { Reg(const char* n, std::function<void(Rng&)> f) { cases().push_back({n, f}); } };
#define VCN_CASE(name) static void vcn_case_##name(::vcn::Rng& rng); static ::vcn::Reg vcn_reg_##name(#name, vcn_case_##name); static void vcn_case_##name(::vcn::Rng& rng)
inline int Main(int argc, char** argv) {
  double seconds = 10; uint64_t seed = 1; long only = -1; std::string only_case; uint64_t max_iter = 1ull << 40;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--seconds") seconds = atof(argv[i + 1]);
    if (a == "--seed") seed = strtoull(argv[i + 1], nullptr, 10);
    if (a == "--out") out_path() = argv[i + 1];
    if (a == "--case") only_case = argv[i + 1];
    if (a == "--iter") only = atol(argv[i + 1]);
    if (a == "--max-iter") max_iter = strtoull(argv[i + 1], nullptr, 10);
  }
  for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) signal(s, OnSignal);
  auto t0 = std::chrono::steady_clock::now();
  auto now = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  uint64_t evals = 0; std::set<uint64_t> sigs; std::vector<std::string> samples;
  std::vector<uint64_t> per(cases().size(), 0);
  for (uint64_t it = 0; it < max_iter && (it == 0 || now() < seconds || only >= 0); ++it) {
    if (only >= 0) it = only;
    for (size_t c = 0; c < cases().size(); ++c) {
      if (!only_case.empty() && only_case != cases()[c].name) continue;
      uint64_t h = seed * 1000003 + it * 7919 + c * 104729;
      Rng rng(h);
      log_().str(""); log_().clear(); log_().precision(17);
      label_() = std::string(cases()[c].name) + " --seed " + std::to_string(seed) + " --iter " + std::to_string(it);
      sig() = c + 1; nontrivial() = false;
      alarm(150);
      cases()[c].f(rng);
      alarm(0);
      ++evals; ++per[c];
      if (nontrivial()) {
        if (sigs.size() < 2000000) sigs.insert(sig());
        if (per[c] <= 2 && samples.size() < 6) samples.push_back(label_() + ": " + log_().str().substr(0, 300));
      }
      if (now() > seconds && only < 0 && it > 0) break;
    }
    if (only >= 0) break;
  }
  printf("EVALS %" PRIu64 "\nCHECKS %" PRIu64 "\nDISTINCT %zu\nSECONDS %.2f\n", evals, checks(), sigs.size(), now());
  for (size_t c = 0; c < cases().size(); ++c) printf("PER %s %" PRIu64 "\n", cases()[c].name, per[c]);
  for (auto& s : samples) { for (auto& ch : s) if (ch == '\n') ch = ';'; printf("SAMPLE %s\n", s.c_str()); }
  return 0;
}
}  // namespace vcn
int main(int argc, char** argv) { return vcn::Main(argc, argv); }
#endif
