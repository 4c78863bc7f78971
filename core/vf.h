// Bounded-exhaustive exploration driver shared by all checks.
//
// A check is a list of sections.  A section is a finite, explicitly indexed
// space of cases [0,n) and a function deciding one case on the real code.
// The driver enumerates every index of every section (never samples), spreads
// them over W worker processes by index modulo W, survives crashes and hangs of
// the code under test, replays each reported case, and writes the evidence.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace vf {

typedef uint8_t u8;
typedef uint64_t u64;

u64 hash_bytes(const void *p, size_t n, u64 seed = 0);
std::string hex(const void *p, size_t n);
std::vector<u8> unhex(const std::string &s);

struct Ctx {
  u64 evals = 0;          // executions of the code under test that were judged
  int samples_left = 0;
  bool replaying = false;
  // an additional distinct, non-trivial case/state (deduplicated by hash)
  void seen(u64 h);
  // n further cases that are distinct by construction of the index space
  void distinct(u64 n) { distinct_n += n; }
  u64 distinct_n = 0;
  // record one more judged execution
  void eval(u64 n = 1) { evals += n; }
  // property violated; 'key' identifies the defect (stable), 'detail' the input
  void fail(const std::string &key, const std::string &detail);
  void sample(const std::string &s);
  bool want_sample() const { return samples_left > 0; }
  // extra named counters, summed over workers, reported in the evidence
  void count(const char *name, u64 n = 1);
  // description of the exact call about to be made (reported on crash/hang)
  void about(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  struct Impl;
  Impl *im = nullptr;
};

struct Section {
  std::string name;
  std::string what;  // what the space is
  u64 n;
  std::function<void(Ctx &, u64)> fn;
  double hang_s = 0;  // overrides Check::hang_s
};

struct Check {
  std::string property;
  std::string level = "exploration";
  std::string rule;                       // how cases are made / non-trivial
  std::vector<std::string> assumptions;
  std::vector<Section> sections;
  // called in the parent after the run with the merged counters; may fail
  std::function<void(std::vector<std::pair<std::string, u64>> &, std::vector<std::string> &errors)> post;
  bool states_mode = false;               // model_checking: report states/transitions
  int workers = 8;
  double hang_s = 60;
  bool isolate = false;                   // not used: kept for clarity
};

bool thorough();
int run(int argc, char **argv, Check &c);

// mixed radix decoding of an index
struct Dec {
  u64 i;
  explicit Dec(u64 i) : i(i) {}
  u64 operator()(u64 n) { u64 r = i % n; i /= n; return r; }
};

}  // namespace vf
