#include "vf.h"
#include <algorithm>
#include <cstdarg>
#include <map>
#include <set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace vf {

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

u64 hash_bytes(const void *p, size_t n, u64 seed) {
  const u8 *b = (const u8 *)p;
  u64 h = seed ^ 0x9E3779B97F4A7C15ull ^ (n * 0xff51afd7ed558ccdull);
  while (n >= 8) {
    u64 x;
    memcpy(&x, b, 8);
    h ^= x * 0xC2B2AE3D27D4EB4Full;
    h = (h << 31 | h >> 33) * 0x9E3779B185EBCA87ull;
    b += 8; n -= 8;
  }
  u64 x = 0;
  memcpy(&x, b, n);
  h ^= x * 0xC2B2AE3D27D4EB4Full;
  h ^= h >> 33; h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull;
  h ^= h >> 33;
  return h;
}

std::string hex(const void *p, size_t n) {
  static const char d[] = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; i++) { s += d[((const u8 *)p)[i] >> 4]; s += d[((const u8 *)p)[i] & 15]; }
  return s;
}
std::vector<u8> unhex(const std::string &s) {
  std::vector<u8> r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((u8)strtol(s.substr(i, 2).c_str(), 0, 16));
  return r;
}

bool thorough() {
  const char *t = getenv("VERIF_TIER");
  return t && !strcmp(t, "thorough");
}

struct Slot {              // shared with the parent
  volatile u64 section, idx, beat, evals;
  volatile u64 done, failed;
  char about[512];
};
struct Failure { u64 section, idx; int worker; std::string key, detail; };

struct Ctx::Impl {
  Slot *slot = nullptr;
  int worker = 0;
  std::vector<u64> seen;
  size_t uniq = 0;
  std::map<std::string, u64> counters;
  std::vector<Failure> fails;
  std::vector<std::string> samples;
  u64 section = 0, idx = 0;
  FILE *out = nullptr;
  u64 nfail = 0;
  void dedup() {
    std::sort(seen.begin(), seen.end());
    seen.erase(std::unique(seen.begin(), seen.end()), seen.end());
    uniq = seen.size();
  }
};

static std::string esc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

void Ctx::seen(u64 h) {
  im->seen.push_back(h);
  if (im->seen.size() > im->uniq * 2 + 4000000) im->dedup();
}
void Ctx::sample(const std::string &s) {
  if (samples_left > 0) { samples_left--; im->samples.push_back(s); }
}
void Ctx::count(const char *name, u64 n) { im->counters[name] += n; }
void Ctx::about(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  vsnprintf(im->slot->about, sizeof im->slot->about, fmt, ap);
  va_end(ap);
}
void Ctx::fail(const std::string &key, const std::string &detail) {
  im->nfail++;
  if (im->slot) im->slot->failed = 1;
  // keep at most 3 per key and 40 per worker
  int same = 0;
  for (auto &f : im->fails) same += f.key == key;
  if (same >= 3 || im->fails.size() >= 40) return;
  Failure f{im->section, im->idx, im->worker, key, detail};
  im->fails.push_back(f);
  if (im->out) {   // written at once, so that it survives a later crash
    std::string d = detail; for (char &c : d) if (c == '\n') c = ' ';
    fprintf(im->out, "F %lu %lu %s\t%s\n", (unsigned long)f.section, (unsigned long)f.idx, key.c_str(), d.c_str());
    fflush(im->out);
  }
}

static std::string tmpdir() {
  static std::string d;
  if (d.empty()) {
    char b[] = "/tmp/vfXXXXXX";
    if (!mkdtemp(b)) { perror("mkdtemp"); exit(2); }
    d = b;
  }
  return d;
}

static void worker_main(Check &c, int w, int W, Slot *slot, const std::string &file, u64 from_sec, u64 from_idx) {
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  Ctx ctx;
  Ctx::Impl im;
  ctx.im = &im;
  im.slot = slot;
  im.worker = w;
  im.out = fopen(file.c_str(), "a");
  for (u64 s = from_sec; s < c.sections.size(); s++) {
    Section &sec = c.sections[s];
    ctx.samples_left = w == 0 ? 2 : 0;
    im.section = s;
    u64 start = w;
    if (s == from_sec && from_idx) start = from_idx;
    for (u64 i = start; i < sec.n; i += W) {
      im.idx = i;
      slot->section = s; slot->idx = i; slot->beat++; slot->evals = ctx.evals;
      slot->about[0] = 0;
      sec.fn(ctx, i);
    }
    fprintf(im.out, "S %lu %lu\n", (unsigned long)s, (unsigned long)(sec.n));
  }
  slot->evals = ctx.evals;
  im.dedup();
  fprintf(im.out, "E %lu %lu %lu\n", (unsigned long)ctx.evals, (unsigned long)im.nfail, (unsigned long)ctx.distinct_n);
  for (auto &kv : im.counters) fprintf(im.out, "C %s %lu\n", kv.first.c_str(), (unsigned long)kv.second);
  for (auto &s : im.samples) { std::string d = s; for (char &ch : d) if (ch == '\n') ch = ' '; fprintf(im.out, "M %s\n", d.c_str()); }
  fclose(im.out);
  std::string sf = file + ".seen";
  FILE *f = fopen(sf.c_str(), "ab");
  if (im.seen.size()) fwrite(im.seen.data(), 8, im.seen.size(), f);
  fclose(f);
  slot->done = 1;
  _exit(0);
}

// runs one case alone in a child; returns 0 ok, 1 failed (text in out), 2 crash, 3 hang
static double hang_limit(const Check &c, u64 s) { double h = s < c.sections.size() ? c.sections[s].hang_s : 0; return h > 0 ? h : c.hang_s; }
// alone, a case gets three times as long (the machine may be busy), within what a check may take
static double replay_limit(const Check &c, u64 s) { double h = hang_limit(c, s); return h * 3 < 300 ? h * 3 : h < 300 ? 300 : h; }
static int run_one(Check &c, u64 s, u64 i, double limit, std::string &out, u64 hist_w = ~0ull, u64 W = 0) {
  int p[2];
  if (pipe(p)) exit(2);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    Ctx ctx; Ctx::Impl im; ctx.im = &im; ctx.replaying = true;
    Slot *sl = (Slot *)calloc(1, sizeof(Slot));
    im.slot = sl; im.section = s; im.idx = i;
    FILE *o = fdopen(p[1], "w");
    if (hist_w != ~0ull) {            // replay the worker's whole history
      for (u64 ss = 0; ss <= s; ss++)
        for (u64 k = hist_w; k < c.sections[ss].n && (ss < s || k <= i); k += W) {
          im.section = ss; im.idx = k;
          if (ss == s && k == i) im.fails.clear();
          c.sections[ss].fn(ctx, k);
        }
    } else c.sections[s].fn(ctx, i);
    for (auto &f : im.fails) if (f.section == s && f.idx == i) fprintf(o, "%s: %s\n", f.key.c_str(), f.detail.c_str());
    fflush(o);
    _exit(im.fails.empty() ? 0 : 1);
  }
  close(p[1]);
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  double t0 = now();
  int st; bool hung = false;
  for (;;) {
    char b[4096];
    ssize_t r = read(p[0], b, sizeof b);
    if (r > 0) { out.append(b, r); continue; }
    pid_t q = waitpid(pid, &st, WNOHANG);
    if (q == pid) break;
    if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
    usleep(2000);
  }
  char b[4096]; ssize_t r;
  while ((r = read(p[0], b, sizeof b)) > 0) out.append(b, r);
  close(p[0]);
  if (hung) return 3;
  if (WIFSIGNALED(st)) { char x[64]; snprintf(x, 64, "killed by signal %d", WTERMSIG(st)); out += x; return WTERMSIG(st) == SIGKILL ? 4 : 2; }
  return WEXITSTATUS(st) == 1 ? 1 : WEXITSTATUS(st) == 0 ? 0 : 2;
}

int run(int argc, char **argv, Check &c) {
  const char *root = getenv("VERIF_ROOT");
  std::string R = root ? root : "/verif";
  const char *seed = getenv("VERIF_SEED");
  if (getenv("VERIF_WORKERS")) c.workers = atoi(getenv("VERIF_WORKERS"));
  // Used by C26 only: keep at most so many evenly spaced indices of each section.
  if (const char *e = getenv("VERIF_CAP")) {
    u64 all = strtoull(e, 0, 10); std::vector<Section> keep;
    for (auto &s : c.sections) {
      u64 cap = s.name.compare(0, 9, "sequences") == 0 ? all / 16 + 1 : s.name.compare(0, 9, "mul-digit") == 0 ? all / 4 : s.name.compare(0, 8, "counter-") == 0 ? all / 16 + 1 : all;
      if (s.name.compare(0, 4, "huge") == 0 || s.name == "long-counter" || s.name.compare(0, 8, "iterated") == 0) continue;
      if (s.n > cap) { u64 n = s.n; auto f = s.fn; s.n = cap; s.fn = [=](Ctx &x, u64 i) { f(x, (u64)((unsigned __int128)i * n / cap)); }; }
      keep.push_back(s);
    }
    c.sections = keep;
  }
  if (argc >= 2 && !strcmp(argv[1], "--list")) {
    for (auto &s : c.sections) printf("%-28s %12lu  %s\n", s.name.c_str(), (unsigned long)s.n, s.what.c_str());
    return 0;
  }
  if (argc >= 2 && !strcmp(argv[1], "--only")) {   // development aid
    std::vector<Section> keep;
    for (auto &s : c.sections) if (s.name.find(argv[2]) != std::string::npos) keep.push_back(s);
    c.sections = keep;
  }
  if (argc >= 3 && !strcmp(argv[1], "--replay")) {
    FILE *f = fopen(argv[2], "r");
    if (!f) { perror(argv[2]); return 2; }
    char name[256] = ""; unsigned long idx = 0; long hw = -1, W = 0;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
      sscanf(line, "section %255s", name); sscanf(line, "index %lu", &idx);
      sscanf(line, "history worker %ld of %ld", &hw, &W);
    }
    fclose(f);
    for (u64 s = 0; s < c.sections.size(); s++)
      if (c.sections[s].name == name) {
        std::string out;
        int r = run_one(c, s, idx, 600, out, hw < 0 ? ~0ull : (u64)hw, W);
        printf("replay %s[%lu]: %s %s\n", name, idx, r == 0 ? "holds" : "VIOLATED", out.c_str());
        return r ? 1 : 0;
      }
    fprintf(stderr, "no section %s in this tier\n", name);
    return 2;
  }

  double t0 = now();
  int W = c.workers;
  Slot *slots = (Slot *)mmap(0, sizeof(Slot) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pid(W);
  std::vector<u64> lastbeat(W, ~0ull);
  std::vector<double> lastt(W, now());
  std::vector<int> restarts(W, 0);
  auto file = [&](int w) { return tmpdir() + "/w" + std::to_string(w); };
  std::vector<Failure> fails;
  std::vector<std::string> errors;
  bool capped = false;
  tmpdir();              // before any fork
  fflush(stdout);
  auto spawn = [&](int w, u64 s, u64 i) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) worker_main(c, w, W, &slots[w], file(w), s, i);
    pid[w] = p; lastt[w] = now(); lastbeat[w] = ~0ull;
  };
  for (int w = 0; w < W; w++) spawn(w, 0, 0);
  int alive = W;
  u64 lost_evals = 0;
  const bool first_only = getenv("VERIF_FIRST") != nullptr;   // used when measuring the checks against mutants
  while (alive) {
    usleep(20000);
    bool anyf = false; for (int w = 0; w < W; w++) anyf |= slots[w].failed;
    if (first_only && anyf) { capped = true; for (int v = 0; v < W; v++) if (pid[v]) { kill(pid[v], SIGKILL); waitpid(pid[v], nullptr, 0); pid[v] = 0; } break; }
    for (int w = 0; w < W; w++) {
      if (!pid[w]) continue;
      int st = 0;
      pid_t q = waitpid(pid[w], &st, WNOHANG);
      bool crash = false; std::string why;
      if (q == pid[w]) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w].done) { pid[w] = 0; alive--; continue; }
        crash = true;
        if (WIFSIGNALED(st)) {
          why = "killed by signal " + std::to_string(WTERMSIG(st));
          if (WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker ended by the system (memory?)\n"); errors.push_back("worker killed"); pid[w] = 0; alive--; continue; }
        } else why = "exited with " + std::to_string(WEXITSTATUS(st));
      } else {
        if (slots[w].beat != lastbeat[w]) { lastbeat[w] = slots[w].beat; lastt[w] = now(); }
        else if (now() - lastt[w] > hang_limit(c, slots[w].section)) {
          kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
          why = "did not return"; crash = true;
        }
      }
      if (crash) {
        u64 s = slots[w].section, i = slots[w].idx;
        lost_evals += slots[w].evals;
        Failure f{s, i, w, std::string("crash:") + c.sections[s].name, why + " in " + slots[w].about};
        std::string out;
        int r = run_one(c, s, i, replay_limit(c, s), out);
        if (r == 2) f.detail += " (" + out + " when replayed alone)";
        if (r == 3) { f.key = std::string("hang:") + c.sections[s].name; }
        if (why == "did not return" && r == 0) { /* slow machine, not a hang */ }
        else fails.push_back(f);
        pid[w] = 0; alive--;
        if (r == 3) {  // a confirmed hang: stop here rather than wait for each of its repetitions
          capped = true;
          for (int v = 0; v < W; v++) if (pid[v]) { kill(pid[v], SIGKILL); waitpid(pid[v], &st, 0); lost_evals += slots[v].evals; pid[v] = 0; alive--; }
          continue;
        }
        // carry on behind the failing case, a few times
        if (restarts[w]++ < 3) { slots[w].evals = 0; alive++; spawn(w, s, i + W); if (i + W >= c.sections[s].n) {} }
        else capped = true;
      }
    }
  }
  // merge
  u64 evals = lost_evals, nfail = 0, ndist = 0; int ended = 0;
  std::map<std::string, u64> counters;
  std::vector<std::string> samples;
  std::vector<u64> seen;
  for (int w = 0; w < W; w++) {
    FILE *f = fopen(file(w).c_str(), "r");
    if (f) {
      std::vector<char> line(1 << 20);
      while (fgets(line.data(), line.size(), f)) {
        std::string l = line.data();
        while (!l.empty() && l.back() == '\n') l.pop_back();
        if (l[0] == 'F') {
          unsigned long s, i; int off = 0;
          sscanf(l.c_str(), "F %lu %lu %n", &s, &i, &off);
          size_t tab = l.find('\t');
          fails.push_back({s, i, w, l.substr(off, tab - off), l.substr(tab + 1)});
        } else if (l[0] == 'E') {
          unsigned long a, b, d = 0; sscanf(l.c_str(), "E %lu %lu %lu", &a, &b, &d); evals += a; nfail += b; ndist += d; ended++;
        } else if (l[0] == 'C') {
          char n[200]; unsigned long v; sscanf(l.c_str(), "C %199s %lu", n, &v); counters[n] += v;
        } else if (l[0] == 'M') samples.push_back(l.substr(2));
      }
      fclose(f);
    }
    std::string sf = file(w) + ".seen";
    f = fopen(sf.c_str(), "rb");
    if (f) {
      fseek(f, 0, SEEK_END); size_t n = ftell(f) / 8; rewind(f);
      size_t o = seen.size(); seen.resize(o + n);
      if (n && fread(&seen[o], 8, n, f) != n) errors.push_back("read");
      fclose(f);
      unlink(sf.c_str());
    }
    unlink(file(w).c_str());
  }
  rmdir(tmpdir().c_str());
  std::sort(seen.begin(), seen.end());
  seen.erase(std::unique(seen.begin(), seen.end()), seen.end());
  if (ended < W && fails.empty()) errors.push_back("a worker left no result");
  if (!evals && fails.empty()) errors.push_back("nothing was executed");
  std::vector<std::pair<std::string, u64>> cv(counters.begin(), counters.end());
  std::vector<std::string> post_err;
  if (c.post && fails.empty()) c.post(cv, post_err);
  for (auto &e : post_err) errors.push_back(e);

  // known findings: lines "open property=<id> key=<key> ..." in known/findings.txt
  std::map<std::string, std::string> known;
  {
    FILE *f = fopen((R + "/known/findings.txt").c_str(), "r");
    if (f) {
      char line[8192];
      while (fgets(line, sizeof line, f)) {
        std::string l = line, pat = "open: property=" + c.property + " key=";
        if (l.compare(0, pat.size(), pat) == 0) {
          size_t e = l.find(' ', pat.size());
          std::string rest = e == std::string::npos ? "" : l.substr(e + 1);
          while (!rest.empty() && rest.back() == '\n') rest.pop_back();
          known[l.substr(pat.size(), e - pat.size())] = rest;
        }
      }
      fclose(f);
    }
  }
  std::set<std::string> printed;
  std::map<std::string, Failure> first;
  for (auto &f : fails) {
    auto it = first.find(f.key);
    if (it == first.end() || f.section < it->second.section ||
        (f.section == it->second.section && f.idx < it->second.idx)) first[f.key] = f;
  }
  int violations = 0;
  for (auto &kv : first) {
    Failure &f = kv.second;
    if (known.count(f.key)) {
      printf("KNOWN-FINDING: property=%s %s (%s)\n", c.property.c_str(), known[f.key].c_str(), f.key.c_str());
      continue;
    }
    violations++;
    if (violations > 8) continue;
    std::string out;
    int r = f.key.rfind("hang:", 0) == 0 ? 3 : run_one(c, f.section, f.idx, replay_limit(c, f.section), out);
    mkdir((R + "/replays").c_str(), 0755);
    std::string k = f.key; for (char &ch : k) if (!isalnum((u8)ch) && ch != '-' && ch != '.') ch = '_';
    if (k.size() > 80) k.resize(80);
    std::string path = R + "/replays/" + c.property + "-" + k + ".txt";
    FILE *o = fopen(path.c_str(), "w");
    if (o) {
      fprintf(o, "property %s\nsection %s\nindex %lu\ntier %s\nkey %s\ndetail %s\n", c.property.c_str(),
              c.sections[f.section].name.c_str(), (unsigned long)f.idx, thorough() ? "thorough" : "quick", f.key.c_str(), f.detail.c_str());
      if (r == 0) fprintf(o, "history worker %d of %d\nnote: fails only after the cases this worker ran before it\n", f.worker, W);
      else fprintf(o, "replayed alone: %s\n", out.c_str());
      fprintf(o, "rerun: VERIF_TIER=%s %s/bin/check %s --replay %s\n", thorough() ? "thorough" : "quick", R.c_str(), c.property.c_str(), path.c_str());
      fclose(o);
    }
    printf("  %s: %s\n", f.key.c_str(), f.detail.substr(0, 600).c_str());
    printf("VIOLATION property=%s replay=%s\n", c.property.c_str(), path.c_str());
  }
  double wall = now() - t0;
  // evidence
  mkdir((R + "/evidence").c_str(), 0755);
  std::string ev = R + "/evidence/" + c.property + ".json";
  FILE *o = fopen(ev.c_str(), "w");
  if (!o) { perror(ev.c_str()); return 2; }
  fprintf(o, "{\n \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %ld, \"level\": \"%s\",\n \"coverage\": {\n", c.property.c_str(),
          thorough() ? "thorough" : "quick", seed ? atol(seed) : 1, c.level.c_str());
  if (c.states_mode) {
    fprintf(o, "  \"states\": %lu, \"transitions\": %lu, \"traces_validated_against_impl\": %lu,\n", (unsigned long)(seen.size() + ndist), (unsigned long)evals,
            (unsigned long)(counters.count("traces") ? counters["traces"] : evals));
  } else
    fprintf(o, "  \"evaluations\": %lu, \"distinct_nontrivial\": %lu,\n", (unsigned long)evals, (unsigned long)(seen.size() + ndist));
  fprintf(o, "  \"rule\": \"%s\",\n", esc(c.rule).c_str());
  fprintf(o, "  \"exhaustive\": %s,\n", capped || !errors.empty() ? "false" : "true");
  fprintf(o, "  \"spaces\": [");
  for (size_t i = 0; i < c.sections.size(); i++)
    fprintf(o, "%s\n   {\"name\": \"%s\", \"cases\": %lu, \"what\": \"%s\"}", i ? "," : "", esc(c.sections[i].name).c_str(), (unsigned long)c.sections[i].n, esc(c.sections[i].what).c_str());
  fprintf(o, "\n  ],\n  \"counters\": {");
  for (size_t i = 0; i < cv.size(); i++) fprintf(o, "%s\"%s\": %lu", i ? ", " : "", esc(cv[i].first).c_str(), (unsigned long)cv[i].second);
  fprintf(o, "},\n  \"samples\": [");
  for (size_t i = 0; i < samples.size() && i < 24; i++) fprintf(o, "%s\n   \"%s\"", i ? "," : "", esc(samples[i].substr(0, 700)).c_str());
  fprintf(o, "\n  ]\n },\n \"assumptions\": [");
  for (size_t i = 0; i < c.assumptions.size(); i++) fprintf(o, "%s\"%s\"", i ? ", " : "", esc(c.assumptions[i]).c_str());
  fprintf(o, "],\n \"wall_s\": %.2f, \"violations\": %d\n}\n", wall, violations);
  fclose(o);
  printf("%s: %lu executions judged, %lu distinct, %zu sections, %d violations, %.1f s\n", c.property.c_str(), (unsigned long)evals, (unsigned long)(seen.size() + ndist), c.sections.size(), violations, wall);
  if (violations) return 1;
  if (!errors.empty()) { for (auto &e : errors) fprintf(stderr, "ERROR: %s\n", e.c_str()); return 2; }
  return 0;
}

}  // namespace vf
