// C26: build configurations.  Every configuration (compiler x optimisation
// level x instruction set) is built from the working tree as a shared object;
// the harnesses of the functional checks C01..C20, with their own reference
// implementation as the oracle, are run against each of them.
#include <unistd.h>
#include <algorithm>
#include "vf.h"
using vf::Ctx; using vf::u64;
static std::vector<std::string> lines(const std::string &f) { std::vector<std::string> v; char b[512]; FILE *h = fopen(f.c_str(), "r"); while (h && fgets(b, 512, h)) { std::string s = b; while (!s.empty() && s.back() == '\n') s.pop_back(); if (!s.empty()) v.push_back(s); } if (h) fclose(h); return v; }
int main(int argc, char **argv) {
  vf::Check c; c.property = "C26"; c.level = "exploration"; bool T = vf::thorough();
  const char *root = getenv("VERIF_ROOT"); std::string R = root ? root : "/verif", B = R + "/build/C26";
  static std::vector<std::string> cfg = lines(B + "/configs"), sub; for (int i = 1; i <= 20; i++) { char b[8]; snprintf(b, 8, "c%02d", i); sub.push_back(b); }
  u64 cap = T ? 4000 : 60; const char *ov = getenv("C26_CAP"); if (ov) cap = atoi(ov);
  c.rule = "Every build configuration x every functional check: the harness of the check runs, against the reference implementation, the cases of each of its spaces (spaces of more than " + std::to_string(cap) + " cases: that many evenly spaced indices; sequence searches and digit-corner products fewer; the iterated functions and messages beyond 2^29 bytes are left out). Distinctness is per configuration.";
  c.assumptions = {"gcc 13 and clang 18 are the compilers at hand; configurations that need instructions this processor lacks cannot be run"};
  std::string tier = T ? "thorough" : "quick";
  for (u64 ci = 0; ci < cfg.size(); ci++) { std::string cf = cfg[ci]; c.sections.push_back({cf, "the cases of the 20 functional checks on the build " + cf, sub.size(), [=](Ctx &x, u64 i) {
    u64 j = (i + 3 * ci) % sub.size(); std::string s = sub[j], d = B + "/run/" + cf + "-" + s, id = "C" + s.substr(1);
    std::string cmd = "mkdir -p " + d + "/evidence; ln -sfn " + R + "/known " + d + "/known; VERIF_WORKERS=1 VERIF_TIER=quick VERIF_CAP=" + std::to_string(cap) + " VERIF_ROOT=" + d + " LD_LIBRARY_PATH=" + B + "/cfg/" + cf + " " + B + "/sub/" + s + " 2>&1; echo exit $?";
    x.about("%s on %s", id.c_str(), cf.c_str()); FILE *p = popen(cmd.c_str(), "r"); char b[4096]; std::vector<std::string> out; while (fgets(b, sizeof b, p)) out.push_back(b); pclose(p);
    unsigned long ev = 0, di = 0; int rc = -1; std::string why; for (auto &l : out) { unsigned long a, q; if (sscanf(l.c_str(), "C%*d: %lu executions judged, %lu distinct", &a, &q) == 2) ev = a, di = q; sscanf(l.c_str(), "exit %d", &rc); if (why.empty() && l.compare(0, 2, "  ") == 0) why = l.substr(2, 400); }
    x.eval(ev); x.distinct(di); x.count(("executions-" + id).c_str(), ev);
    if (rc == 1) x.fail(id, cf + ": " + why); else if (rc != 0) x.fail(id + "-no-result", cf + ": " + (out.empty() ? "" : out.back()) + (out.size() > 1 ? out[out.size() - 2] : ""));
    if (x.want_sample() && j % 7 == 0) x.sample(id + " on " + cf + ": " + std::to_string(ev) + " executions"); }}); }
  // Programs that contain the library and are optimised as a whole: every operation
  // by name, through an opaque pointer, and in the program that is not optimised.
  static std::vector<std::string> wp = lines(B + "/wp/list"); std::sort(wp.begin(), wp.end());
  if (!wp.empty()) c.sections.push_back({"whole-program", "programs containing the library, optimised as a whole: every operation inlined, called through a pointer, and not optimised", wp.size(), [=](Ctx &x, u64 i) {
    std::string n = wp[i].substr(0, wp[i].find(' ')), g = wp[i].substr(wp[i].find(' ') + 1), d = B + "/wp/";
    auto exec = [&](const std::string &e) { std::vector<std::string> o; FILE *p = popen((d + e + " 2>&1; echo exit $?").c_str(), "r"); char b[512]; while (fgets(b, sizeof b, p)) o.push_back(b); pclose(p); return o; };
    x.about("whole program %s", n.c_str()); auto o = exec(n), r = exec("gcc-O0-" + g); unsigned long ev = 0, di = 0, nops = 0; int bad = -1; bool differs = false;
    for (auto &l : o) { if (l.compare(0, 9, "MISMATCH ") == 0) { char op[64] = ""; sscanf(l.c_str(), "MISMATCH %63s", op); differs = true; x.fail(std::string("whole-program-") + op, n + ": " + l.substr(9)); } sscanf(l.c_str(), "DONE %lu %lu %lu %d", &ev, &di, &nops, &bad); }
    if (bad < 0) { x.fail("whole-program-no-result", n + ": " + (o.empty() ? "" : o.back()) + (o.size() > 1 ? o[o.size() - 2] : "")); return; }
    for (size_t k = 0; !differs && k < o.size() && k < r.size(); k++) if (o[k].compare(0, 6, "VALUE ") == 0 && o[k] != r[k]) { char op[64] = ""; sscanf(o[k].c_str(), "VALUE %63s", op); differs = true; x.fail(std::string("whole-program-") + op, n + ": " + op + " has another result than without optimisation"); }
    x.eval(3 * ev); x.distinct(di); x.count("executions-whole-program", 3 * ev); if (x.want_sample()) x.sample(n + ": " + std::to_string(nops) + " operations, " + std::to_string(ev) + " operand pairs each called by name, by pointer and without optimisation"); }});
  c.hang_s = T ? 3000 : 400;
  return vf::run(argc, argv, c);
}
