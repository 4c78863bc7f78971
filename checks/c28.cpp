// C28: the machine report states exactly what the processor announces, on every
// processor.  The processor is a model: every set of the twelve features the
// report is about, under several settings of all other feature bits; the
// compiled report runs against it (checks/c28.sh rewires its cpuid instructions).
#include <cpuid.h>
#include <stdio.h>
#include <sys/mman.h>
#include <unistd.h>
#include <functional>
#include "vf.h"
using vf::Ctx; using vf::u64; using vf::u8;
extern "C" { void machine_info(void); int vp_has(int); extern u64 vp_calls; void vp_emulate(unsigned *r); void vp_xcr(unsigned *r); }

enum Reg { LEAF1C, LEAF1D, LEAF7B };
struct Feature { const char *name; Reg reg; unsigned bit; };
static const Feature FT[12] = {{"CMOV", LEAF1D, 1u << 15}, {"SSE", LEAF1D, 1u << 25}, {"SSE2", LEAF1D, 1u << 26}, {"SSE3", LEAF1C, 1u << 0}, {"SSSE3", LEAF1C, 1u << 9}, {"SSE4_1", LEAF1C, 1u << 19}, {"SSE4_2", LEAF1C, 1u << 20}, {"AVX", LEAF1C, 1u << 28}, {"AVX2", LEAF7B, 1u << 5}, {"BMI", LEAF7B, 1u << 3}, {"BMI2", LEAF7B, 1u << 8}, {"ADX", LEAF7B, 1u << 19}};
static unsigned own(Reg r) { unsigned m = 0; for (auto &f : FT) if (f.reg == r) m |= f.bit; return m; }
// the modelled processor
static unsigned featmask, other_c, other_d, other_b, noise;
static bool sub0 = true;
extern "C" {
u64 vp_calls;
void vp_emulate(unsigned *r) {          // r = eax, ebx, ecx, edx
  unsigned leaf = r[0], sub = r[2]; vp_calls++;
  unsigned c = other_c & ~own(LEAF1C), d = other_d & ~own(LEAF1D), b = other_b & ~own(LEAF7B);
  c |= 1u << 27 | 1u << 26;             // the system has enabled the extended state
  for (int i = 0; i < 12; i++) if (featmask >> i & 1) (FT[i].reg == LEAF1C ? c : FT[i].reg == LEAF1D ? d : b) |= FT[i].bit;
  switch (leaf) {
    case 0: r[0] = 0x20; r[1] = 0x756e6547; r[2] = 0x6c65746e; r[3] = 0x49656e69; break;
    case 1: r[0] = 0x000306c3 ^ noise; r[1] = 0x00100800 ^ noise; r[2] = c; r[3] = d; break;
    case 7: if (sub == 0) { r[0] = 2; r[1] = b; r[2] = noise; r[3] = ~noise; } else { sub0 = false; r[0] = noise; r[1] = ~b; r[2] = noise; r[3] = noise; } break;
    case 0x80000000u: r[0] = 0x80000008; r[1] = r[2] = r[3] = 0; break;
    default: r[0] = r[1] = r[2] = r[3] = noise; }
}
void vp_xcr(unsigned *r) { r[0] = 0xe7; r[3] = 0; }
}
// every register but the four of the instruction survives; flags too
asm(".text\n"
    ".macro VP_EMU name, fn\n.globl \\name\n\\name:\n"
    "pushfq\npushq %rsi\npushq %rdi\npushq %r8\npushq %r9\npushq %r10\npushq %r11\npushq %rbp\n"
    "movq %rsp,%rbp\nsubq $16,%rsp\nmovl %eax,(%rsp)\nmovl %ebx,4(%rsp)\nmovl %ecx,8(%rsp)\nmovl %edx,12(%rsp)\n"
    "movq %rsp,%rdi\nandq $-64,%rsp\npushq %rdi\nsubq $8,%rsp\nsubq $512,%rsp\nandq $-64,%rsp\nfxsave (%rsp)\nmovq %rsp,%rbx\ncall \\fn\nmovq %rbx,%rsp\nfxrstor (%rsp)\n"
    "leaq -16(%rbp),%rdi\nmovl (%rdi),%eax\nmovl 4(%rdi),%ebx\nmovl 8(%rdi),%ecx\nmovl 12(%rdi),%edx\n"
    "movq %rbp,%rsp\npopq %rbp\npopq %r11\npopq %r10\npopq %r9\npopq %r8\npopq %rdi\npopq %rsi\npopfq\nret\n.endm\n"
    "VP_EMU vp_cpuid, vp_emulate\nVP_EMU vp_xgetbv, vp_xcr\n");

static std::string report() {
  static int fd = memfd_create("report", 0); fflush(stdout); if (ftruncate(fd, 0)) return ""; lseek(fd, 0, SEEK_SET); int keep = dup(1); dup2(fd, 1);
  machine_info(); fflush(stdout); dup2(keep, 1); close(keep); std::string s(lseek(fd, 0, SEEK_END), 0); if (pread(fd, &s[0], s.size(), 0) < 0) s.clear(); return s;
}
static bool is(char c) { return isalnum((unsigned char)c) || c == '_'; }
// the answer of the line about a feature: 1, 0, or -1 if there is none
static int answer(const std::string &s, const std::string &name, bool feature) {
  size_t at = 0; while (at < s.size()) { size_t e = s.find('\n', at); if (e == std::string::npos) e = s.size(); std::string l = s.substr(at, e - at); at = e + 1; size_t k = l.find(name); if (k == std::string::npos) continue;
    if (feature) { std::string pre = l.substr(0, k); if (pre != "" && pre != "bit_") continue; if (k + name.size() < l.size() && is(l[k + name.size()])) continue; }
    bool y = l.find("Yes", k) != std::string::npos, n = l.find("No", k) != std::string::npos; return y == n ? -1 : y; }
  return -1; }
static void judge(Ctx &x, u64 mask, int bg) {
  static const unsigned OC[] = {0, ~0u, 0x55555555, 0xaaaaaaaa, 0x7ffafbff, 0}; static const unsigned OD[] = {0, ~0u, 0xaaaaaaaa, 0x55555555, 0xbfebfbff, 0xbfebfbff}; static const unsigned OB[] = {0, ~0u, 0x55555555, 0xaaaaaaaa, 0x029c6fbf, 0};
  featmask = mask; other_c = OC[bg]; other_d = OD[bg]; other_b = OB[bg]; noise = bg & 1 ? ~0u : 0; sub0 = true;
  std::string on; for (int i = 0; i < 12; i++) if (mask >> i & 1) on += std::string(on.empty() ? "" : "+") + FT[i].name; std::string in = "processor with {" + on + "}, other feature bits pattern " + std::to_string(bg);
  x.about("%s", in.c_str()); u64 before = vp_calls; std::string s = report(); x.eval(); x.distinct(1);
  if (vp_calls == before) { x.count("model-not-consulted"); return; }
  for (int i = 0; i < 12; i++) { int a = answer(s, FT[i].name, true); if (a != (int)(mask >> i & 1)) x.fail(std::string("feature-") + FT[i].name, in + ": the report says " + (a < 0 ? "nothing" : a ? "Yes" : "No")); }
  int all = (mask & 0x7ff) == 0x7ff, v = answer(s, "supports our library", false); if (v != all) x.fail("verdict", in + ": supported? " + (v < 0 ? "no answer" : v ? "Yes" : "No"));
  for (int i = 0; i < 12; i++) { int h = vp_has(i); if (h < 0) { x.count("query-not-available"); break; } x.eval(); if ((h != 0) != (int)(mask >> i & 1)) x.fail(std::string("query-") + FT[i].name, in + ": the query answers " + std::to_string(h)); }
  if (x.want_sample()) x.sample(in + " -> " + (v ? "supported" : "not supported"));
}
// the machine the check runs on, through the real instruction
static void native(Ctx &x) {
  unsigned a, b = 0, c = 0, d = 0, e, f, g; __cpuid(1, a, e, c, d); __cpuid_count(7, 0, a, b, f, g); unsigned m = 0; for (int i = 0; i < 12; i++) if ((FT[i].reg == LEAF1C ? c : FT[i].reg == LEAF1D ? d : b) & FT[i].bit) m |= 1u << i;
  judge(x, m, 4);
}
int main(int argc, char **argv) {
  vf::Check c; c.property = "C28"; c.level = "model_checking"; c.states_mode = true;
  c.rule = "All 4096 subsets of the twelve features the report is about x 6 settings of every other bit the processor returns; each state of the modelled processor is put in front of the compiled report, whose cpuid instructions are rewired to the model.";
  c.assumptions = {"the processor has leaf 7 and the operating system has enabled the extended state", "the add-carry extensions are optional, the other eleven features are required"};
  c.sections.push_back({"processors", "4096 feature sets x 6 settings of the other bits", 4096 * 6, [=](Ctx &x, u64 i) { judge(x, i / 6, i % 6); }});
  c.sections.push_back({"this-processor", "the feature set of the machine the check runs on", 1, [=](Ctx &x, u64) { native(x); }});
  return vf::run(argc, argv, c);
}
