#!/usr/bin/env python3
"""c23_probe.py IN.s OUT.s NAMES TAG BASE: puts a probe in front of every basic
block, every memory access, every division and every string instruction of
compiler-generated x86-64 assembly (AT&T syntax).  A probe reports one 64-bit
value - a block number, an effective address, an operand - to vf_probe and
preserves all registers, flags and the red zone.  NAMES gets, per block number,
the function it belongs to."""
import re, sys
src, out, names, tag, base = sys.argv[1:6]
base = int(base)
JCC = re.compile(r'^(j(?!mp)[a-z]+|loop[a-z]*)$')
PREFIX = {'rep', 'repz', 'repnz', 'repe', 'repne', 'lock', 'notrack', 'data16', 'bnd'}
STRING = re.compile(r'^(movs|stos|lods|scas|cmps)[bwlqd]?$')
MEM = re.compile(r'^\*?(.*)\((\s*%[^()]*|\s*,[^()]*)\)')
ENTER = '\tleaq -128(%rsp), %rsp\n\tpushq %rax\n'
LEAVE = '\tpopq %rax\n\tleaq 128(%rsp), %rsp\n'
def probe_lea(ea): return ENTER + '\tleaq ' + ea + ', %rax\n\tcall vf_probe\n' + LEAVE
def split_ops(s):
    r, d, cur = [], 0, ''
    for ch in s:
        if ch == '(': d += 1
        if ch == ')': d -= 1
        if ch == ',' and d == 0: r.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): r.append(cur.strip())
    return r
blocks = []
fn = '?'
def block():
    blocks.append(fn); n = base + len(blocks)
    return ENTER + '\tmovabsq $%d, %%rax\n\tcall vf_probe\n' % (0x7e57000000000000 + n) + LEAVE
def statements(line):
    """splits a line at ';' outside of quotes, drops comments"""
    r, cur, q = [], '', False
    for i, ch in enumerate(line):
        if ch == '"' and (i == 0 or line[i - 1] != '\\'): q = not q
        if not q and ch == '#': break
        if not q and ch == ';': r.append(cur); cur = ''
        else: cur += ch
    r.append(cur); return r
def probes(insn):
    m = re.match(r'^((?:(?:%s)\s+)*)([a-zA-Z][\w.]*)\s*(.*)$' % '|'.join(PREFIX), insn)
    if not m: return ''
    pre, op, rest = m.group(1), m.group(2).lower(), m.group(3)
    if STRING.match(op) and '%xmm' not in rest and '%ymm' not in rest:
        return probe_lea('(%rdi)') + probe_lea('(%rsi)') + probe_lea('(%rcx)')
    if op.startswith('lea') or op.startswith('nop') or op in ('endbr64', 'prefetch'): return ''
    p = ''
    for o in split_ops(re.sub(r'/\*.*?\*/', ' ', rest)):
        if '%fs:' in o or '%gs:' in o: continue
        mm = MEM.match(o)
        if mm:
            disp, regs = mm.group(1).strip(), mm.group(2).strip()
            parts = [x.strip() for x in regs.split(',')]
            if len(parts) > 1 and re.match(r'%[xyz]mm', parts[1]):
                v = parts[1]; n = {'x': 2, 'y': 4, 'z': 8}[v[1]]
                mv = 'vmovdqu64' if n == 8 or int(v[4:]) > 15 else 'vmovdqu'
                p += ENTER + '\t%s %s, vf_scratch(%%rip)\n' % (mv, v)
                for k in range(n): p += '\tmovq vf_scratch+%d(%%rip), %%rax\n\tcall vf_probe\n' % (8 * k)
                p += LEAVE; regs = parts[0]; mm_ea = disp + '(' + regs + ')' if regs else disp
                if not regs: continue
            if parts[0] == '%rsp': ea = ('136+' + disp if disp else '136') + '(' + regs + ')'
            else: ea = disp + '(' + regs + ')'
            p += probe_lea(ea)
    if re.match(r'^i?div[bwlq]$', op):  # latency depends on the operands
        o = rest.strip(); p += ENTER + '\tcall vf_probe\n' + LEAVE + probe_lea('(%rdx)')
        if re.match(r'^%r(\d+|[a-z]+)$', o) and o != '%rsp': p += probe_lea('(%s)' % o)
    return p
text = False
res = []
pend = ''
prevtext = [False]
for line in open(src, errors='replace'):
    line = line.rstrip('\n'); o = []
    for st in statements(line):
        s = st.strip()
        while True:
            m = re.match(r'^([\w.$]+):\s*(.*)$', s)
            if not m: break
            lab, s = m.group(1), m.group(2)
            if text and not lab.startswith('.L') and not lab[0].isdigit(): fn = lab
            o.append(lab + ':')
            if text and not (lab.startswith('.LF') or lab.startswith('.LV')or lab.startswith('.Lfunc_')): pend = block()
        if not s: continue
        if s.startswith('.'):
            d = s.split()
            if d[0] in ('.text',): text = True
            elif d[0] in ('.data', '.bss'): text = False
            elif d[0] in ('.section', '.pushsection'):
                if d[0] == '.pushsection': prevtext.append(text)
                text = d[1].startswith('.text') or ',"ax' in s.replace(' ', '')
            elif d[0] == '.popsection': text = prevtext.pop()
            o.append('\t' + s); continue
        if not text: o.append('\t' + s); continue
        if s in PREFIX: o.append(s + ' '); continue
        if o and o[-1].strip() in PREFIX: s = o.pop().strip() + ' ' + s
        if pend: o.append(pend); pend = ''
        pr = probes(s)
        if pr: o.append(pr)
        o.append('\t' + s)
        if JCC.match(s.split()[0]): pend = block()
    res.append('\n'.join(o))
open(out, 'w').write('\n'.join(res) + '\n')
open(names, 'w').write(''.join('%d %s\n' % (base + i + 1, n) for i, n in enumerate(blocks)))
