#!/usr/bin/env python3
"""Writes one-line mutants of /repo/src as <out>/<file>-<line>-<k>.diff, a seeded sample of N per run.
usage: mutate.py OUT N SEED      (for tools/mutants.py; not used by any registered check)
"""
import os, random, re, subprocess, sys
out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
os.makedirs(out, exist_ok=True)
FILES = [f for f in subprocess.run(['git', '-C', '/repo', 'ls-files', 'src'], capture_output=True, text=True).stdout.split()
         if f not in ('src/lib.rs', 'src/err/mod.rs', 'src/math/matrix/err.rs', 'src/cvnn/mod.rs')]
SUB = [
  (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ', ' / ']), (r' / ', [' * ']),
  (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']), (r' \*= ', [' += ']), (r' /= ', [' *= ']),
  (r' > ', [' >= ', ' < ']), (r' < ', [' <= ', ' > ']), (r' >= ', [' > ']), (r' <= ', [' < ']),
  (r' == ', [' != ', ' >= ']), (r' != ', [' == ', ' > ', ' < ']), (r' \|\| ', [' && ']), (r' && ', [' || ']),
  (r'\[0\]', ['[1]']), (r'\[1\]', ['[0]']), (r'\.conj\(\)', ['']), (r'\.rev\(\)', ['']),
  (r'\.sin\(\)', ['.cos()']), (r'\.cos\(\)', ['.sin()']), (r'\.x\b', ['.y']), (r'\.y\b', ['.x']),
  (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bpadx\b', ['pady']), (r'\bpady\b', ['padx']),
  (r'\b0\.5\b', ['0.25', '1.0']), (r'\b2\.0\b', ['1.0', '2.1']), (r'\b1\.0\b', ['0.0', '1.01']), (r'\b0\.0\b', ['0.01']),
  (r'(?<![\w.\[])([1-9]\d*)(?![\w.\]])', ['+1', '-1']), (r'\.\.', ['..=']), (r'\.\.=', ['..']),
  (r'\.iter\(\)', ['.iter().rev()', '.iter().skip(1)']), (r'\.into_iter\(\)', ['.into_iter().rev()']),
  (r'\bleft\b', ['right']), (r'\bupper\b', ['bottom']), (r'f32\b', []), (r'if (?!let)(.+?) \{', ['NEG', 'TRUE', 'FALSE']),
  (r'\bpad\.0\b', ['pad.1']), (r'\bpad\.1\b', ['pad.0']), (r'\btrain_seed\b', ['test_seed']), (r'\btest_seed\b', ['train_seed']),
  (r'\bd_conj_activate\b', ['d_activate']), (r'\bd_activate\b', ['d_conj_activate']), (r'\bre\(\)', ['im()']), (r'\bnorm_sq\(\)', ['norm()']),
  (r'\bnorm\(\)', ['norm_sq()', 're()']), (r'\bmax\b', ['min']), (r'::iunit\(\)', ['::unit()']), (r'::unit\(\)', ['::iunit()']),
  (r'\bi \* self', ['(i + 1) * self']), (r'\blcgf32\(', []),
]
muts = []
for f in FILES:
  lines = open('/repo/' + f).read().split('\n')
  block = False
  for i, l in enumerate(lines):
    s = l.strip()
    if block:
      if '*/' in s: block = False
      continue
    if s.startswith('/*'):
      if '*/' not in s: block = True
      continue
    if not s or s.startswith(('//', '#', 'use ', 'pub use', 'impl', 'pub fn', 'fn ', 'pub struct', 'pub trait', 'mod ', 'pub mod')): continue
    code = re.sub(r'//.*', '', l)
    for pat, reps in SUB:
      for m in re.finditer(pat, code):
        for r in reps:
          if r in ('NEG', 'TRUE', 'FALSE'):
            c = m.group(1)
            new = {'NEG': f'if !({c}) {{', 'TRUE': 'if true {', 'FALSE': 'if false {'}[r]
          elif r in ('+1', '-1'): new = str(int(m.group(1)) + int(r))
          else: new = r
          t = l[:m.start()] + new + l[m.end():]
          if t != l: muts.append((f, i, t))
    # statement deletion
    if s.endswith(';') and not s.startswith(('let ', 'return', '}', 'type ', 'const ', 'let mut')) and s.count('(') == s.count(')') and s.count('{') == s.count('}'):
      muts.append((f, i, re.match(r'\s*', l).group(0) + ';' if False else ''))
    if s.startswith('if ') and 'return Err' in s and s.endswith('}'): muts.append((f, i, ''))
random.Random(seed).shuffle(muts)
print(len(muts), 'mutants in all')
for k, (f, i, t) in enumerate(muts[:n]):
  lines = open('/repo/' + f).read().split('\n')
  a, b = max(0, i - 3), min(len(lines), i + 4)
  if b == len(lines) and lines[-1] == '': b -= 1
  body = [' ' + x for x in lines[a:i]] + ['-' + lines[i]] + (['+' + t] if t.strip() else []) + [' ' + x for x in lines[i + 1:b]]
  na, nb = b - a, b - a - (0 if t.strip() else 1)
  name = f"{f[4:-3].replace('/', '.')}-{i+1}-{k}"
  end = '' 
  txt = f'--- a/{f}\n+++ b/{f}\n@@ -{a+1},{na} +{a+1},{nb} @@\n' + '\n'.join(body) + '\n'
  if b == len(lines): txt += '\\ No newline at end of file\n'
  open(f'{out}/{name}.diff', 'w').write(txt)
