#!/usr/bin/env python3
"""Runs checks against many changed copies of /repo, in scratch copies outside /repo and /verif.

usage: mutants.py [--workers N] [--scale S] [--checks C01,C02|auto|near|all|meta|prefix] [--keep-going] [--seed N] DIR...
Each DIR holds <name>.diff files (or <name>/patch.diff); a patch is applied to a copy of /repo,
the harness is built against it and the checks are run. Prints one line per patch with the
checks that reported a violation. Not used by any registered check.
"""
import argparse, os, re, shutil, subprocess, sys, threading, queue, json, time
ap = argparse.ArgumentParser()
ap.add_argument('--workers', type=int, default=4)
ap.add_argument('--scale', default='1')
ap.add_argument('--seed', default='1')
ap.add_argument('--checks', default='all')
ap.add_argument('--first', action='store_true', help='stop at the first violation')
ap.add_argument('--guided', default='on', choices=['on', 'off', 'only'], help='run the coverage-guided search after, not, or alone')
ap.add_argument('--verif', default='/verif', help='where the harness comes from')
ap.add_argument('--reverse', action='store_true')
ap.add_argument('--out', default='/root/scratch/result.jsonl')
ap.add_argument('--root', default='/root/scratch/mut')
ap.add_argument('paths', nargs='+')
a = ap.parse_args()
ALL = ['C%02d' % i for i in range(1, 37)]
# order in which checks are tried for a changed file
BY_FILE = {
  'src/act/': 'C03 C04 C11 C14 C33 C36',
  'src/opt/': 'C05 C06 C21 C18',
  'src/math/matrix/': 'C07 C08 C09 C10 C12 C15 C13 C18 C32',
  'src/math/cfloat/': 'C01 C02 C03 C04 C08 C22 C23',
  'src/math/random/': 'C22 C23 C27 C29',
  'src/math/mod.rs': 'C08 C22 C23 C24 C01 C02',
  'src/cvnn/layer/dense': 'C11 C14 C16 C18 C28 C23 C31',
  'src/cvnn/layer/conv': 'C12 C15 C16 C18 C28 C23 C31',
  'src/cvnn/layer/': 'C13 C16 C17 C18 C28 C30 C31',
  'src/cvnn/network': 'C17 C16 C18 C19 C21 C28 C32',
  'src/dataset/': 'C25 C26 C27 C24 C18',
  'src/init/': 'C23', 'src/input/': 'C16 C13 C17 C18 C25 C31', 'src/lib.rs': '', 'src/err/': '',
}
items = []
for p in map(os.path.abspath, a.paths):
  if os.path.isfile(p): items.append((os.path.basename(p)[:-5], os.path.abspath(p))); continue
  for n in sorted(os.listdir(p)):
    f = os.path.join(p, n)
    if n.endswith('.diff'): items.append((n[:-5], f))
    elif os.path.isfile(f + '/patch.diff'): items.append((n, f + '/patch.diff'))
root = a.root
os.makedirs(root, exist_ok=True)
ncpu = 8 // a.workers
q = queue.Queue()
for it in items: q.put(it)
lock = threading.Lock()
import fcntl
guard = open(root + '/lock', 'w')
fcntl.flock(guard, fcntl.LOCK_EX | fcntl.LOCK_NB)
out = open(a.out, 'a')

def sh(cmd, timeout=None, **kw):
  try:
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)
    return r.returncode, r.stdout
  except subprocess.TimeoutExpired as e:
    return 124, (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')

def worker(i):
  w = f'{root}/w{i}'
  os.makedirs(w, exist_ok=True)
  cpus = f'{i*ncpu}-{i*ncpu+ncpu-1}'
  repo, ver = w + '/repo', w + '/verif'
  sh(['rsync', '-a', '--delete', '--exclude', 'target', '/repo/', repo + '/']) if shutil.which('rsync') else None
  if not shutil.which('rsync'):
    if os.path.isdir(repo): shutil.rmtree(repo)
    shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('target'))
  sh(['git', '-C', repo, 'checkout', '-q', '--', '.'])
  os.makedirs(ver + '/harness', exist_ok=True)
  if os.path.isdir(ver + '/harness/src'): shutil.rmtree(ver + '/harness/src')
  if os.path.isdir(ver + '/harness/covrt'): shutil.rmtree(ver + '/harness/covrt')
  for d in ('src', 'covrt'): shutil.copytree(f'{a.verif}/harness/{d}', f'{ver}/harness/{d}')
  shutil.copy(a.verif + '/harness/Cargo.lock', ver + '/harness/Cargo.lock')
  shutil.copy(a.verif + '/harness/rustc-cov.sh', ver + '/harness/rustc-cov.sh')
  shutil.copy(a.verif + '/known-findings.txt', ver + '/known-findings.txt')
  t = open(a.verif + '/harness/Cargo.toml').read().replace('"/repo"', f'"{repo}"').replace('debug = 1', 'debug = 0')
  open(ver + '/harness/Cargo.toml', 'w').write(t)
  env = dict(os.environ, VERIF_DIR=ver, CARGO_TARGET_DIR=ver + '/target', CARGO_NET_OFFLINE='true',
             VERIF_SEED=a.seed, CASE_SCALE=a.scale, RAYON_NUM_THREADS=str(max(2, ncpu)))
  cov = dict(env, CARGO_TARGET_DIR=ver + '/target-cov', RUSTC_WRAPPER=ver + '/harness/rustc-cov.sh')
  if a.guided == 'on': env['GUIDED_CHECK'] = ver + '/target-cov/release/check'
  ts = ['taskset', '-c', cpus]
  while True:
    try: name, patch = q.get_nowait()
    except queue.Empty: return
    t0 = time.time()
    rec = {'name': name, 'patch': patch, 'scale': a.scale, 'seed': a.seed}
    rc, o = sh(['git', '-C', repo, 'apply'] + (['-R'] if a.reverse else []) + [patch])
    if rc: rec['state'] = 'noapply'
    else:
      files = re.findall(r'^\+\+\+ b/(\S+)', open(patch).read(), re.M)
      rc, o = 0, ''
      for e in ([] if a.guided == 'only' else [env]) + ([] if a.guided == 'off' else [cov]):
        if not rc: rc, o = sh(ts + ['cargo', 'build', '--release', '--offline', '--bin', 'check'], cwd=ver + '/harness', env=e)
      if rc:
        rec['state'] = 'nobuild'; rec['log'] = o[-600:]
      else:
        if a.checks == 'all': checks = list(ALL)
        elif a.checks in ('auto', 'near'):
          checks = []
          for f in files:
            for k, v in BY_FILE.items():
              if f.startswith(k): checks += v.split()
          checks = list(dict.fromkeys(checks + (ALL if a.checks == 'auto' or not checks else [])))
        elif a.checks == 'meta': checks = [json.load(open(os.path.dirname(patch) + '/meta.json'))['property']]
        elif a.checks == 'prefix': checks = [name.split('-')[0]]
        else: checks = a.checks.split(',')
        rec['state'] = 'survived'; rec['by'] = []; rec['err'] = []; rec['detail'] = {}
        for c in checks:
          if a.guided == 'only':
            rc, o = sh(ts + [ver + '/target-cov/release/check', 'guided', c, 'quick'], timeout=400, env=env, cwd=w)
            if rc == 0 and json.loads(o)['failure']: rc, o = 1, json.loads(o)['failure']['message']
          else: rc, o = sh(ts + [ver + '/target/release/check', c, 'quick'], timeout=400, env=env, cwd=w)
          if rc == 1:
            rec['by'].append(c); rec['state'] = 'killed'
            rec['detail'][c] = o[:400]
            if a.first: break
          elif rc != 0:
            rec['err'].append(f'{c}:{rc}'); rec['detail'][c] = o[-300:]
            if rec['state'] == 'survived': rec['state'] = 'error'
            if a.first: break
    sh(['git', '-C', repo, 'checkout', '-q', '--', '.'])
    rec['t'] = round(time.time() - t0, 1)
    with lock:
      out.write(json.dumps(rec) + '\n'); out.flush()
      print(name, rec['state'], ' '.join(rec.get('by', [])), ' '.join(rec.get('err', [])), rec['t'], flush=True)

ths = [threading.Thread(target=worker, args=(i,)) for i in range(a.workers)]
for t in ths: t.start()
for t in ths: t.join()
