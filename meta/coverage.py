"""Line coverage of /repo by the checks: python3 meta/coverage.py [Cnn ...]
Builds with clang's coverage instrumentation in /tmp/cov, runs every check (fewer cases), writes
/tmp/cov/lines.json {file: {line: [checks]}} and prints, per file, lines no check executes."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
os.environ['VERIF_BUILD'] = '/tmp/cov/build'; os.environ.setdefault('VERIF_REPO', '/repo')
sys.path.insert(0, '/verif/engine'); sys.argv, args = sys.argv[:1], sys.argv[1:]
import build as B, glob
B.FLAVOURS['cov'] = dict(cc='clang', cxx='clang++', flags=['-O0', '-g1', '-fprofile-instr-generate', '-fcoverage-mapping'])
open('/tmp/cov/w.c', 'w').write('#include <stdlib.h>\nvoid __wrap__exit(int s) { exit(s); }\n')
subprocess.check_call('clang -c /tmp/cov/w.c -o /tmp/cov/w.o', shell=True)
B.LIBS += ['/tmp/cov/w.o', '-Wl,--wrap=_exit']
names = {os.path.basename(f)[:3]: os.path.basename(f)[:-4] for f in sorted(glob.glob('/verif/harness/C??_*.cpp'))}
pids = args or sorted(names)
exe = B.build([names[p] for p in pids], 'cov')
N = os.environ.get('COV_CASES', '3000')
for p in pids:
    w = '/tmp/cov/w' + p; os.makedirs(w, exist_ok=True)
    raw = '/tmp/cov/%s-%%m.profraw' % p
    for f in glob.glob('/tmp/cov/%s-*.prof*' % p): os.unlink(f)
    r = subprocess.run([exe[names[p]], 'run', '--tier', 'quick', '--seed', '1', '--work', w, '--out', w + '/o.json', '--cases', N], env=dict(os.environ, LLVM_PROFILE_FILE=raw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    print(p, r.returncode, r.stdout[-200:].strip(), flush=True)
    subprocess.run(['rm', '-rf', w])
    subprocess.check_call('llvm-profdata merge -o /tmp/cov/%s.profdata /tmp/cov/%s-*.profraw' % (p, p), shell=True)


def export(p):
    out = subprocess.run(['llvm-cov', 'export', exe[names[p]], '-instr-profile=/tmp/cov/%s.profdata' % p, '-format=lcov'], stdout=subprocess.PIPE, text=True).stdout
    res, f = {}, None
    for l in out.splitlines():
        if l.startswith('SF:'): f = l[3:]
        elif l.startswith('DA:') and f.startswith(B.REPO + '/opm'):
            n, k = l[3:].split(',')[:2]
            d = res.setdefault(f[len(B.REPO) + 1:], {}); d[int(n)] = max(d.get(int(n), 0), int(k))
    return p, res


old = {}
if args and os.path.exists('/tmp/cov/lines.json'): old = json.load(open('/tmp/cov/lines.json'))
lines = {f: {int(n): [p for p in ps if p not in pids] for n, ps in d.items()} for f, d in old.items()}
with ThreadPoolExecutor(8) as ex:
    for p, res in ex.map(export, pids):
        for f, d in res.items():
            for n, k in d.items():
                v = lines.setdefault(f, {}).setdefault(n, [])
                if k: v.append(p)
json.dump(lines, open('/tmp/cov/lines.json', 'w'))
for f in sorted(lines):
    miss = sorted(n for n, v in lines[f].items() if not v)
    if not miss: continue
    r, a = [], miss[0]
    for x, y in zip(miss, miss[1:] + [None]):
        if y != x + 1: r.append('%d-%d' % (a, x) if a != x else str(a)); a = y
    print('%-70s %4d of %4d lines not executed: %s' % (f, len(miss), len(lines[f]), ' '.join(r)))
