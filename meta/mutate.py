"""Small random changes to /repo's sources, to find what the checks do not notice:
python3 meta/mutate.py run WORKERS PER_LINE [file-regex]   (state and results in /tmp/mut; needs /tmp/cov/lines.json of coverage.py)
python3 meta/mutate.py report                               survivors"""
import json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, time
T = '/tmp/mut'
SKIPLINE = re.compile(r'THROW|ASSERT|assert|cout|cerr|MESSAGE|^\s*#|^\s*//|^\s*\*|^\s*/\*|OPM_|warning|Warning')


def mutations(l):
    code = l.split('//')[0]
    out = []
    def sub(pat, rep, name):
        for m in re.finditer(pat, code):
            out.append((name, l[:m.start()] + m.expand(rep) + l[m.end():]))
    sub(r'(?<![<\-\w])\s<\s(?!<)', ' <= ', '<'); sub(r'\s>\s', ' >= ', '>'); sub(r'<=', '<', '<='); sub(r'>=', '>', '>='); sub(r'==', '!=', '=='); sub(r'!=', '==', '!=')
    sub(r'&&', '||', '&&'); sub(r'\|\|', '&&', '||')
    sub(r'\s\+\s', ' - ', '+'); sub(r'\s-\s', ' + ', '-'); sub(r'(?<=[\w\])])\s?\*\s?(?=[\w(])', ' / ', '*'); sub(r'(?<=[\w\])]) ?/ ?(?=[\w(])', ' * ', '/')
    sub(r'\+=', '-=', '+='); sub(r'-=', '+=', '-='); sub(r'\*=', '/=', '*='); sub(r'/=', '*=', '/=')
    sub(r'\bmin\b', 'max', 'min'); sub(r'\bmax\b', 'min', 'max')
    sub(r'(?<![\w.])0(?![\w.])', '1', '0'); sub(r'(?<![\w.])1(?![\w.])', '0', '1'); sub(r'(?<![\w.])1(?![\w.])', '2', '1b'); sub(r'(?<![\w.])2(?![\w.])', '1', '2'); sub(r'(?<![\w.])3(?![\w.])', '2', '3')
    sub(r'(?<![\w.])(\d+\.\d*)(?![\w.])', r'(2*\1+1)', 'real')
    sub(r'\bif \((.*)\)( \{)?\s*$', r'if (!(\1))\2', 'if')
    sub(r'\btrue\b', 'false', 'true'); sub(r'\bfalse\b', 'true', 'false'); sub(r'-(?=[a-zA-Z])(?<![\w]-)', '', 'neg')
    sub(r'\bfabs\b', '', 'fabs')
    if re.match(r'^\s*[\w.\[\]()>*+\-, ]+(=|\+=|-=|\(|\+\+).*;\s*$', code) and not re.match(r'^\s*(const|int|double|bool|return|std::|static|struct|unsigned|size_t|typedef)\b', code): out.append(('delete', re.match(r'^\s*', l).group(0) + ';'))
    for a, b in (('c1', 'c2'), ('xx', 'yy'), ('i', 'j'), ('press', 'press'), ('[0]', '[1]'), ('[1]', '[0]'), ('dist', 'dist'), ('Aqua', 'Liquid'), ('Liquid', 'Vapour'), ('wpos', 'opos'), ('sw', 'sg'), ('continue', 'break'), ('nx', 'ny'), ('ny', 'nz')):
        if a != b: sub(r'(?<!\w)' + re.escape(a) + r'(?!\w)', b, a + '->' + b)
    return [(n, m) for n, m in out if m != l]


def owners():
    own = {}
    for l in open('/verif/properties.jsonl'):
        p = json.loads(l)
        for f in re.findall(r'opm/core/[\w/]+\.\w+', l): own.setdefault(f, set()).add(p['id'])
    return own


def plan(per, rx):
    L = json.load(open('/tmp/cov/lines.json')); own = owners(); jobs = []
    reach = {}
    for f in L:
        for v in L[f].values():
            for p in v: reach[p] = reach.get(p, 0) + 1
    done = set()
    try:
        for l in open(T + '/results.jsonl'):
            r = json.loads(l); done.add((r['f'], r['n'], r['new']))
    except OSError: pass
    for f in sorted(L):
        if 'tinyxml' in f or not re.search(rx, f): continue
        src = open('/repo/' + f, encoding='latin-1', newline='').read().split('\n')
        for n, ps in sorted(L[f].items(), key=lambda x: int(x[0])):
            n = int(n)
            if not ps or n > len(src): continue
            l = src[n - 1]
            if SKIPLINE.search(l) or not l.strip(): continue
            o = [p for p in ps if p in own.get(f, ())] + [p for p in sorted(ps, key=lambda p: reach[p]) if p not in own.get(f, ())][:1 if own.get(f) else 2]
            ms = mutations(l); random.Random(f + str(n)).shuffle(ms)
            for name, new in ms[:per]:
                if (f, n, new) not in done: jobs.append(dict(f=f, n=n, op=name, old=l, new=new, checks=o))
    random.Random(7).shuffle(jobs)
    return jobs


def again():
    """the survivors so far that still apply, once more, with C44 as well"""
    R = [json.loads(l) for l in open(T + '/results.jsonl')]; os.rename(T + '/results.jsonl', T + '/results.old'); jobs = []
    with open(T + '/results.jsonl', 'w') as out:
        for r in R:
            if r['result'] not in ('SURVIVED', 'odd'): out.write(json.dumps(r) + '\n'); continue
            src = open('/repo/' + r['f'], encoding='latin-1', newline='').read().split('\n'); at = [i + 1 for i, l in enumerate(src) if l == r['old']]
            if not at or 'free' in r['old']: r['result'] = 'dropped'; out.write(json.dumps(r) + '\n'); continue
            n = min(at, key=lambda i: abs(i - r['n'])); jobs.append(dict(f=r['f'], n=n, op=r['op'], old=r['old'], new=r['new'], checks=r['checks'] + ['C44'] * ('C44' not in r['checks'])))
    return jobs


def worker(k, q, res):
    os.environ['VERIF_REPO'] = R = '%s/r%d' % (T, k); os.environ['VERIF_BUILD'] = '%s/b%d' % (T, k)
    shutil.rmtree(R, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', R])
    sys.path.insert(0, '/verif/engine'); import build as B, glob
    names = {os.path.basename(f)[:3]: os.path.basename(f)[:-4] for f in glob.glob('/verif/harness/C??_*.cpp')}
    while True:
        j = q.get()
        if j is None: return
        p = R + '/' + j['f']; src = open(p, encoding='latin-1', newline='').read(); ls = src.split('\n')
        assert ls[j['n'] - 1] == j['old']
        ls[j['n'] - 1] = j['new']
        t0 = time.time()
        try:
            open(p, 'w', encoding='latin-1', newline='').write('\n'.join(ls)); B._hash.clear()
            try: exe = B.build([names[c] for c in j['checks']], 'clang')
            except B.BuildError as e: j['result'] = 'nobuild'; exe = None
            if exe:
                j['result'] = 'SURVIVED'
                for c in j['checks']:
                    w = '%s/w%d' % (T, k); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
                    try:
                        r = subprocess.run([exe[names[c]], 'run', '--tier', 'quick', '--seed', '1', '--shrink', '0', '--work', w, '--out', w + '/o.json'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
                        v = json.load(open(w + '/o.json'))['violation'] if os.path.exists(w + '/o.json') else dict(label='harness', sub='rc %d' % r.returncode, message='', confirmed=0)
                    except subprocess.TimeoutExpired: v = dict(label='timeout', sub='', message='', confirmed=0)
                    if v: j['result'] = 'killed' if v['confirmed'] == 3 else 'odd'; j['by'] = c; j['label'] = v['sub'] + '/' + v['label']; j['msg'] = v['message'][:200]
                    if v and v['confirmed'] == 3: break
        finally:
            open(p, 'w', encoding='latin-1', newline='').write(src)
        j['t'] = round(time.time() - t0, 1); res.put(j)


def main():
    os.makedirs(T, exist_ok=True)
    if sys.argv[1] == 'plan':
        print(len(plan(int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else '.')))
    elif sys.argv[1] == 'run':
        W = int(sys.argv[2]); jobs = again() if sys.argv[3] == 'again' else plan(int(sys.argv[3]), sys.argv[4] if len(sys.argv) > 4 else '.'); q, res = mp.Queue(), mp.Queue()
        for j in jobs: q.put(j)
        for _ in range(W): q.put(None)
        ps = [mp.Process(target=worker, args=(k, q, res)) for k in range(W)]
        for p in ps: p.start()
        t0 = time.time()
        with open(T + '/results.jsonl', 'a') as out:
            for i in range(len(jobs)):
                j = res.get(); out.write(json.dumps(j) + '\n'); out.flush()
                if i % 20 == 0: print('%d of %d after %.0f s' % (i + 1, len(jobs), time.time() - t0), flush=True)
        for p in ps: p.join()
    else:
        R = [json.loads(l) for l in open(T + '/results.jsonl')]; rx = sys.argv[2] if len(sys.argv) > 2 else '.'
        from collections import Counter
        print(Counter(r['result'] for r in R))
        for r in sorted(R, key=lambda r: (r['f'], r['n'])):
            if r['result'] in ('SURVIVED', 'odd') and re.search(rx, r['f']): print('%s:%d %s %s %s\n   - %s\n   + %s' % (r['f'], r['n'], r['op'], r['result'], r['checks'], r['old'].strip(), r['new'].strip()))


main()
