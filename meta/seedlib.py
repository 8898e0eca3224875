"""Helper for planting bugs in a scratch copy: mk(id, property, [(file, old, new)], demo source, needs, what breaks)
writes /verif/seeded/<id> and try_(id) confirms it (python3 meta/seedlib.py [id ...]).  The copy is /tmp/rs, its builds
/tmp/bs; /repo itself is not touched."""
import json, os, subprocess, sys
S = '/verif/seeded/'
RS, BS = '/tmp/rs', '/tmp/bs'
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -std=c++11 -O1 -w -DHAVE_CONFIG_H=1 -I_build -I. -I/usr/include/suitesparse "$here/demo.cpp" _build/lib/libopmcore.a -lboost_date_time -lboost_filesystem -lboost_system -lumfpack -lamd -llapack -lblas -lm -lsuitesparseconfig -lrt -o "$d/demo" || exit 99
cd "$d" && timeout 120 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def prepare():
    if not os.path.isdir(RS):
        assert sh('git clone -q /repo ' + RS).returncode == 0
        os.makedirs('/tmp/vps', exist_ok=True)
        for f in ('build.sh', 'test.sh', 'run_boost.py', 'results.py'):
            t = open('/opt/vp/' + f).read().replace('/opt/vp/', '/tmp/vps/').replace('/repo', RS)
            open('/tmp/vps/' + f, 'w').write(t)
    sh('git -C %s checkout -q -- . ; git -C %s pull -q --ff-only' % (RS, RS))
    assert sh('git -C %s rev-parse HEAD' % RS).stdout == sh('git -C /repo rev-parse HEAD').stdout
    ok, out = build()
    assert ok, out


def build():
    r = sh('bash /tmp/vps/build.sh')
    return r.returncode == 0, r.stdout[-900:]


def mk(id, prop, edits, demo, needs, breaks):
    d = S + id
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(RS): prepare()
    sh('git -C %s checkout -q -- . ; git -C %s pull -q --ff-only' % (RS, RS))
    for f, a, b in edits:
        p = RS + '/' + f
        s = open(p, encoding='latin-1', newline='').read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, 'w', encoding='latin-1', newline='').write(s.replace(a, b))
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', RS, 'diff']))
    sh('git -C %s checkout -q -- .' % RS)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)


def demo(id):
    r = sh('bash %s%s/demo.sh' % (S, id), cwd=RS)
    return r.returncode, r.stdout[-300:]


def try_(id, check=True):
    prop = json.load(open(S + id + '/meta.json'))['property']
    r = sh('git -C %s apply %s%s/patch.diff' % (RS, S, id))
    if r.returncode:
        print(id, 'PATCH DOES NOT APPLY', r.stdout); return
    try:
        ok, out = build()
        if not ok: print(id, 'DOES NOT BUILD', out); return
        sh('bash /tmp/vps/test.sh /tmp/seed_t.json')
        t = json.load(open('/tmp/seed_t.json'))
        base = demo(id)
        c = sh('VERIF_NOFALLBACK=1 VERIF_REPO=%s VERIF_BUILD=%s VERIF_SEED=1 VERIF_TIER=quick python3 engine/run.py check %s' % (RS, BS, prop), cwd='/verif') if check else None
    finally:
        sh('git -C %s checkout -q -- .' % RS)
    build()
    good = demo(id)
    print('%-28s tests failed %s (%d passed); demo with %s without %s; check: %s' % (id, len(t['failed']), len(t['passed']), base[0], good[0], 'skipped' if not c else 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout else 'MISSED rc=%d' % c.returncode))
    if t['failed'] or base[0] in (0, 99) or good[0]: print('   BAD SEED', t['failed'], base, good)
    if c: print('   ' + ' | '.join(l for l in c.stdout.splitlines() if l.startswith(('message', 'sub-check', 'label', 'C')))[:300], flush=True)


if __name__ == '__main__':
    prepare()
    for i in sys.argv[1:] or sorted(os.listdir(S)): try_(i)
