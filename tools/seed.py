"""tools/seed.py <id> : seeded/<id>/ must hold spec.py with PROP, FILE, OLD, NEW (or EDITS=[(file,old,new)]), NEEDS, BREAKS, DEMO (C++ source of demo).
Builds patch.diff/demo.sh/meta.json, then (in /repo, undone afterwards) checks demo, stable tests and the check."""
import sys, os, subprocess, json, re
R = '/repo'; V = '/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO_SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -O1 -I"$PWD" -I"$PWD/src" "$d/demo.cpp" -o "$t/demo" -lpthread || exit 3
cd "$t" && timeout 120 ./demo
'''
def main(i, S, tests=True):
    d = '%s/%s' % (V, i); os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    edits = S.get('EDITS') or [(S['FILE'], S['OLD'], S['NEW'])]
    for f, a, b in edits:
        t = open(R + '/' + f).read(); assert t.count(a) == S.get('COUNT', 1), (f, a, t.count(a))
        open(R + '/' + f, 'w').write(t.replace(a, b))
    try:
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        open(d + '/demo.cpp', 'w').write(S['DEMO']); open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': S['PROP'], 'needs': S['NEEDS'], 'what_it_breaks': S['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/demo.sh' % d, cwd=R); print(i, 'demo with patch rc', r.returncode, (r.stdout + r.stderr)[-300:])
        ok1 = r.returncode not in (0, 3)
        ok3 = True
        if tests:
            b = sh('bash /opt/vp/build.sh'); print(i, 'build rc', b.returncode); r = sh('bash /opt/vp/test.sh /tmp/seedout.json'); res = json.load(open('/tmp/seedout.json'))
            base = json.load(open('/opt/vp/BASELINE.json')); st = base.get('stable') or base.get('passed') or base
            names = [x if isinstance(x, str) else x.get('name') for x in (st if isinstance(st, list) else st.get('passed', []))]
            miss = [x for x in names if x not in res['passed']]; ok3 = not miss; print(i, 'stable tests failing:', miss)
        r = sh('cd /verif && python3-vt engine/check.py %s' % S['PROP']); print(i, 'check rc', r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'failing input' in l][:2])
        ok4 = r.returncode == 1
    finally: sh('git -C /repo checkout -- .')
    r = sh('bash %s/demo.sh' % d, cwd=R); print(i, 'demo clean rc', r.returncode, r.stdout[-200:] if r.returncode else '')
    print(i, 'RESULT', 'OK' if ok1 and ok3 and r.returncode == 0 else 'BAD', 'CAUGHT' if ok4 else 'MISSED')
if __name__ == '__main__':
    import seeds
    for i in sys.argv[1:]:
        if i != '-notests': main(i, seeds.S[i], '-notests' not in sys.argv)
