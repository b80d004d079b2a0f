"""tools/seedtry.py id... : the same as seed.py -notests, but in throw-away copies of /repo (in parallel; OPENML_REPO)."""
import sys, os, subprocess, shutil, seeds, seed
from concurrent.futures import ThreadPoolExecutor
def one(i):
    S = seeds.S[i]; c = '/tmp/st_%s' % i; shutil.rmtree(c, ignore_errors=True); os.makedirs(c + '/d')
    subprocess.run('git -C /repo archive HEAD | tar -x -C %s' % c, shell=True)
    open(c + '/d/demo.cpp', 'w').write(S['DEMO']); open(c + '/d/demo.sh', 'w').write(seed.DEMO_SH)
    out = []
    r = seed.sh('bash d/demo.sh', cwd=c); out.append('clean demo rc %d %s' % (r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else ''))
    for f, a, b in S.get('EDITS') or [(S['FILE'], S['OLD'], S['NEW'])]:
        t = open(c + '/' + f).read()
        if t.count(a) != S.get('COUNT', 1): return i, ['count %d in %s' % (t.count(a), f)]
        open(c + '/' + f, 'w').write(t.replace(a, b))
    r = seed.sh('bash d/demo.sh', cwd=c); out.append('patched demo rc %d %s' % (r.returncode, (r.stdout + r.stderr)[-200:]))
    r = seed.sh('cd /verif && OPENML_REPO=%s python3-vt engine/check.py %s' % (c, S['PROP'])); out.append('check rc %d %s' % (r.returncode, [l[:150] for l in r.stdout.splitlines() if 'VIOLATION' in l or 'failing input' in l][:2]))
    shutil.rmtree(c)
    return i, out
with ThreadPoolExecutor(4) as ex:
    for i, o in ex.map(one, sys.argv[1:]): print(i, *o, sep='\n   ', flush=True)
