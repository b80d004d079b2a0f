"""mut.py Pxx file 'old' 'new' [n]: run a check against a scratch copy of /repo with one textual change"""
import sys, subprocess, shutil, tempfile, os, glob
p, f, a, b = sys.argv[1:5]; n = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix='mut_')
try:
    shutil.copytree('/repo/src', d + '/src')
    g = [x for x in glob.glob(d + '/src/**/*', recursive=True) if x.endswith(f) and os.path.isfile(x)][0]
    s = open(g).read(); parts = s.split(a)
    assert len(parts) > n + 1, 'pattern not found'
    s = a.join(parts[:n + 1]) + b + a.join(parts[n + 1:]); open(g, 'w').write(s)
    v = tempfile.mkdtemp(prefix='mutv_')
    for x in ('engine', 'props', 'tools'): shutil.copytree('/verif/' + x, v + '/' + x, ignore=shutil.ignore_patterns('__pycache__'))
    shutil.copy('/verif/known_findings.json', v)
    os.makedirs(v + '/evidence'); os.makedirs(v + '/replays')
    r = subprocess.run(['python3-vt', 'engine/check.py', p] + sys.argv[6:], cwd=v, env={**os.environ, 'OPENML_REPO': d}, capture_output=True, text=True)
    print('rc=%d' % r.returncode, b.strip()[:60].replace('\n', ' '), '|', ' | '.join(l[:230] for l in r.stdout.splitlines() if 'VIOLATION' in l or l.startswith(p + ':') or 'violation' in l.lower() or 'failed' in l)[:900], r.stderr[-300:] if r.returncode == 2 else '')
finally:
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(v, ignore_errors=True)
