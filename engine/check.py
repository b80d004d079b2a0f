"""Check driver: extract the real code, generate and discharge obligations, replay the contracts on the real code."""
import sys, os, json, time, subprocess, tempfile, shutil, importlib, traceback, multiprocessing as mp, re, hashlib, math
HERE = os.path.dirname(os.path.abspath(__file__)); ROOTD = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOTD, 'props'))
sys.setrecursionlimit(30000)
import terms as TM
from terms import *
from values import *
import norm, prove, interp, lib, astload, spec
from spec import *
from norm import ROOT, Budget
from prove import Prover, Model, evalt, EvalErr
from interp import State
from lib import Lib

SEED = int(os.environ.get('VERIF_SEED', '1')); TIER = os.environ.get('VERIF_TIER', 'quick')
RETK = 'ret'

# ------------------------------------------------------------------ proof of one contract
def verify_fn(unit, prop, f, budget, verbose=False):
    t0 = time.time()
    r = {'fn': f.name, 'obls': [], 'status': 'ok', 'inlined': [], 'assumed': [], 'libs': [], 'literals': []}
    try:
        fn = unit.funcs['openml_client::' + f.name][0]
        it = Lib(unit, contracts=getattr(prop, 'contracts', None), target=None, deadline=t0 + budget)
        if prop.setup: prop.setup(it)
        if f.opts.get('setup'): f.opts['setup'](it)
        args, facts = f.symbolic()
        req = list(f.req(*args)) if f.req else []
        it.no_closed = bool(f.opts.get('no_closed'))
        ctx = ROOT.extend(*[c(x) for x in facts + req])
        st = State({}, ctx); it.ma.base = ctx
        from interp import Opaque as _o
        it.frames.append({'fn': None, 'env': {}, 'this': None, 'exits': []})
        ret = it.call(fn, None, args, st)
        top = it.frames.pop()
        ret = it.read(ret, st) if ret is not None else ret
        it.frames = [{'fn': fn, 'env': {}, 'this': None, 'exits': []}]
        thr = f.throws(*args) if f.throws else None
        if f.opts.get('proof_may_throw'): thr = spec.ANY      # the proof covers normal returns; the replay rejects exceptions
        tops = it.top_throws + [e for e in top['exits'] if e.kind == 'throw']
        if thr is None or thr is not spec.ANY:
            for e in tops:
                it.oblige('throws only where the contract allows', thr if thr is not None else FALSE, e.st)
            if thr is not None: it.oblige('rejects what the contract says must be rejected', not_(thr), st)
        dead = st.ctx.inconsistent(); alts = []
        if dead and not (f.opts.get('always_throws')):
            r['status'] = 'vacuous'; r['why'] = 'no normal return reachable'
        else:
            with_thr = st.copy()
            if thr is not None and thr is not spec.ANY: with_thr.assume(not_(thr))
            for nm, term in f.ens(ret, *args) if f.ens else []:
                it.oblige('ensures ' + nm, term, with_thr)
            base_obls = it.obls
            for alt in f.opts['ens_alts'](it) if f.opts.get('ens_alts') else []:   # candidate witnesses for an existential clause: one of them has to be proved in full
                it.obls = []
                for nm, term in alt(ret, *args): it.oblige('ensures ' + nm, term, with_thr)
                alts.append(it.obls)
            it.obls = base_obls
        r['gen_s'] = time.time() - t0
        for g in alts:
            good = True
            for o in g:
                try: good = good and Prover(20, 4000).prove(o.cond, o.ctx)
                except (Budget, RecursionError): good = False
                if not good: break
            if good: break
        if alts: it.obls = it.obls + g
        left = t0 + budget - time.time()
        # vacuity: the assumptions at the return must be satisfiable (falsity must not be provable)
        pv = Prover(10, 2000)
        try:
            if not f.opts.get('always_throws') and pv.prove(FALSE, st.ctx): r['status'] = 'vacuous'; r['why'] = 'assumptions contradictory'
        except Budget: pass
        seen = set()
        for o in it.obls:
            key = (o.kind, o.cond, tuple(o.ctx.allfacts()))
            if key in seen: continue
            seen.add(key)
            t1 = time.time()
            p = Prover(max(2, min(f.opts.get('obl_timeout', 120), t0 + budget - t1)), f.opts.get('smt_ms', 4000))
            try:
                ok = p.prove(o.cond, o.ctx)
                stt = 'proved' if ok else 'failed'
            except Budget as b: stt = 'timeout'
            except RecursionError: stt = 'timeout'
            d = {'kind': o.kind, 'where': o.where, 'status': stt, 's': round(time.time() - t1, 3), 'z3s': round(p.z3time, 3),
                 'backend': {k: v for k, v in p.backend.items() if v}}
            if stt == 'failed' and p.leaves:
                d['leaf'] = show(p.leaves[0 if os.environ.get('VF_LEAF0') else -1].goal)[:1500]; d['facts'] = [show(x)[:900] for x in p.leaves[0 if os.environ.get('VF_LEAF0') else -1].ctx.allfacts()][:40]
            if stt != 'proved': d['cond'] = show(o.cond)[:1500]
            r['obls'].append(d)
        r['inlined'] = sorted(it.inlined); r['libs'] = sorted(it.libs); r['assumed'] = sorted(str(x) for x in it.assumed); r['used_contracts'] = sorted(it.used_contracts)
    except Unsupported as e:
        r['status'] = 'unsupported'; r['why'] = str(e)
        if verbose: traceback.print_exc()
    except Budget as e:
        r['status'] = 'budget'; r['why'] = 'time budget'
    except RecursionError as e:
        r['status'] = 'unsupported'; r['why'] = 'recursion limit'
        if verbose: traceback.print_exc(limit=-30)
    except Exception as e:
        r['status'] = 'unsupported'; r['why'] = 'engine: %s: %s' % (type(e).__name__, e)
        if verbose: traceback.print_exc()
        else: r['trace'] = traceback.format_exc()[-1500:]
    r['s'] = round(time.time() - t0, 2)
    return r

_G = {}
def _worker(name):
    f = next(x for x in _G['prop'].fns if x.name == name)
    return verify_fn(_G['unit'], _G['prop'], f, _G['budget'](f))

# ------------------------------------------------------------------ replay
def ser(ty, x, out):
    k = ty[0]
    if k == 'R': out.append('nan' if x != x else 'inf' if x == math.inf else '-inf' if x == -math.inf else repr(float(x)))
    elif k == 'I': out.append(str(int(x)))
    elif k == 'B': out.append('1' if x else '0')
    elif k == 'U': out.append('%d %s' % (len(x.encode()), x))
    elif k == 'mat':
        if isinstance(x, dict):
            out.append('%d %d' % (x['r'], x['c']))
            for row in x['e']:
                for v in row: ser(ty[5], v, out)
        else:
            out.append('%d %d' % ((len(x), 1) if ty[2] == 'col' else (1, len(x))))
            for v in x: ser(ty[5], v, out)
    elif k == 'vec':
        out.append(str(len(x)))
        for v in x: ser(ty[1], v, out)
    elif k == 'tup':
        for t, v in zip(ty[1], x): ser(t, v, out)
    elif k == 'map':
        out.append(str(len(x)))
        for q in x: ser(ty[1], q, out); ser(ty[2], x[q], out)
    elif k == 'set':
        out.append(str(len(x)))
        for q in x: ser(ty[1], q, out)
    else: raise ValueError(k)
class Rd:
    def __init__(s, b): s.b = b; s.i = 0
    def tok(s):
        while s.i < len(s.b) and s.b[s.i] in ' \n': s.i += 1
        j = s.i
        while j < len(s.b) and s.b[j] not in ' \n': j += 1
        t = s.b[s.i:j]; s.i = j
        return t
def fl(t):
    t = t.lower()
    return math.nan if 'nan' in t else math.inf if t == 'inf' else -math.inf if t == '-inf' else float(t)
def de(ty, r):
    k = ty[0]
    if k == 'R': return fl(r.tok())
    if k == 'I': return int(r.tok())
    if k == 'B': return r.tok() == '1'
    if k == 'U':
        n = int(r.tok()); r.i += 1; t = r.b[r.i:r.i + n]; r.i += n; return t
    if k == 'mat':
        n, m = int(r.tok()), int(r.tok())
        rows = [[de(ty[5], r) for _ in range(m)] for _ in range(n)]
        if ty[2] == 'col': return [x[0] for x in rows]
        if ty[2] == 'row': return rows[0] if rows else []
        return {'r': n, 'c': m, 'e': rows}
    if k == 'vec': return [de(ty[1], r) for _ in range(int(r.tok()))]
    if k == 'tup': return tuple(de(t, r) for t in ty[1])
    if k == 'map':
        n = int(r.tok()); d = {}
        for _ in range(n):
            q = de(ty[1], r); d[q] = de(ty[2], r)
        return d
    if k == 'set': return {de(ty[1], r) for _ in range(int(r.tok()))}
    raise ValueError(k)

def build_runner(prop, d):
    src = os.path.join(d, 'runner.cpp')
    with open(src, 'w') as o:
        o.write('#include "%s/runner_head.hpp"\n' % HERE)
        o.write(prop.driver())
        o.write('#define REGISTER %s\n' % ' '.join('REG(%s)' % f.name for f in prop.fns))
        o.write('#include "%s/runner_tail.hpp"\n' % HERE)
    exe = os.path.join(d, 'runner')
    cmd = ['g++', '-std=c++17', '-w', '-O0', '-g0', '-fno-access-control', '-D_GLIBCXX_ASSERTIONS', '-DVF_REPLAY', '-I' + spec.REPO, src, '-o', exe, '-lpthread']
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), exe

def run_cases(exe, cases, d, lim=20):
    """cases: list of (id, fn, args, seed) -> dict id -> (status, payload, what)"""
    res = {}; todo = list(cases); guard = 0
    while todo and guard < 200:
        guard += 1
        blob = []
        for cid, f, args, seed in todo:
            out = []
            for ty, x in zip(f.tys, args): ser(ty, x, out)
            blob.append('%d %s %d %d\n%s \x1e\n' % (cid, f.name, seed, f.opts.get('limit', lim), ' '.join(out)))
        inp = os.path.join(d, 'in.txt'); outp = os.path.join(d, 'out.txt')
        open(inp, 'w').write(''.join(blob))
        env = dict(os.environ, MALLOC_PERTURB_='165')
        with open(outp, 'w') as fo, open(os.path.join(d, 'stdout.txt'), 'w') as so:
            p = subprocess.Popen(['bash', '-c', 'exec "$0" 3>"$1" </dev/stdin', exe, outp], stdin=open(inp), stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, 'stderr.txt'), 'w'), env=env, cwd=d)
            try: rc = p.wait(timeout=600)
            except subprocess.TimeoutExpired: p.kill(); p.wait(); rc = -9
        txt = open(outp, errors='replace').read()
        i = 0; last = None
        while True:
            j = txt.find('@', i)
            if j < 0: break
            m = re.compile(r'@BEGIN (\d+)\n').match(txt, j)
            if m: last = int(m.group(1)); i = m.end(); continue
            m = re.compile(r'@END (\d+) (\w+) (\d+) (.*)\n').match(txt, j)
            if m:
                n = int(m.group(3)); cid = int(m.group(1))
                res[cid] = (m.group(2), txt[m.end():m.end() + n], m.group(4)); i = m.end() + n; last = None; continue
            m = re.compile(r'@TIMEOUT').match(txt, j)
            i = j + 1
        if last is not None:
            res[last] = ('timeout' if '@TIMEOUT' in txt[-40:] else 'crash', '', 'exit status %s' % rc)
        elif rc != 0 and not any(x[0] not in res for x in todo): pass
        done = len([x for x in todo if x[0] in res])
        nt = [x for x in todo if x[0] not in res]
        if len(nt) == len(todo): break
        todo = nt
    return res

def check_case(f, args, result):
    """-> None if the contract holds, else (clause, detail)"""
    status, payload, what = result
    sargs, facts = f.symbolic()
    M = Model(); f.bind_inputs(M, args)
    thr = f.throws(*sargs) if f.throws else None
    if thr is spec.ANY:
        if status == 'throw': return None
        thr = None
    must = bool(thr is not None and evalt(c(thr), M))
    if f.opts.get('throw_ok') and status == 'throw' and not f.opts['throw_ok'](args, what): return ('exception', what)
    if f.opts.get('throw_ok') and status == 'throw': return None
    if must:
        if status == 'throw': return None
        return ('rejects invalid input', 'status %s' % status)
    if status != 'ok': return ('no exception, assertion or crash on a valid input', '%s %s' % (status, what))
    conc = de(f.rty, Rd(payload))
    if f.oracle:
        m = f.oracle(conc, *args)
        if m: return ('oracle', m)
    if f.ens and not f.opts.get('ens_proof_only'):
        ret = symval(RETK, f.rty)
        bindval(M, RETK, f.rty, conc)
        for nm, term in f.ens(ret, *sargs):
            M.steps = 0
            try: ok = holds(c(term), M, f.tol)
            except spec.OutOfRange as e: return ('ensures ' + nm, 'result out of range: %s' % e)
            except EvalErr as e: 
                f.evalerr = str(e); continue
            if not ok: return ('ensures ' + nm, 'returned ' + short(conc))
    return None
def short(x, n=400):
    t = repr(x)
    return t if len(t) <= n else t[:n] + '...'
def req_ok(f, args):
    if not f.req: return True
    sargs, _ = f.symbolic(); M = Model(); f.bind_inputs(M, args)
    try: return all(evalt(c(x), M) for x in f.req(*sargs))
    except EvalErr: return False

def replay(prop, exe, d, per_fn, tend, lits=(), only=None, boost=False):
    """generate inputs, run, compare. returns list of violations and stats"""
    cases = []; cid = 0; stats = {}
    for f in prop.fns:
        if f.contract_only or (only and f.name not in only): continue
        g = G('%d/%s/%s' % (SEED, prop.id, f.name), *((0.2, 0.1) if boost else ())); g.lits = lits
        lst = []
        if f.cases: lst += list(f.cases(g))
        n = f.opts.get('ncases', 1.0); k = int(per_fn * n); tries = 0
        while len(lst) < k and tries < 20 * k + 20:
            tries += 1
            a = f.gen(g) if f.gen else g.auto(f)
            if a is None: continue
            if g.lits and not f.gen and g.r.random() < 0.15: a = mutate(g, f, a)
            lst.append(a)
        sk = f.skip
        for a in lst:
            if not req_ok(f, a) or sk(*a): continue
            cases.append((cid, f, a, g.r.randrange(1, 10 ** 6))); cid += 1
            stats[f.name] = stats.get(f.name, 0) + 1
    res = run_cases(exe, cases, d)
    viol = []; nrun = 0; dist = set()
    for cs in cases:
        cid, f, a, seed = cs
        if cid not in res: continue
        nrun += 1
        dist.add(hashlib.md5((f.name + repr(a)).encode()).hexdigest())
        v = check_case(f, a, res[cid])
        if v is not None: viol.append((f, a, seed, v, res[cid]))
        if time.time() > tend: break
    return viol, {'cases': len(cases), 'run': nrun, 'distinct': len(dist), 'per_fn': stats, 'samples': [{'fn': cs[1].name, 'args': cs[2]} for cs in cases[:3]]}
def mutate(g, f, a):
    a = list(a)
    i = g.r.randrange(len(a)); ty = f.tys[i]
    if f.vals.get(f.params[i][1]) is not None: return a
    L = [x for x in g.lits if abs(x) < 1e6]
    if not L: return a
    v = g.r.choice(L) * g.r.choice([1, -1]) + g.r.choice([0, 0, 1, -1, 0.5])
    if ty[0] == 'R': a[i] = float(v)
    elif ty[0] == 'mat' and ty[1] == 'R':
        m = a[i]
        import copy
        m = copy.deepcopy(m)
        if isinstance(m, dict):
            if m['r'] and m['c']: m['e'][g.r.randrange(m['r'])][g.r.randrange(m['c'])] = float(v)
        elif m: m[g.r.randrange(len(m))] = float(v)
        a[i] = m
    return a
def literals(unit, quals):
    out = set()
    def go(n):
        if n is None: return
        if n.kind in ('IntegerLiteral', 'FloatingLiteral'):
            try: out.add(float(n.get('value')))
            except Exception: pass
        for x in n.inner: go(x)
    for q in quals:
        for fn in unit.funcs.get(q, []): go(fn)
    return sorted(out)

# ------------------------------------------------------------------ known findings
def known_findings(pid):
    p = os.path.join(ROOTD, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid]

def main(pid, argv):
    t0 = time.time()
    verbose = '-v' in argv
    thorough = TIER == 'thorough'
    only = [a for a in argv if not a.startswith('-')] or None
    mod = importlib.import_module(pid)
    prop = mod.P
    if only: prop.fns_all = prop.fns; prop.fns = [f for f in prop.fns if f.name in only]
    os.makedirs(os.path.join(ROOTD, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(ROOTD, 'replays'), exist_ok=True)
    d = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try:
        return run(pid, prop, d, t0, verbose, thorough, '-noreplay' in argv, '-noproof' in argv)
    finally: shutil.rmtree(d, ignore_errors=True)

def run(pid, prop, d, t0, verbose, thorough, noreplay, noproof):
    drv = os.path.join(d, 'driver.cpp'); open(drv, 'w').write(prop.driver())
    bp = None
    dropped = []
    if any(f.opts.get('internal') for f in prop.fns):
        # clients of internal functions are only used while those functions exist under their names
        q = subprocess.run(['clang++', '-std=c++17', '-w', '-fsyntax-only', '-fno-access-control', drv], capture_output=True, text=True)
        if q.returncode != 0:
            dropped = [f for f in prop.fns if f.opts.get('internal')]
            prop.fns = [f for f in prop.fns if not f.opts.get('internal')]
            open(drv, 'w').write(prop.driver())
            print('note: clients of internal functions do not compile and are left out: ' + ' '.join(f.name for f in dropped))
    if not noreplay: bp, exe = build_runner(prop, d)
    pfns = [f for f in prop.fns if f.prove]
    results = []; unit = None; exterr = None
    total = 600 if not thorough else 700
    if pfns and not noproof:
        try: unit = astload.load(drv)
        except RuntimeError as e: exterr = str(e)
        if unit is not None:
            _G['unit'] = unit; _G['prop'] = prop; _G['budget'] = lambda f: f.timeout * (3 if thorough else 1)
            if verbose and len(pfns) == 1:
                results = [verify_fn(unit, prop, pfns[0], _G['budget'](pfns[0]), True)]
            else:
                import gc
                gc.freeze()
                with mp.get_context('fork').Pool(min(7, len(pfns)), maxtasksperchild=1) as pool:
                    hs = [(f, pool.apply_async(_worker, (f.name,))) for f in pfns]
                    for f, h in hs:
                        try: results.append(h.get(max(5, total - (time.time() - t0))))
                        except mp.TimeoutError: results.append({'fn': f.name, 'obls': [], 'status': 'budget', 'why': 'wall clock', 's': 0, 'inlined': [], 'libs': [], 'assumed': []})
                    pool.terminate()
    viol = []; st = {'cases': 0, 'run': 0, 'distinct': 0, 'per_fn': {}, 'samples': []}; builderr = None
    if bp is not None:
        out = bp.communicate()[0]
        if bp.returncode != 0: builderr = out
    if exterr and builderr or (builderr and not noreplay):
        print('ERROR: the code under verification does not compile against the contract clients\n' + (builderr or exterr)[:3000])
        return 2
    lits = []
    if unit is not None:
        q = set()
        for r in results: q |= set(r.get('inlined', []))
        lits = literals(unit, q)
    failed = [(r, o) for r in results for o in r['obls'] if o['status'] == 'failed']
    undis = [(r, o) for r in results for o in r['obls'] if o['status'] not in ('proved', 'failed')]
    broken = [r for r in results if r['status'] != 'ok']
    if not noreplay:
        per = (60 if not thorough else 400)
        viol, st = replay(prop, exe, d, per, t0 + 780, lits)
        suspects = {r['fn'] for r, o in failed + undis} | {r['fn'] for r in broken}
        if any(f.contract_only and f.name in suspects for f in prop.fns): suspects |= {f.name for f in prop.fns}
        if not viol and suspects and not thorough:
            v2, st2 = replay2(prop, exe, d, per * 8, t0 + 800, lits, suspects)
            viol += v2; st['run'] += st2['run']; st['distinct'] += st2['distinct']
    nobl = sum(len(r['obls']) for r in results); npr = sum(1 for r in results for o in r['obls'] if o['status'] == 'proved')
    # verdict
    kf = known_findings(pid); lines = []; newv = []
    for v in viol:
        f, a, seed, (clause, det), res = v
        hit = None
        for k in kf:
            if k['fn'] == f.name and (not k.get('clause') or k['clause'] == clause) and (f.known is None or f.known(k['id'], a)): hit = k; break
        if hit is not None:
            hit['seen'] = hit.get('seen', 0) + 1
        else: newv.append(v)
    for k in kf:
        if k.get('status') == 'open': print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    baseline = load_baseline(pid)
    rc = 0
    if newv:
        f, a, seed, (clause, det), res = min(newv, key=lambda v: len(repr(v[1])))
        p = os.path.join(ROOTD, 'replays', '%s.json' % pid)
        json.dump({'property': pid, 'client': f.text(), 'function': f.name, 'clause': clause, 'detail': det, 'args': a, 'srand': seed, 'result': res,
                   'more': [{'fn': x[0].name, 'clause': x[3][0]} for x in newv[1:20]], 'failed_obligations': [dict(o, fn=r['fn']) for r, o in failed][:20]}, open(p, 'w'), indent=1, default=str)
        print('failing input: %s(%s): %s: %s' % (f.name, short(a), clause, det))
        print('VIOLATION property=%s replay=%s' % (pid, p)); rc = 1
    else:
        # obligations that are discharged on the reference tree must be discharged here
        bad = [(r, o) for r, o in failed if not is_expected_undischarged(prop, r, o)]
        if bad:
            r, o = bad[0]
            p = os.path.join(ROOTD, 'replays', '%s.json' % pid)
            json.dump({'property': pid, 'failed_obligations': [dict(o, fn=r['fn']) for r, o in bad][:20], 'verifier_output': bad[0][1]}, open(p, 'w'), indent=1, default=str)
            print('undischarged obligation: %s in %s (%s)\n  remaining goal: %s' % (o['kind'], r['fn'], o['where'], o.get('leaf', o.get('cond', ''))[:400]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p)); rc = 1
    write_evidence(pid, prop, results, st, t0, thorough, nobl, npr, broken, failed, undis, [f.name for f in dropped])
    print('%s: %d contracts, obligations %d, discharged %d, undischarged %d, functions without proof %d; replay %d runs (%d distinct), %.1fs' % (
        pid, len(pfns), nobl, npr, nobl - npr, len(broken), st['run'], st['distinct'], time.time() - t0))
    for r in results:
        if r['status'] != 'ok': print('  not proved (%s): %s: %s' % (r['status'], r['fn'], r.get('why')))
        if verbose and r.get('trace'): print(r['trace'])
    for r, o in failed + undis: print('  %s: %s: %s [%s]' % (o['status'], r['fn'], o['kind'], o['where'])); (print('     leaf: ' + o.get('leaf', '')[:700]) if verbose else 0)
    if verbose:
        for r in results: print('   ', r['fn'], r['status'], 'obls', len(r['obls']), 's', r['s'], 'slowest', sorted([(o['s'], o['kind']) for o in r['obls']])[-2:])
        for f in prop.fns:
            if getattr(f, 'evalerr', None): print('   evalerr', f.name, f.evalerr)
        seen = set()
        for v in newv:
            k = (v[0].name, v[3][0])
            if k in seen: continue
            seen.add(k); print('   VIOL', v[0].name, short(v[1], 600), v[3], v[4][0])
    return rc
def replay2(prop, exe, d, per, tend, lits, names):
    global SEED
    s0 = SEED; SEED = s0 + 7919
    try: return replay(prop, exe, d, per, tend, lits, names, True)
    finally: SEED = s0
def load_baseline(pid): return None
def is_expected_undischarged(prop, r, o):
    f = next(x for x in prop.fns if x.name == r['fn'])
    ex = f.opts.get('undischarged') or ()
    return any(re.search(x, o['kind']) for x in ex)

def write_evidence(pid, prop, results, st, t0, thorough, nobl, npr, broken, failed, undis, dropped=()):
    bk = {}
    for r in results:
        for o in r['obls']:
            for k, v in o['backend'].items(): bk[k] = bk.get(k, 0) + v
    fnstat = {r['fn']: {'status': r['status'] if r['status'] != 'ok' else ('proved' if all(o['status'] == 'proved' for o in r['obls']) else 'partly'), 'obligations': len(r['obls']),
                        'discharged': sum(o['status'] == 'proved' for o in r['obls']), 'seconds': r['s'], 'why': r.get('why', '')} for r in results}
    inl = sorted({q for r in results if r['status'] == 'ok' for q in r['inlined'] if not q.startswith('openml_client')})
    level = getattr(prop, 'level', 'proof')
    ev = {'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': SEED, 'level': level, 'wall_s': round(time.time() - t0, 2),
          'coverage': {
              'obligations': nobl, 'discharged': npr, 'checker_cmd': 'python3-vt engine/check.py %s' % pid,
              'trusted_base': ['clang 18 AST of /repo headers (mechanical extraction, nothing dropped except statements listed under unsupported)',
                               'engine/interp.py VC generator; engine/norm.py normaliser (polynomial/bracket normal form, algebraic sum laws); z3 4.x for side conditions',
                               'assumed contracts of Eigen, <algorithm>, containers and <cmath> in engine/lib.py'] + sorted({a for r in results for a in r.get('assumed', [])}) + prop.assumptions,
              'functions_under_contract': inl, 'contracts': fnstat,
              'undischarged': [{'fn': r['fn'], 'kind': o['kind'], 'status': o['status']} for r, o in failed + undis],
              'left_out_internal_clients': list(dropped),
              'backend_steps': bk, 'solver_seconds': round(sum(o['z3s'] for r in results for o in r['obls']), 2),
              'library_contracts_used': sorted({l for r in results for l in r.get('libs', [])}),
              'obligation_kinds': sorted({o['kind'] for r in results for o in r['obls']})[:80],
              'bounded_stand_ins': {f.name: (f.note or 'contract executed on generated inputs') for f in prop.fns if f.bounded or not f.prove or fnstat.get(f.name, {}).get('status') != 'proved'},
              'evaluations': st['run'], 'distinct_nontrivial': st['distinct'],
              'rule': 'conformance replay: contracts executed against the compiled /repo code on generated inputs (ties, zeros, one-row and one-column shapes, code literals); distinct = different argument tuples that satisfy the precondition',
              'samples': st['samples'],
          },
          'assumptions': ['floating point treated as exact real arithmetic (no rounding, overflow or NaN)', '64-bit index arithmetic treated as mathematical except unsigned wrap-around of subtraction',
                          'memory allocation succeeds'] + prop.assumptions}
    json.dump(ev, open(os.path.join(ROOTD, 'evidence', pid + '.json'), 'w'), indent=1, default=str)

if __name__ == '__main__':
    sys.exit(main(sys.argv[1], sys.argv[2:]))
