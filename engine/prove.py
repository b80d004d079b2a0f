"""Prover (normal form + case split + congruence + SMT) and numeric evaluator."""
import math, random, time
from fractions import Fraction
import z3, mpmath
from terms import *
from norm import *
import norm

class Leaf:
    """an undischarged proof leaf"""
    def __init__(s, goal, ctx, why): s.goal = goal; s.ctx = ctx; s.why = why
    def __repr__(s): return 'Leaf(%s | %s)' % (str(s.goal)[:300], s.why)

class Prover:
    def __init__(s, timeout=60, smt_timeout=4000):
        s.deadline = time.time() + timeout
        s.N = NF(s.deadline)
        s.smt_timeout = smt_timeout
        s.leaves = []
        s.splits = 0; s.elims = 0; s.opn = {}; s.sats = 0; s.witness = {}
        s.backend = {'normaliser': 0, 'z3': 0, 'vacuous-case': 0}
        s.z3time = 0.0

    def prove(s, goal, ctx, depth=0):
        """returns True when discharged"""
        s.N.tick()
        goal = c(goal)
        if isc(goal):
            if cv(goal): s.backend['normaliser'] += 1; return True
            if ctx.inconsistent(): s.backend['vacuous-case'] += 1; return True
            if s.elim(goal, ctx, depth): return True
            if depth < 26 and s.split_facts(ctx, depth): return True
            s.leaves.append(Leaf(goal, ctx, 'false')); return False
        op = goal.op
        if op == 'and':
            for g in goal.args:
                if not s.prove(g, ctx, depth): return False
            return True
        if op == 'forall':
            x = fresh('k')
            return s.prove(instantiate(goal.args[1], x), ctx.extend(le(ZERO, x), lt(x, goal.args[0])), depth)
        if op == 'all':
            v = goal.args[0]
            x = fresh('u', v.sort)
            return s.prove(subst(goal.args[1], {v: x}), ctx, depth)
        if op == 'or':
            # prove the most complex disjunct under the negation of the others
            args = sorted(goal.args, key=lambda a: (a.op in ('forall', 'eq', 'and'), -a.id))
            main = args[-1]
            c2 = ctx.extend(*[not_(a) for a in args[:-1]])
            if c2.inconsistent(): s.backend['vacuous-case'] += 1; return True
            return s.prove(main, c2, depth)
        if op == 'eq':
            a, b = goal.args
            if a.sort == 'B':
                return s.prove_beq(a, b, ctx, depth)
            if a.sort in 'IR' and b.sort in 'IR':
                return s.prove_zero(sub(a, b), ctx, depth)
            return s.prove_bool(goal, ctx, depth)
        return s.prove_bool(goal, ctx, depth)

    def prove_beq(s, a, b, ctx, depth):
        p = s.N.nfb(eq(a, b), ctx, 0)
        if p == ONEP: s.backend['normaliser'] += 1; return True
        mark = len(s.leaves)
        if s.prove(b, ctx.extend(a), depth) and s.prove(a, ctx.extend(b), depth): return True
        keep = s.leaves[mark:]; del s.leaves[mark:]
        if depth < 6 and s.prove_zero(sub(br(a), br(b)), ctx, depth + 1): return True
        s.leaves[mark:] = keep
        return False

    def prove_bool(s, goal, ctx, depth):
        p = s.N.nfb(goal, ctx, 0)
        if p == ONEP: s.backend['normaliser'] += 1; return True
        if ctx.inconsistent(): s.backend['vacuous-case'] += 1; return True
        if goal.op == 'exists' and goal.nb == 0 and depth < 14:
            n = s.N.nf(goal.args[0], ctx, 0)
            if n.get((), 0) == 1 and len(n) > 1:
                m = p_to_term({k: q for k, q in n.items() if k != ()})
                if ctx.decide(le(ZERO, m)) is True: return s.prove(or_(mk('exists', (m, goal.args[1]), 'B'), instantiate(goal.args[1], m)), ctx, depth + 1)
        if goal.op == 'exists' and goal.nb == 0 and depth < 14 and s.witnessed(goal, ctx, depth): return True
        cnd = s.find_split(goal, ctx)
        if cnd is not None and depth < 14:
            return s.prove(s.assume(goal, cnd, True), ctx.extend(cnd), depth + 1) and s.prove(s.assume(goal, cnd, False), ctx.extend(not_(cnd)), depth + 1)
        if s.smt(goal, ctx): return True
        if goal.op == 'le' and depth < 14 and s.monotone(goal, ctx, depth): return True
        g = s.N.p_to_b(p)
        if g is not goal and s.smt(g, ctx): return True
        if depth < 14:
            r = s.rewrite_facts(goal, ctx)
            if r is not None: return s.prove(r, ctx, depth + 1)
        if s.elim(goal, ctx, depth): return True
        e = s.sum_instances(goal, ctx)
        if e is not None and s.smt(s.N.p_to_b(s.N.nfb(goal, e, 0)), e): return True
        if s.ematch(goal, ctx) or s.ematch(goal, ctx, True): return True
        if s.saturated(goal, ctx, depth): return True
        if depth < 14 and goal.op in ('le', 'lt') and (s.from_fact(goal, ctx, depth) or s.termwise(goal, ctx, depth)): return True
        s.leaves.append(Leaf(goal, ctx, 'bool'))
        return False

    def witnessed(s, goal, ctx, depth):
        """exists i < n. b(i): try the ground terms that stand where i stands"""
        n, b = goal.args
        x = fresh('z'); bx = instantiate(b, x); pos = set(); cand = []
        for a in subterms(bx):
            if a.op == 'app' and a.nb == 0:
                for k, z in enumerate(a.args[1:], 1):
                    if z is x: pos.add((a.args[0], k))
        for a in subterms(bx):
            if a.op == 'app' and a.nb == 0:
                for k, z in enumerate(a.args[1:], 1):
                    if (a.args[0], k) in pos and z is not x and isinstance(z, T) and z.sort == 'I' and x not in z.fv and not any(v.args[0][0] == '%' for v in z.fv) and z.op == 'app' and z not in cand: cand.append(z)
        for w in cand[:3]:
            mark = len(s.leaves)
            rng = and_(le(ZERO, w), lt(w, n))
            if (s.N.nfb(rng, ctx, 0) == ONEP or s.ematch(rng, ctx)) and s.sub(instantiate(b, w), ctx.extend(rng), depth):
                s.backend['witness'] = s.backend.get('witness', 0) + 1; return True
            del s.leaves[mark:]
        return False
    def from_fact(s, goal, ctx, depth):
        """a <= b from a known c <= d with (b - a) - (d - c) = 0 by congruence of sums, maxima or function applications"""
        heads = lambda p: {x.op if x.op != 'fn' else x.args[0] for m in p for x, e in m} & {'sum', 'max', 'min', 'sqrt', 'exp', 'ksm'}
        g = s.N.nf(sub(goal.args[1], goal.args[0]), ctx, 0)
        if not heads(g) or goal.nb: return False
        for f in ctx.allfacts():
            if f.nb or f.op not in (('le', 'lt') if goal.op == 'le' else ('lt',)): continue
            q = s.N.nf(sub(f.args[1], f.args[0]), ctx, 0)
            if not heads(q) & heads(g): continue
            d = dict(g)
            for m, k in q.items():
                v = d.get(m, 0) - k
                if v: d[m] = v
                else: d.pop(m, None)
            if len(d) > 4 and not all(any(x.op == 'sum' for x, e in m) for m in d): continue
            mark = len(s.leaves)
            w = le(ZERO, p_to_term(d))
            if d and (s.monotone(w, ctx, depth) or s.termwise(w, ctx, depth)): s.backend['fact-congruence'] = s.backend.get('fact-congruence', 0) + 1; return True
            if not d or s.prove_zero(p_to_term(d), ctx, depth + 2):
                del s.leaves[mark:]; s.backend['fact-congruence'] = s.backend.get('fact-congruence', 0) + 1; return True
            del s.leaves[mark:]
        return False
    def termwise(s, goal, ctx, depth):
        """sum f <= sum g from f <= g term by term"""
        if goal.op != 'le': return False
        p = s.N.nf(sub(goal.args[1], goal.args[0]), ctx, 0)
        grp = {}
        for m, q in p.items():
            k = next((i for i, (a, e) in enumerate(m) if a.op == 'sum' and e == 1), None)
            if k is None: return False
            grp.setdefault(m[k][0].args[0], []).append((m, k, q))
        if not grp: return False
        mark = len(s.leaves)
        for n, lst in grp.items():
            x = fresh('k'); tot = ZERO
            for m, k, q in lst: tot = add(tot, mul(m_to_term(m[:k] + m[k + 1:], q), instantiate(m[k][0].args[1], x)))
            if not s.sub(le(ZERO, tot), ctx.extend(le(ZERO, x), lt(x, n)), depth):
                del s.leaves[mark:]; return False
        s.backend['termwise'] = s.backend.get('termwise', 0) + 1
        return True
    def split_facts(s, ctx, depth):
        """contradiction by cases on a bracket inside an exponential of a fact"""
        fs = ctx.allfacts(); cnd = None
        for f in fs:
            if f.op == 'forall' or not any(x.op == 'fn' and x.args[0] == 'exp' for x in subterms(f)): continue
            for x in subterms(f):
                if x.op == 'br' and x.args[0].nb == 0: cnd = x.args[0]; break
            if cnd is not None: break
        if cnd is None: return False
        for cc in (cnd, not_(cnd)):
            c2 = ROOT; todo = []
            for f in fs:
                if f.op in ('le', 'lt', 'eq') and not any(x.op == 'fn' for x in subterms(f)): c2 = c2.extend(f)
                else: todo.append(f)
            c2 = c2.extend(cc)
            for f in todo:
                try: g = s.N.p_to_b(s.N.nfb(f, c2, 0))
                except Budget: raise
                if isc(g) and not cv(g): c2 = None; break
                c2 = c2.extend(g)
            if c2 is None or c2.inconsistent(): s.backend['vacuous-case'] += 1; continue
            if not s.prove(FALSE, c2, depth + 2): return False
        return True

    def sum_instances(s, goal, ctx):
        """universal facts about sums, instantiated at the index constants of the goal"""
        ground = [v for v in goal.fv if v.sort == 'I' and '!' in v.args[0]][:3]
        new = []
        for f in ctx.allfacts():
            if f.op != 'forall' or not any(x.op == 'sum' for x in subterms(f.args[1])): continue
            for g in ground:
                if ctx.decide(le(ZERO, g)) and ctx.decide(lt(g, f.args[0])): new.append(instantiate(f.args[1], g))
        return ctx.extend(*new) if new else None

    def opened(s, f):
        """a nest of universal quantifiers: (variables, guards, body)"""
        r = s.opn.get(f)
        if r is None:
            vs, gs, b = [], [], f
            while True:
                neg = b.op == 'not' and b.args[0].op == 'exists'
                if not neg and b.op != 'forall': break
                q = b.args[0] if neg else b
                v = fresh('q'); vs.append(v); gs += [le(ZERO, v), lt(v, q.args[0])]
                b = instantiate(q.args[1], v)
                if neg: b = not_(b)
            r = s.opn[f] = (vs, gs, b)
        return r
    def ematch(s, goal, ctx, full=False):
        """instances of universal facts whose application terms match those of the goal"""
        pats = []
        for f in ctx.allfacts():
            if not (f.op == 'forall' or (f.op == 'not' and f.args[0].op == 'exists')): continue
            vs, gs, b = s.opened(f)
            for x in subterms(b):
                if x.op == 'app' and x.nb == 0 and set(vs) <= x.fv and all(not isinstance(a, T) or a in vs or not (a.fv & set(vs)) for a in x.args): pats.append((x, vs, gs, b)); 
        if not pats: return False
        done = set(); inst = []; todo = [x for x in subterms(goal) if x.op == 'app' and x.nb == 0]; seen = set(todo)
        for rnd in range(2):
            new = []
            for g in todo:
                for p, vs, gs, b in pats:
                    if p.args[0] != g.args[0] or len(p.args) != len(g.args): continue
                    m = {}
                    if not all((m.setdefault(a, z) is z) if a in vs else a is z for a, z in zip(p.args[1:], g.args[1:])): continue
                    k = (b, tuple(m[v] for v in vs))
                    if k in done: continue
                    done.add(k)
                    gg = [subst(q, m) for q in gs]
                    if any(ctx.decide(q) is False for q in gg): continue
                    i = or_(*[not_(q) for q in gg], subst(b, m))
                    inst.append(i); new += [x for x in subterms(i) if x.op == 'app' and x.nb == 0 and x not in seen]; seen.update(new)
                    if len(inst) > 24: break
            todo = new
        if not inst: return False
        small = ROOT.extend(*[f for f in ctx.allfacts() if f.op not in ('forall', 'or') and not any(x.op in BIND for x in subterms(f))])
        saved = s.smt_timeout
        if not full: s.smt_timeout = min(saved, 300)
        try: ok = s.smt(goal, (ctx if full else small).extend(*inst))
        finally: s.smt_timeout = saved
        if not ok and full:      # instances and goal in normal form, so that equal subterms are equal terms
            ni = []
            for i in inst[:12]:
                if not any(x.op in BIND for x in subterms(i)): continue
                j = s.N.p_to_b(s.N.nfb(i, ctx, 0))
                if isc(j):
                    if not cv(j): ok = True; break
                elif j is not i: ni.append(j)
            if ni and not ok:
                s.smt_timeout = min(saved, 600)
                try: ok = s.smt(s.N.p_to_b(s.N.nfb(goal, ctx, 0)), small.extend(*ni))
                finally: s.smt_timeout = saved
        if ok: s.backend['instances'] = s.backend.get('instances', 0) + 1; return True
        return False
    def assume(s, t, cnd, val): return t

    def elim(s, goal, ctx, depth):
        """eliminate a variable determined by an equality fact and retry"""
        if depth > 22 or s.elims > 60: return False
        facts = ctx.allfacts()
        for f in facts:
            if f.op != 'eq' or f.args[0].sort not in 'IR': continue
            for v in sorted(f.fv, key=lambda v: -v.id):
                if v.sort not in 'IR': continue
                if f.args[0] is v and v not in f.args[1].fv: sol = f.args[1]
                elif f.args[1] is v and v not in f.args[0].fv: sol = f.args[0]
                else: sol = solve_eq(f, v)
                if sol is None or v in sol.fv or (v.sort == 'I' and sol.sort != 'I'): continue
                if not any(v in g.fv for g in facts if g is not f) and v not in goal.fv: continue
                s.elims += 1
                nf = []
                for g in facts:
                    if g is f: continue
                    h = subst(g, {v: sol}) if v in g.fv else g
                    if h.op == 'and': nf += list(h.args)
                    elif isc(h):
                        if not cv(h): s.backend['vacuous-case'] += 1; return True
                    elif h not in nf: nf.append(h)
                c2 = ROOT
                for h in nf:
                    # nest so that later facts are normalised under earlier ones
                    c2 = c2.extend(h)
                if c2.inconsistent(): s.backend['vacuous-case'] += 1; return True
                return s.prove(subst(goal, {v: sol}), c2, depth + 1)
        return False

    def find_split(s, t, ctx):
        """an undecided condition of an ite occurring outside binders"""
        best = None
        seen = set(); st = [t]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op in BIND:
                for i, a in enumerate(x.args):
                    if isinstance(a, T) and i != BIND[x.op]: st.append(a)
                # closed conditions inside the body may be split as well
                for y in subterms(x.args[BIND[x.op]]):
                    if y.op in ('ite', 'br') and y.args[0].nb == 0 and not any(v.args[0].startswith('%') for v in y.args[0].fv):
                        st.append(y)
                continue
            if x.op in ('ite', 'br'):
                cnd = x.args[0]
                inner = s.find_split(cnd, ctx)
                if inner is not None: return inner
                if cnd.nb == 0 and ctx.decide(cnd) is None:
                    p = s.N.nfb(cnd, ctx, 0)
                    if not pisconst(p):
                        # split on an atomic condition
                        for m in p:
                            for a, e in m:
                                if a.op == 'br': return a.args[0]
                        return cnd
            for a in x.args:
                if isinstance(a, T): st.append(a)
        return best

    def prove_zero(s, t, ctx, depth=0):
        s.N.tick()
        p = s.N.nf(t, ctx, 0)
        if not p: s.backend['normaliser'] += 1; return True
        if ctx.inconsistent(): s.backend['vacuous-case'] += 1; return True
        if depth < 16:
            cnd = None
            # top-level brackets first
            cnt = {}
            for m in p:
                for a, e in m:
                    if a.op == 'br' and ctx.decide(a.args[0]) is None: cnt[a] = cnt.get(a, 0) + 1
            if cnt:
                cnd = max(cnt, key=lambda a: (cnt[a], -a.id)).args[0]
            else:
                cnd = s.find_split(p_to_term(p), ctx)
            if cnd is not None:
                s.splits += 1
                tt = t if len(p) > 60 else p_to_term(p)
                return s.prove_zero(tt, ctx.extend(cnd), depth + 1) and s.prove_zero(tt, ctx.extend(not_(cnd)), depth + 1)
        # clear denominators
        q = s.clear(p, ctx)
        if q is not None:
            if not q: s.backend['normaliser'] += 1; return True
            p = q
        r = s.rewrite_facts(p_to_term(p), ctx)
        if r is not None and depth < 14:
            return s.prove_zero(r, ctx, depth + 1)
        r = s.peel(p, ctx) if depth < 18 else None
        if r is not None:
            u, cond = r
            if cond is None: return s.prove_zero(u, ctx, depth + 1)
            return s.prove_zero(u, ctx.extend(cond), depth + 1) and s.prove_zero(u, ctx.extend(not_(cond)), depth + 1)
        if depth < 20 and s.nth_lemma(p, ctx, depth): return True
        if depth < 20 and s.merge_sums(p, ctx, depth): return True
        if depth < 20 and s.congruence(p, ctx, depth): return True
        g = eq(p_to_term(p), ZERO)
        if s.ematch(g, ctx): return True
        if s.smt(g, ctx): return True
        if s.elim(g, ctx, depth): return True
        if s.ematch(g, ctx, True): return True
        if s.saturated(g, ctx, depth): return True
        s.leaves.append(Leaf(g, ctx, 'zero'))
        return False

    def saturated(s, goal, ctx, depth):
        """retry with the consequences of the finite-set and bounded-quantifier facts"""
        if depth > 20 or s.sats > 12: return False
        new = s.saturate(goal, ctx)
        if not new: return False
        s.sats += 1
        c2 = ctx
        for f in new:
            f = s.N.p_to_b(s.N.nfb(f, c2, 0))
            if isc(f):
                if cv(f): continue
                s.backend['vacuous-case'] += 1; return True
            c2 = c2.extend(f)
        if c2.inconsistent(): s.backend['vacuous-case'] += 1; return True
        return s.prove(goal, c2, depth + 1)
    def saturate(s, goal, ctx):
        facts = ctx.allfacts(); N = s.N
        new = []
        big = [f for f in facts if f.op in ('lt', 'le', 'not', 'eq', 'or') and not f.nb and any(x.op == 'br' and not x.nb for x in subterms(f))][:4]
        for f in big:       # facts whose cases are settled by facts learnt later
            c2 = ROOT
            for g in facts:
                if g is not f: c2 = c2.extend(g)
            if c2.inconsistent(): return [FALSE]
            g = N.p_to_b(N.nfb(f, c2, 0))
            if not (isc(g) and cv(g)) and g not in facts: new.append(g)
        if not any(x.op in ('exists', 'enum') for f in facts + (goal,) for x in subterms(f)): return new
        def norm(b): return N.p_to_b(N.nfb(b, ROOT, 0))
        def emit(*bs):
            for b in bs:
                if b.op == 'and': emit(*b.args)
                elif not (isc(b) and cv(b)) and b not in facts and b not in new: new.append(b)
        work = list(facts) + list(ctx.nfacts()); seen = set(); rounds = 0
        enums = {}
        while work and rounds < 60:
            f = work.pop(0); rounds += 1
            if f in seen: continue
            seen.add(f)
            mark = len(new)
            for x in subterms(f):
                if x.op == 'enum' and not x.nb: s.enum_facts(x, ctx, enums, emit, norm)
            neg = f.op == 'not'; q = f.args[0] if neg else f
            if q.op == 'exists' and not q.nb:
                n = N.nf(q.args[0], ctx, 0); b = q.args[1]
                if n.get((), 0) == 1 and len(n) > 1:
                    m = p_to_term({k: z for k, z in n.items() if k != ()})
                    if ctx.decide(le(ZERO, m)) is True:
                        rest = mk('exists', (m, b), 'B'); last = instantiate(b, m)
                        if neg: emit(not_(norm(last)), not_(norm(rest)))
                        elif not N.nfb(rest, ctx, 0): emit(norm(last))
                        else: emit(or_(norm(rest), norm(last)))
                tot = mk('sum', (q.args[0], mk('br', (b,), 'I')), 'I')
                emit(norm(eq(tot, ZERO) if neg else le(ONE, tot)))
                if not neg:
                    i = s.witness.get(q)
                    if i is None: i = s.witness[q] = fresh('w')
                    emit(le(ZERO, i), lt(i, q.args[0]), norm(instantiate(b, i)))
            elif any(x.op in ('enum', 'card') for x in subterms(f)): emit(norm(f))
            work += new[mark:]
        for x in subterms(goal):
            if x.op == 'enum' and not x.nb: s.enum_facts(x, ctx, enums, emit, norm)
        es = list(enums.values())
        for i, a in enumerate(es):
            for b in es[:i]:
                if a.args[0] is b.args[0] and a.sort == 'I':
                    x, y = a.args[1], b.args[1]
                    emit(or_(not_(lt(x, y)), lt(a, b)), or_(not_(lt(y, x)), lt(b, a)), or_(not_(eq(x, y)), eq(a, b)))
        return new
    def enum_facts(s, x, ctx, enums, emit, norm):
        """the k-th element of a finite set is an element of it"""
        if x.sort != 'I': return
        a = s.N.nft(x, ROOT, 0)
        if a.op != 'enum' or a in enums: return
        if s.N.nfb(and_(le(ZERO, a.args[1]), lt(a.args[1], mk('card', (a.args[0], a.sort), 'I'))), ctx, 0) != ONEP: return
        enums[a] = a
        emit(norm(instantiate(a.args[0], a)))
    def peel(s, p, ctx):
        """an extremum over 1+m elements, from the one over the first m; returns (term, condition to split on)"""
        rep = {}
        for mm in p:
            for x, e in mm:
                if x.op not in ('max', 'min', 'argmax', 'argmin') or x.nb or x in rep or e != 1: continue
                n = s.N.nf(x.args[0], ctx, 0)
                if n.get((), 0) != 1 or len(n) < 2: continue
                m = p_to_term({k: q for k, q in n.items() if k != ()}); b = x.args[1]
                mx = x.op.endswith('max'); arg = x.op.startswith('arg')
                if ctx.decide(le(m, ZERO)) is True and ctx.decide(le(ZERO, m)) is True: rep[x] = ZERO if arg else instantiate(b, ZERO); continue
                if ctx.decide(le(ONE, m)) is not True:
                    if ctx.decide(le(ZERO, m)) is not True: continue
                    return p_to_term(p), le(ONE, m)
                old = mk('max' if mx else 'min', (m, b), 'R' if arg else x.sort); last = instantiate(b, m)
                cond = lt(old, last) if mx else lt(last, old)
                rep[x] = ite(cond, m, mk(x.op, (m, b), 'I')) if arg else ite(cond, last, old)
        if not rep: return None
        t = ZERO
        for mm, q in p.items():
            f = c(q)
            for x, e in mm: f = mul(f, (rep.get(x, x) if e == 1 else mk('pw', (x, e), 'R' if x.sort == 'R' or e < 0 else 'I')))
            t = add(t, f)
        return t, None
    def rewrite_facts(s, t, ctx):
        """use equational facts  atom == expr  as rewrite rules (oriented towards the smaller term)"""
        m = {}
        for f in ctx.allfacts():
            if f.op == 'eq' and f.args[0].sort != 'B':
                a, b = f.args
                na, nb_ = s.N.nft(a, ROOT, 0), s.N.nft(b, ROOT, 0)
                for x, y in ((na, nb_), (nb_, na)):
                    if x.op in ('v', 'app') and x not in subterms_set(y) and (size(x), x.id) > (size(y) if y.op in ('v', 'app', 'c') else size(x) - 1, y.id if y.op in ('v', 'app') else 0):
                        m[x] = y; break
                else:
                    # linear equation with a variable of unit coefficient
                    pp = padd(s.N.nf(a, ROOT, 0), s.N.nf(b, ROOT, 0), -1)
                    for mm, q in pp.items():
                        if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op in ('v', 'app') and (abs(q) == 1 or mm[0][0].sort == 'R'):
                            x = mm[0][0]
                            rest = dict(pp); rest.pop(mm)
                            if any(x in subterms_set(aa) for m2 in rest for aa, _ in m2): continue
                            if x in m: continue
                            m[x] = p_to_term(pscale(rest, -1 / q)); break
        if not m: return None
        memo = {}
        def go(t):
            r = memo.get(t)
            if r is not None: return r
            r = t
            if t in m: r = m[t]
            elif t.op not in ('c', 'v', 'b'):
                r = rebuild(t, tuple(go(a) if isinstance(a, T) else a for a in t.args))
                if r.op == 'app' and r in m: r = m[r]
            memo[t] = r
            return r
        r = go(t)
        return r if r is not t else None

    def clear(s, p, ctx):
        if not any(e < 0 for m in p for a, e in m): return None
        for _ in range(8):
            den = {}
            for m in p:
                for a, e in m:
                    if e < 0: den[a] = max(den.get(a, 0), -e)
            if not den: break
            a, k = next(iter(den.items()))
            base = s.N.nf(a.args[0], ctx, 0) if a.op == 'poly' else atom(a)
            r = {}
            for m, q in p.items():
                dm = dict(m); e = dm.pop(a, 0) + k
                x = {mnorm(dm): q}
                for _ in range(e): x = pmul(x, base)
                r = padd(r, x)
            p = r
            if not p: break
        return p

    def monotone(s, goal, ctx, depth):
        """0 <= m*(F(b) - F(a)) for F = exp, g**x (0 < g <= 1) and integer division by a positive number"""
        p = s.N.nf(sub(goal.args[1], goal.args[0]), ctx, 0)
        if len(p) != 2: return False
        (m1, q1), (m2, q2) = p.items()
        if q1 != -q2: return False
        if q1 < 0: m1, m2, q1 = m2, m1, q2
        d1, d2 = dict(m1), dict(m2)
        com = {a: e for a, e in d1.items() if d2.get(a) == e}
        a = [x for x in d1.items() if x[0] not in com]; b = [x for x in d2.items() if x[0] not in com]
        mark = len(s.leaves)
        def fname(x): return x.args[0] if x.op == 'fn' else x.op
        hd = {fname(x[0]) for x in a + b}
        def tot(l):
            r = ZERO
            for x, e in l: r = add(r, mul(c(e), x.args[1]))
            return r
        if not (a or b): return False
        if hd == {'exp'}: ob = [le(tot(b), tot(a))]
        elif len(a) > 1 or len(b) > 1 or any(e != 1 for _, e in a + b): return False
        elif hd == {'pow'} and a and b and a[0][0].args[1] is b[0][0].args[1]:
            g = a[0][0].args[1]; ob = [lt(ZERO, g), le(g, ONE), le(a[0][0].args[2], b[0][0].args[2])]
        elif hd == {'sqrt'} and a and b: ob = [le(b[0][0].args[1], a[0][0].args[1]), le(ZERO, b[0][0].args[1])]
        elif hd == {'idiv'} and a and b and a[0][0].args[1] is b[0][0].args[1]:
            ob = [lt(ZERO, a[0][0].args[1]), le(b[0][0].args[0], a[0][0].args[0])]
        else: return False
        ob.append(le(ZERO, m_to_term(mnorm(com), q1)))
        if all(s.sub(o, ctx, depth) for o in ob):
            s.backend['monotonicity'] = s.backend.get('monotonicity', 0) + 1
            return True
        del s.leaves[mark:]
        return False
    def nth_lemma(s, p, ctx, depth):
        """sel(e) and #{z < e : sel(z)} = r  ==>  nth(sel, r) = e"""
        for m, q in p.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'nth' and abs(q) == 1:
                a = m[0][0]
                rest = {k: v for k, v in p.items() if k != m}
                if any(x.op == 'nth' for k in rest for x, e in k): continue
                e = p_to_term(pscale(rest, -1 / q))
                if e.sort != 'I': continue
                body, r = a.args
                mark = len(s.leaves)
                ok = s.sub(le(ZERO, e), ctx, depth) and s.sub(instantiate(body, e), ctx, depth) and s.sub(eq(mk('sum', (c(e), brbody(body)), 'I'), r), ctx, depth)
                if ok: del s.leaves[mark:]; s.backend['nth-lemma'] = s.backend.get('nth-lemma', 0) + 1; return True
                del s.leaves[mark:]
        return False
    def merge_sums(s, p, ctx, depth):
        groups = {}
        rest = {}
        for m, q in p.items():
            k = next((i for i, (a, e) in enumerate(m) if a.op == 'sum' and e == 1), None)
            if k is None: rest[m] = q; continue
            groups.setdefault(m[k][0].args[0], []).append((m, k, q))
        if rest or not groups: return False
        for n, lst in groups.items():
            if len(lst) < 2: return False
        mark = len(s.leaves)
        for n, lst in groups.items():
            x = fresh('k')
            tot = ZERO
            for m, k, q in lst:
                o = m_to_term(m[:k] + m[k + 1:], q)
                tot = add(tot, mul(o, instantiate(m[k][0].args[1], x)))
            if not s.prove_zero(tot, ctx.extend(le(ZERO, x), lt(x, n)), depth + 1):
                del s.leaves[mark:]
                return False
        return True

    def congruence(s, p, ctx, depth):
        """unify pairs of same-shaped atoms with provably equal arguments"""
        atoms = []
        for m in p:
            for a, e in m:
                if a.op not in ('v',) and a not in atoms: atoms.append(a)
        mark = len(s.leaves)
        for i in range(len(atoms)):
            for j in range(i + 1, len(atoms)):
                a, b = atoms[i], atoms[j]
                if not same_head(a, b): continue
                pr = s.unify(a, b, ctx, depth)
                if pr:
                    def rep(m):
                        d = {}
                        for x, e in m:
                            x = b if x is a else x
                            d[x] = d.get(x, 0) + e
                        return mnorm(d)
                    r = {}
                    for m, q in p.items():
                        mm = rep(m)
                        v = r.get(mm, 0) + q
                        if v: r[mm] = v
                        else: r.pop(mm, None)
                    del s.leaves[mark:]
                    if not r: return True
                    return s.prove_zero(p_to_term(r), ctx, depth + 1)
                del s.leaves[mark:]
        return False
    def unify(s, a, b, ctx, depth):
        """prove two same-headed atoms equal by proving their arguments equal"""
        if depth > 8: return False
        for k, (x, y) in enumerate(zip(a.args, b.args)):
            if not isinstance(x, T):
                if x != y: return False
                continue
            if x is y: continue
            if BIND.get(a.op, -1) == k:
                vs = 'I'
                if a.op == 'card': vs = a.args[1]
                if a.op == 'enum': vs = a.sort
                v = fresh('k', vs)
                c2 = ctx
                if a.op in ('sum', 'prod', 'max', 'min', 'argmax', 'argmin', 'exists', 'ksm'):
                    c2 = ctx.extend(le(ZERO, v), lt(v, a.args[0]))
                g = eq(instantiate(x, v), instantiate(y, v))
                if not s.sub(g, c2, depth): return False
            else:
                if not s.sub(eq(x, y), ctx, depth): return False
        return True
    def sub(s, g, ctx, depth):
        s.N.tick()
        saved = s.smt_timeout
        s.smt_timeout = min(saved, 500)
        try: return s.prove(g, ctx, max(depth + 2, 8))
        finally: s.smt_timeout = saved

    def smt(s, goal, ctx):
        t0 = time.time()
        try:
            sv = z3.Solver()
            # a deterministic resource limit decides (machine load does not); the wall-clock limit is only a backstop
            sv.set('rlimit', int(s.smt_timeout * 1500)); sv.set('timeout', int(max(100, min(6 * s.smt_timeout, (s.deadline - t0) * 1000))))
            tr = Z3Tr(None)
            for f in ctx.allfacts() + ctx.nfacts():
                sv.add(tr.b(f))
            sv.add(z3.Not(tr.b(goal)))
            if len(sv.assertions()) == 0: return False
            s.bind_axioms(goal, ctx, tr, sv)
            for a in tr.axioms(): sv.add(a)
            r = sv.check()
            if r == z3.unsat:
                s.backend['z3'] += 1
                return True
            return False
        except (NoTr, z3.Z3Exception):
            return False
        finally:
            s.z3time += time.time() - t0

    def bind_axioms(s, goal, ctx, tr, sv):
        """defining axioms for extremum atoms occurring in the query"""
        todo = [goal] + list(ctx.allfacts())
        seen = set()
        ground = [v for v in goal.fv if v.sort == 'I' and '!' in v.args[0]][:4]
        for t in todo:
            for x in subterms(t):
                if x in seen or x.nb: continue
                seen.add(x)
                if x.op in ('max', 'min'):
                    n, b = x.args
                    q = fresh('q')
                    bq = instantiate(b, q)
                    rel = le(bq, x) if x.op == 'max' else le(x, bq)
                    try:
                        zq = z3.Int(q.args[0])
                        zb = tr.b(rel)
                        rng = z3.And(zq >= 0, zq < tr.t(n))
                        sv.add(z3.ForAll([zq], z3.Implies(rng, zb)))
                        for g in ground:
                            sv.add(tr.b(implies(and_(le(ZERO, g), lt(g, n)), (lambda y: le(y, x) if x.op == 'max' else le(x, y))(instantiate(b, g)))))
                        w = fresh('w')
                        sv.add(z3.Implies(tr.t(n) > 0, tr.b(and_(le(ZERO, w), lt(w, n), eq(instantiate(b, w), x)))))
                    except NoTr: pass
                if x.op in ('argmax', 'argmin'):
                    n, b = x.args
                    q = fresh('q')
                    best = instantiate(b, x); bq = instantiate(b, q)
                    rel = le(bq, best) if x.op == 'argmax' else le(best, bq)
                    strict = lt(bq, best) if x.op == 'argmax' else lt(best, bq)
                    try:
                        zq = z3.Int(q.args[0]); nn = tr.t(n); xx = tr.t(x)
                        sv.add(z3.Implies(nn > 0, z3.And(xx >= 0, xx < nn)))
                        sv.add(z3.Implies(nn > 0, tr.b(eq(best, mk('max' if x.op == 'argmax' else 'min', (n, b), b.sort)))))
                        zr = tr.b(rel); zs = tr.b(strict)
                        for g in ground:
                            y = instantiate(b, g)
                            sv.add(tr.b(implies(and_(le(ZERO, g), lt(g, n)), le(y, best) if x.op == 'argmax' else le(best, y))))
                            if ctx.decide(and_(le(ZERO, g), lt(g, n))):
                                yn, bn = s.N.nft(y, ctx, 0), s.N.nft(best, ctx, 0)
                                if yn is not y or bn is not best: sv.add(tr.b(le(yn, bn) if x.op == 'argmax' else le(bn, yn)))
                        sv.add(z3.ForAll([zq], z3.Implies(z3.And(zq >= 0, zq < nn), zr)))
                        sv.add(z3.ForAll([zq], z3.Implies(z3.And(zq >= 0, zq < xx, xx < nn), zs)))
                    except NoTr: pass
                if x.op == 'nth': s.nth_axioms(x, todo, ctx, tr, sv)
                if x.op == 'card': s.card_axioms(x, ctx, tr, sv)

    def nth_axioms(s, x, todo, ctx, tr, sv):
        """r < #{z < K : sel(z)}  ==>  nth(sel, r) < K and sel(nth(sel, r))"""
        nx = s.N.nft(x, ctx, 0)
        if nx.op != 'nth': return
        r = nx.args[1]; done = set()
        try:
            if nx is not x: sv.add(tr.t(x) == tr.t(nx))
            for t in todo:
                for y in subterms(t):
                    if y.op != 'sum' or y.nb or y in done: continue
                    done.add(y)
                    b = y.args[1]
                    if not (b.op == 'br' or b.op == 'ite' and b.args[1] is ONE and b.args[2] is ZERO): continue
                    K = y.args[0]
                    z = fresh('z')
                    c2 = ctx.extend(le(ZERO, z), lt(z, K))
                    p = padd(s.N.nf(instantiate(b, z), c2, 0), s.N.nf(br(instantiate(nx.args[0], z)), c2, 0), -1)
                    if p: continue
                    sv.add(tr.b(implies(and_(le(ZERO, r), lt(r, y)), and_(lt(nx, K), instantiate(nx.args[0], nx)))))
        except NoTr: pass

    def card_axioms(s, x, ctx, tr, sv):
        """0 <= #{q : exists j < n. q = g(j)} <= n, and at least 1 when n >= 1"""
        q = var('%cq', x.args[1])
        h = instantiate(x.args[0], q)
        if h.op != 'exists': return
        j = var('%cj')
        e = instantiate(h.args[1], j)
        if e.op != 'eq': return
        p = s.N.nf(sub(e.args[0], e.args[1]), ctx, 0)
        k = p.get(((q, 1),))
        if k is None or any(q in a.fv for m in p if m != ((q, 1),) for a, _ in m): return
        try:
            n = tr.t(h.args[0]); r = tr.t(x)
            sv.add(z3.Implies(n >= 1, z3.And(r >= 1, r <= n)))
        except NoTr: pass

def brbody(body):
    return mk('br', (body,), 'I')
def same_head(a, b):
    if a.op != b.op or len(a.args) != len(b.args): return False
    if a.op in ('app', 'fn') and a.args[0] != b.args[0]: return False
    if a.op == 'v' or a.op == 'c': return False
    return True
_ss = {}
def subterms_set(t):
    r = _ss.get(t)
    if r is None:
        r = frozenset(subterms(t)); _ss[t] = r
    return r
_sz = {}
def size(t):
    r = _sz.get(t)
    if r is None:
        r = 1 + sum(size(a) for a in t.args if isinstance(a, T))
        _sz[t] = r
    return r

# ------------------------------------------------------------------ numeric evaluation
class EvalErr(Exception): pass
class Model:
    """numeric interpretation: vars: name->value ; funs: name->callable(*args)"""
    def __init__(s, rng=None, maxdim=4):
        s.vars = {}; s.funs = {}; s.rng = rng or random.Random(0); s.auto = {}
        s.maxdim = maxdim; s.steps = 0
        s.realpool = [-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0]
        s.intpool = [0, 1, 2, 3]
    def getvar(s, t):
        n = t.args[0]
        if n not in s.vars:
            s.vars[n] = s.draw(t.sort)
        return s.vars[n]
    def draw(s, sort):
        if sort == 'I': return s.rng.choice(s.intpool)
        if sort == 'B': return s.rng.random() < 0.5
        if sort == 'U': return 's%d' % s.rng.randrange(4)
        if s.rng.random() < 0.6: return s.rng.choice(s.realpool)
        return round(s.rng.uniform(-3, 3), 2)
    def getapp(s, f, args, sort):
        if f in s.funs: return s.funs[f](*args)
        k = (f,) + tuple(args)
        if k not in s.auto: s.auto[k] = s.draw(sort)
        return s.auto[k]
def _idx(v):
    return v
def evalt(t, M):
    cache = {}
    def ev(t, env):
        M.steps += 1
        if M.steps > 3000000: raise EvalErr('steps')
        op = t.op; a = t.args
        if op == 'c':
            v, k = a
            if k == 'N': return int(v) if v.denominator == 1 else float(v)
            return v
        if op == 'b': return env[-1 - a[0]]
        if op == 'v': return M.getvar(t)
        if t.nb == 0:
            if t in cache: return cache[t]
            r = ev2(t, env)
            cache[t] = r
            return r
        return ev2(t, env)
    def ev2(t, env):
        op = t.op; a = t.args
        if op == 'app': return M.getapp(a[0], [ev(x, env) for x in a[1:]], t.sort)
        if op == 'add': return sum(ev(x, env) for x in a)
        if op == 'mul':
            r = 1
            for x in a: r = r * ev(x, env)
            return r
        if op == 'pw':
            b = ev(a[0], env)
            if b == 0 and a[1] < 0: return math.nan
            return b ** a[1]
        if op == 'poly': return ev(a[0], env)
        if op == 'inv':
            b = ev(a[0], env)
            if b == 0: return math.nan
            return 1 / b
        if op == 'ite': return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
        if op == 'br': return 1 if ev(a[0], env) else 0
        if op == 'lt': return ev(a[0], env) < ev(a[1], env)
        if op == 'le': return ev(a[0], env) <= ev(a[1], env)
        if op == 'eq': return ev(a[0], env) == ev(a[1], env)
        if op == 'not': return not ev(a[0], env)
        if op == 'and':
            for x in a:
                if not ev(x, env): return False
            return True
        if op == 'or':
            for x in a:
                if ev(x, env): return True
            return False
        if op == 'idiv':
            x, y = ev(a[0], env), ev(a[1], env)
            if y == 0: raise EvalErr('div0')
            return x // y
        if op == 'imod':
            x, y = ev(a[0], env), ev(a[1], env)
            if y == 0: raise EvalErr('div0')
            return x % y
        if op == 'floor':
            x = ev(a[0], env)
            if x != x or abs(x) == math.inf: raise EvalErr('floor nan')
            return math.floor(x)
        if op == 'fn':
            f = a[0]; xs = [ev(x, env) for x in a[1:]]
            try:
                if f == 'exp': return math.exp(xs[0]) if -700 < xs[0] < 700 else (mpmath.exp(xs[0]) if abs(xs[0]) != math.inf else (math.inf if xs[0] > 0 else 0.0))
                if f in ('log', 'sqrt') and isinstance(xs[0], mpmath.mpf): return getattr(mpmath, f)(xs[0]) if xs[0] >= 0 else math.nan
                if f == 'log':
                    if xs[0] == 0: return -math.inf
                    return math.log(xs[0]) if xs[0] > 0 else math.nan
                if f == 'sqrt': return math.sqrt(xs[0]) if xs[0] >= 0 else math.nan
                if f == 'pow': r = float(xs[0]) ** xs[1]; return r if not isinstance(r, complex) else math.nan
                if f in MODELFN: return MODELFN[f](*xs)
            except (ValueError, OverflowError, ZeroDivisionError): return math.nan
            raise EvalErr('fn ' + f)
        if op == 'all': raise EvalErr('all')
        if op in ('sum', 'prod', 'max', 'min', 'argmax', 'argmin', 'exists', 'forall'):
            n = ev(a[0], env)
            if n > 200: raise EvalErr('range')
            b = a[1]
            if op == 'sum': return sum(ev(b, env + (k,)) for k in range(n))
            if op == 'prod':
                r = 1
                for k in range(n): r *= ev(b, env + (k,))
                return r
            if op == 'exists': return any(ev(b, env + (k,)) for k in range(n))
            if op == 'forall': return all(ev(b, env + (k,)) for k in range(n))
            if n <= 0: raise EvalErr('empty ' + op)
            xs = [ev(b, env + (k,)) for k in range(n)]
            if op == 'max': return max(xs)
            if op == 'min': return min(xs)
            return xs.index(max(xs)) if op == 'argmax' else xs.index(min(xs))
        if op == 'ksm':
            n = ev(a[0], env); i = ev(a[2], env)
            if not 0 <= i < n: raise EvalErr('ksm')
            return sorted(ev(a[1], env + (k,)) for k in range(n))[i]
        if op == 'nth':
            i = ev(a[1], env); k = 0; s_ = 0
            while True:
                if k > 300: raise EvalErr('nth')
                if ev(a[0], env + (k,)):
                    if s_ == i: return k
                    s_ += 1
                k += 1
        if op in ('card', 'enum'):
            dom = M.vars.get('__dom__')
            if dom is None: raise EvalErr('set')
            el = sorted(q for q in dom if ev(a[0], env + (q,)))
            if op == 'card': return len(el)
            i = ev(a[1], env)
            if not 0 <= i < len(el): raise EvalErr('enum')
            return el[i]
        raise EvalErr(op)
    return ev(t, ())
MODELFN = {'tanh': math.tanh}
