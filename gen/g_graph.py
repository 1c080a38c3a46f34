"""Episodes about factor graphs: random lives, with every kind of variable and factor."""
import math
from base import *
import g_vars

def ids(r):
    """A stream of ids: increasing, decreasing, huge, negative or shuffled."""
    m = r.randrange(5); used = set(); n = 0
    while True:
        n += 1
        x = n if m == 0 else -n if m == 1 else 1000 - n if m == 2 else r.randint(-2**31, 2**31 - 1) if m == 3 or n > 150 else r.randint(-3, 40)
        if x not in used: used.add(x); yield x

def lin_usr(S, vs, rows=None, id=None, wgt=None, sparse=0.2):
    r = S.r; n = sum(S.size(s) for s in vs); m = rows or n
    A = [[0.0 if i != j and r.random() < sparse else r.g() for j in range(n)] for i in range(m)]
    for i in range(min(m, n)): A[i][i] += r.choice([2.0, -2.0])
    return S.fac('usr', vs, [wgt or r.choice([1.0, 0.5, 3.0]), m] + flat(A) + r.vec(m, 2), [0], id)

def prior(S, s, id=None, id2=None):
    """Factors that determine variable s on their own."""
    r = S.r; k = S.k[s]; sg = lambda: r.choice([1.0, 0.5, 0.1, 2.0])
    if k == 'pose': return [S.fac('ppp', [s], [sg()] + r.vec(3, 3), [], id), S.fac('pop', [s], [sg()] + flat(rot(r.mild())), [], id2)]
    if k == 'rot': return [S.fac('rp', [s], [sg()] + flat(rot(r.mild())), [], id)]
    if k == 'pose2': return [S.fac('p2p', [s], [sg(), sg()] + r.vec(2, 3) + [r.uniform(-3, 3)], [], id)]
    if k == 'plane': return [S.fac('plp', [s], [sg(), sg()] + r.unit() + [r.g(2)], [], id)]
    if k == 'ir': return [lin_usr(S, [s], 1, id)]
    if r.random() < 0.7: return [S.fac('gp', [s], [sg()] + r.vec(S.size(s), 2), [], id)]
    return [lin_usr(S, [s], None, id)]

def build(S, nvars, nfacs, kinds=KINDS, const=0.25, factors=FACTORS, close=True):
    """Variables and factors (not yet in a graph).  Returns (variable slots, factor slots)."""
    r = S.r; vi = ids(r); fi = ids(r)
    S.newid = lambda: next(vi)
    pool = []
    for _ in range(nvars):
        k = r.choice(kinds); pool.append(S.rvar(k, tame=True, id=next(vi), const=r.random() < const))
    fs = []
    for _ in range(nfacs):
        k = r.choice(factors)
        if k == 'usr': fs.append(lin_usr(S, r.sample(pool, min(len(pool), r.randint(1, 3))), r.randint(1, 4), next(fi))); continue
        vs = make_vars(S, k, tame=True, pool=pool, const=const)
        d, n = make_args(S, k, vs, sig=lambda: r.choice([1.0, 0.3, 2.0]))
        fs.append(S.fac(k, vs, d, n, next(fi)))
    if close:
        for s in pool: fs += prior(S, s, next(fi), next(fi))
    S.fi = fi; S.vi = vi
    return pool, fs

def state_len(S, vs): return sum(S.size(s) for s in vs if not S.c[s])
def state_rand(S, vs):
    v = []
    for s in vs:
        if not S.c[s]: v += (S.r.vec(3, 3) + S.r.mild()) if S.k[s] == 'pose' else S.r.mild() if S.k[s] == 'rot' else [S.r.log(0.05, 20)] if S.k[s] == 'ir' else S.r.unit() + [S.r.g(2)] if S.k[s] == 'plane' else S.r.vec(2, 3) + [S.r.heading()] if S.k[s] == 'pose2' else S.r.vec(S.size(s), 3)
    return v

def state_grid(S, vs):
    """values on a grid and aligned with the axes: many derivatives are exactly zero here, and only here"""
    r = S.r; v = []; I = lambda n, z=0.5: [0.0 if r.random() < z else float(r.randint(-4, 4)) for _ in range(n)]
    for s in vs:
        if S.c[s]: continue
        k = S.k[s]
        v += I(3) + [0.0] * 3 if k == 'pose' else [0.0] * 3 if k == 'rot' else [r.choice([0.5, 1.0, 2.0])] if k == 'ir' else \
             r.choice([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]) + I(1) if k == 'plane' else I(2) + [0.0] if k == 'pose2' else I(S.size(s))
    return v

def setc(S, s, c): S('setc', s, int(c)); S.c[s] = bool(c)

def ep_life(S, ri=0, focus=None, nvars=None, steps=None):
    r = S.r
    light = focus in ('P01', 'P02', 'P03')
    pool, fs = build(S, nvars or r.randint(1, 6), r.randint(0, 5), const=r.choice([0, 0.2, 0.6]), close=r.random() < 0.85,
                     kinds=r.choice([KINDS, LINEAR, KINDS]), factors=r.choice([FACTORS, ['gp', 'gb', 'usr'], FACTORS + ['usr'] * 6]))
    # a null and an outsider variable now and then
    pend_v = list(pool); pend_f = list(fs); r.shuffle(pend_v) if r.random() < 0.5 else None; r.shuffle(pend_f) if r.random() < 0.5 else None
    first = r.random()
    ins = []; S_in = lambda: ins
    g = r.randrange(3)
    # initial part of the graph
    nv0 = len(pend_v) if first < 0.8 else r.randint(0, len(pend_v)); nf0 = len(pend_f) if first < 0.7 else r.randint(0, len(pend_f))
    seq = [('v', s) for s in pend_v[:nv0]] + [('f', f) for f in pend_f[:nf0]]
    if r.random() < 0.3: r.shuffle(seq)
    for t, s in seq:
        S('addv' if t == 'v' else 'addf', g, s)
        if t == 'v': ins.append(s)
        if r.random() < 0.08: S(r.choice(['lists', 'flags', 'fin', 'print', 'getx']), g)
    pend_v = pend_v[nv0:]; pend_f = pend_f[nf0:]
    if r.random() < 0.9: S('fin', g)
    W = dict(P01=dict(add=6, dup=5, get=6, lists=5), P02=dict(add=4, fin=7, lay=4, setc=4, null=2), P03=dict(add=4, fin=4, comp=6, acc=8, flags=4, setc=2),
             P04=dict(comp=10, vset=5, incx=2, setx=2), P05=dict(comp=10, vset=5, incx=2, setx=4, setc=1, add=1, fin=2), P06=dict(getx=5, setx=6, incx=6, setc=2, vset=2)).get(focus, {})
    base = dict(add=2, dup=1, get=1, lists=1, fin=2, lay=1, setc=1, null=0.3, comp=3, acc=2, flags=1, vset=2, getx=1, setx=1, incx=1, arm=0.3, print=0.3)
    for k in W: base[k] = W[k]
    ops = list(base); ws = [base[k] for k in ops]
    for _ in range(steps or r.randint(8, 24)):
        o = r.choices(ops, ws)[0]
        if o == 'add':
            if pend_v and r.random() < 0.5: s = pend_v.pop(0); S('addv', g, s); ins.append(s)
            elif pend_f: S('addf', g, pend_f.pop(0))
            else:
                s = S.rvar(r.choice(KINDS), tame=True, id=next(S.vi), const=r.random() < 0.3); pool.append(s)
                pend_v.append(s); pend_f += prior(S, s, next(S.fi), next(S.fi))
            if r.random() < 0.6: S('fin', g)
        elif o == 'dup':
            if ins and r.random() < 0.6:
                q = r.random()
                s = r.choice(ins)
                if q < 0.5: S('addv', g, s)
                else: t = S.rvar(r.choice(KINDS), tame=True, id=S.id[s]); S('addv', g, t)
            elif S.nf: S('addf', g, r.randrange(S.nf))
            if r.random() < 0.5: S('fin', g)
        elif o == 'get':
            i = r.choice([S.id[r.choice(pool)] if pool else 0, r.randint(-5, 50), next(S.vi), 2**31 - 1, 0, -1]); S('getv', g, i)
        elif o == 'lists': S('lists', g)
        elif o == 'fin': S('fin', g)
        elif o == 'lay': S('lay', g)
        elif o == 'print': S('print', g)
        elif o == 'flags': S('flags', g)
        elif o == 'setc':
            s = r.choice(pool) if pool else None
            if s is not None:
                if r.random() < 0.4:      # two of the same size trade places: the layout changes, its size does not
                    t = [x for x in pool if S.size(x) == S.size(s) and S.c[x] != S.c[s] and x in ins]
                    if t and s in ins: setc(S, r.choice(t), S.c[s])
                setc(S, s, not S.c[s])    # only ever followed by finalize_structure(): in between the graph's layout is out of date
                S('fin', g)
        elif o == 'null':
            q = r.random()
            if q < 0.4: f = S.fac('usr', [-1], [1.0, 1.0, 1.0, 0.0], [0], next(S.fi))
            elif q < 0.7 and ins:                 # a stranger with the id of a variable of the graph
                t = r.choice(ins); k = S.k[t] if r.random() < 0.7 else 'gen'
                s = S.rvar(k, S.size(t) if k in ('gen', 'usr') else None, True, id=S.id[t], const=r.random() < 0.2); f = prior(S, s, next(S.fi), next(S.fi))[0]
            else:
                s = S.rvar('gen', 2, True, id=next(S.vi), const=r.random() < 0.5); f = S.fac('gp', [s], [1.0] + r.vec(2), [], next(S.fi))
                if r.random() < 0.5: pend_v.append(s)
            S('addf', g, f); S('fin', g)
        elif o == 'comp':
            q = r.choice(['r0', 'r1', 'j', 's', 'b', 'b', 's'] if focus != 'P04' else ['r0', 'r1', 'r1', 'b', 'r0'])
            if q[0] == 'r': S('resid', g, q[1], vec(r.choice([[], r.vec(3), [float('nan')] * 40, r.vec(r.randint(0, 60))])))
            elif q == 's': S('sjac', g, 0)
            elif q == 'j': S('jac', g)
            else: S('both', g)
            if r.random() < 0.3: S('acc', g, r.choice('rjs'))
        elif o == 'acc': S('acc', g, r.choice('rjs'))
        elif o == 'vset':
            s = r.choice(pool) if pool else None
            if s is not None:
                t = S.k[s]
                S('vinc', s, vec(r.vec(3) + r.mild() if t == 'pose' else r.mild() if t == 'rot' else [r.g(0.01)] if t == 'ir' else r.vec(3, 0.2) + [r.g()] if t == 'plane' else r.vec(S.size(s))))
        elif o == 'getx': S('getx', g)
        elif o in ('setx', 'incx'):
            v = state_grid(S, ins) if o == 'setx' and r.random() < 0.4 else state_rand(S, ins) if o == 'setx' else [x * 0.3 for x in state_rand(S, ins)]
            if r.random() < 0.15:        # tiny values and increments of what is linear
                at = 0
                for s in ins:
                    if S.c[s]: continue
                    if S.k[s] in ('gen', 'usr', 'lm') and r.random() < 0.7: q = 10.0 ** -r.randint(9, 16); v[at:at + S.size(s)] = [x * q for x in v[at:at + S.size(s)]]
                    at += S.size(s)
                if r.random() < 0.6: S('setx', g, vec([x * 1e-13 for x in v] if all(S.k[s] in ('gen', 'usr', 'lm') for s in ins) else v))
            if r.random() < 0.2: v = v[:-1] if r.random() < 0.5 and v else v + [1.0] * r.randint(1, 3)
            S(o, g, vec(v))
        elif o == 'arm':
            u = [f for f in S.f if S.f[f][0] == 'usr']
            if u:
                f = r.choice(u); S('arm', f, r.choice([0, 1]), r.choice([0, 1])); S(*r.choice([('both', g), ('jac', g), ('sjac', g, 0)])) if r.random() < .7 else S('resid', g, 0, vec([])); S('arm', f, 0, 0); S('both', g); S('acc', g, 's')
    S('fin', g); S('both', g); S('sjac', g, 0); S('acc', g, 'r'); S('lists', g)

def ep_ftest(S, ri=0):
    """detailed_factor_test on graphs of user-defined factors with right and wrong Jacobians (P26)."""
    r = S.r; vi = ids(r)
    vs = [S.var(r.choice(['gen', 'usr', 'lm']), r.vec(3), next(vi), r.random() < 0.2) for _ in range(r.randint(1, 3))]
    for s in vs: S('addv', 0, s)
    for s in vs:
        q = r.random()
        f = lin_usr(S, [s], 3, None, 1.0)
        S('addf', 0, f)
    tol = r.choice([1e-5, 1e-4, 1e-6, 1e-3])
    wrong = r.random() < 0.6
    for _ in range(r.randint(1, 3)):
        w = r.sample(vs, r.randint(1, len(vs))); n = 3 * len(w); m = r.randint(1, 3)
        if wrong:
            row = r.randrange(m); c = r.randrange(n); delta = r.choice([1, -1]) * r.choice([0.02, 0.05, 1.0, 10.0, 1e-9])
            S('addf', 0, S.fac('usr', w, [row, c, delta, 1.0, m] + r.vec(m * n) + r.vec(m), [4, c // 3], 100 + S.nf))
        else:
            q = r.randrange(2)
            S('addf', 0, lin_usr(S, w, m, 100 + S.nf, 1.0))
    if r.random() < 0.9: S('fin', 0)
    S('ftest', 0, hx(tol), r.randrange(2)); S('getx', 0)
    for s in vs:
        if r.random() < 0.3: S('vinc', s, vec(r.vec(3)))
    S('ftest', 0, hx(tol), 0); S('both', 0)

def ep_print(S, ri=0):
    """What variables and graphs print, at ordinary and at special values (P32)."""
    r = S.r; g = r.randrange(2)
    pool, fs = build(S, r.randint(0, 5), r.randint(0, 4), const=r.choice([0, 0, 0.3, 1]), close=r.random() < 0.7, kinds=r.choice([KINDS, LINEAR, KINDS]), factors=r.choice([FACTORS, ['gp', 'gb', 'usr']])) if r.random() < 0.95 else ([], [])
    if not pool: fs = []
    for s in pool: S('addv', g, s)
    for f in fs: S('addf', g, f)
    extra = [] if r.random() < 0.6 else [S.rvar('gen', r.randint(1, 3), True, id=next(S.vi))] if pool else []      # nothing observes it: zero columns
    for s in extra:
        S('addv', g, s); pool.append(s)
        if S.nf: S('addf', g, S.fac('usr', [s], [0.0, 9.0] + [0.0] * (9 * S.size(s)) + r.vec(9, 2), [0], next(S.fi)))
    if r.random() < 0.95: S('fin', g)
    for _ in range(r.randint(3, 7)):
        q = r.randrange(7)
        if q == 0: S('print', g)
        elif q == 1: S('pvars', g)
        elif q in (2, 3): S('pjac', g, r.randrange(2)); S('acc', g, r.choice('rjs'))
        elif q == 4 and pool: S('vprint', r.choice(pool))
        elif q == 5 and pool: S('setx', g, vec(state_grid(S, pool) if r.random() < 0.5 else state_rand(S, pool)))
        elif q == 6 and pool:
            s = r.choice(pool); setc(S, s, not S.c[s]); S('fin', g); S('print', g)
    for s in pool: S('vprint', s)
    S('print', g); S('pjac', g, r.randrange(2)); S('pvars', g)
