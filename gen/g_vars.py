"""Episodes about single variables, factors and free functions."""
import math
from base import *

def tiny(r, v): return scale(10.0 ** -r.randint(8, 16), v) if r.random() < 0.08 else v
def some_value(S, s):
    """A vector to give to variable s."""
    r = S.r; k = S.k[s]
    if k == 'pose': return r.coords(3, 3) + scale(r.choice([1, 1, 1, 2.5]), r.rvec())
    if k == 'rot': return scale(r.choice([1, 1, 1, 2.5]), r.rvec())
    if k == 'plane': return scale(r.log(0.05, 20), r.axis()) + [r.coord(3)]
    if k == 'pose2': return r.coords(2, 3) + [r.heading()]
    if k == 'ir': return [r.choice([r.log(1e-2, 1e2), r.log(1e-9, 1e6), -r.log(1e-3, 10), 0.0, 1e-6, 1e3])]
    return tiny(r, r.coords(S.size(s), 2))
def some_incr(S, s):
    r = S.r; k = S.k[s]
    if k == 'pose': return r.coords(3) + r.rvec()
    if k == 'rot': return r.rvec()
    if k == 'plane': return r.vec(3, r.choice([0.2, 0.2, r.log(1e-9, 1e-2)])) + [r.coord()]
    if k == 'pose2': return r.coords(2) + [r.choice([r.g(0.1), r.heading(), r.g(10)])]
    if k == 'ir': return [r.choice([r.g(0.1), r.g(10), -5.0, 2000.0, 1e-9])]
    return tiny(r, r.coords(S.size(s)))
def wrong(S, s, v):
    r = S.r; n = len(v); m = r.choice([0, n - 1, n + 1, n + 3, 2 * n])
    return r.vec(m if m != n else n + 1)

def var_steps(S, s, n, bad=0.15, twins=None):
    r = S.r
    for _ in range(n):
        k = S.k[s]; q = r.random()
        def both(*t):
            S(*[x if x is not ... else s for x in t])
            if twins is not None: S(*[x if x is not ... else twins for x in t])
        if q < 0.4:
            v = some_value(S, s)
            both('vset', ..., vec(wrong(S, s, v) if r.random() < bad else v))
        elif q < 0.8:
            v = some_incr(S, s)
            both('vinc', ..., vec(wrong(S, s, v) if r.random() < bad else v))
        elif q < 0.9: both('setc', ..., r.randrange(2))
        elif k == 'pose':
            w = r.choice(['pose', 'pos', 'dcm'])
            both('vm', ..., w, vec(some_value(S, s) if w == 'pose' else r.coords(3, 3) if w == 'pos' else flat(r.dcm())))
        elif k == 'lm': both('vm', ..., 'pos', vec(r.coords(3, 3)))
        elif k == 'pose2':
            if r.random() < 0.5: both('vm', ..., 'pos', vec(r.coords(2, 3)))
            else: both('vm', ..., 'theta', vec([r.heading()]))
        elif k == 'ir':
            x = r.log(1e-3, 1e2); both('vset', ..., vec([x]))
            both('vm', ..., 'lim', vec([x * r.choice([1e-4, 0.5, 0.999]), x * r.choice([1.001, 2, 1e3])]))
            if r.random() < 0.3: both('vset', ..., vec([x]))

def ep_var(S, ri=0):
    r = S.r
    kinds = KINDS + ['poseR']
    ks = [kinds[ri % len(kinds)], r.choice(kinds)]
    for k in ks:
        s = S.rvar(k, id=r.choice([r.randint(-5, 5), r.randint(0, 10**9), -2**31, 2**31 - 1]), const=r.random() < 0.2)
        var_steps(S, s, r.randint(4, 9))
    if r.random() < 0.1: S('var', 90, 'gen', 90, 0, vec([]))

def ep_show(S, ri=0):
    """What a variable prints, wherever it has been."""
    r = S.r; kinds = KINDS + ['poseR']
    for k in [kinds[ri % len(kinds)], r.choice(kinds)]:
        s = S.rvar(k, id=r.choice([r.randint(-5, 5), r.randint(0, 10**9), -2**31, 2**31 - 1]), const=r.random() < 0.2); S('vprint', s)
        for _ in range(3): var_steps(S, s, 1); S('vprint', s)

def ep_clone(S, ri=0):
    r = S.r
    k = (KINDS + ['poseR'])[ri % 9]
    s = S.rvar(k, id=r.randint(-9, 99), const=r.random() < 0.3)
    var_steps(S, s, r.randint(0, 4), bad=0)
    t = S.nv; S.nv += 1; S('clone', s, t); S.k[t] = S.k[s]; S.d[t] = S.d[s]
    var_steps(S, s, r.randint(1, 4), twins=t)
    S('note', 'twins', s, t)
    var_steps(S, r.choice([s, t]), r.randint(1, 4))
    q = r.random()
    if q < 0.4:
        u = S.nv; S.nv += 1; S('clone', t, u); S.k[u] = S.k[s]; S.d[u] = S.d[s]
        S('drop', r.choice([s, t])); var_steps(S, u, 3)
    elif q < 0.6: S('drop', s); var_steps(S, t, 3)
    else: var_steps(S, s, 2); var_steps(S, t, 2)

# ------------------------------------------------------------------------- SO(3)
def ep_so3(S, ri=0):
    r = S.r
    for _ in range(12):
        q = r.random(); w = r.rvec()
        if q < 0.5: S('explog', vec(w))
        elif q < 0.6: S('exp', vec(scale(r.choice([1, 2, 5]), r.rvec())))
        elif q < 0.75:
            # exact 180 degree and axis rotations, and rotations composed of several
            a = r.axis()
            m = r.choice([lambda: [[2 * a[i] * a[j] - (i == j) for j in range(3)] for i in range(3)], lambda: mm(r.dcm(), r.dcm()),
                          lambda: [[1, 0, 0], [0, 1, 0], [0, 0, 1]], lambda: r.choice([[[1, 0, 0], [0, -1, 0], [0, 0, -1]], [[-1, 0, 0], [0, 1, 0], [0, 0, -1]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]], [[0, 1, 0], [1, 0, 0], [0, 0, -1]], [[0, 0, 1], [0, -1, 0], [1, 0, 0]], [[-1, 0, 0], [0, 0, 1], [0, 1, 0]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]]])])()
            S('log', vec(flat(m)))
        elif q < 0.85: S('skew', vec(r.coords(3, 3)))
        elif q < 0.9: S('unskew', vec(r.coords(9, 3)))
        else: S('ijac', vec(r.choice([lambda: r.rvec(3.0), lambda: scale(r.log(1e-12, 1e-2), r.axis())])()))

# ----------------------------------------------------------------------- factors
def near_target(S, kind, vs, d):
    """Values for the variables of a bearing factor, biased to the interesting directions (ahead, behind, on the threshold)."""
    r = S.r
    R = rot(r.rvec()); p = r.coords(3, 3); b = d[1:4]; t = norm(b); b = scale(1 / t, b)
    q = r.random(); dist = r.choice([r.log(0.05, 100)] * 5 + [r.log(2e-7, 0.05)])
    if q < 0.3: y = b
    elif q < 0.4: y = scale(-1, b)
    elif q < 0.6: y = add(b, r.vec(3, 0.1))
    elif q < 0.8:
        e = sub(r.unit(), scale(dot(r.unit(), b), b)); y = add(e, scale(r.choice([0.3, 0.1, 0.01, -0.01, 1e-4]), b))
    else: y = r.unit()
    if norm(y) < 1e-3: y = b
    l = add(p, mv(tr(R), scale(dist / norm(y), y)))
    return R, p, l

def rlog(R):
    """rotation vector of R (away from pi)"""
    c = max(-1, min(1, (R[0][0] + R[1][1] + R[2][2] - 1) / 2)); t = math.acos(c)
    v = [R[2][1] - R[1][2], R[0][2] - R[2][0], R[1][0] - R[0][1]]; n = norm(v)
    return scale(t / n, v) if n > 1e-12 else [0, 0, 0]

def scatter(S, kind, vs, d, n):
    """Gives the variables of the factor new values (vset)."""
    r = S.r; q = r.random()
    if q < 0.1:              # on a grid, aligned with the axes: comparisons are decided exactly here
        I = lambda n: [r.choice([0.0, float(r.randint(-3, 3))]) for _ in range(n)]
        turn = lambda: scale(r.choice([0.0, math.pi / 2, math.pi]), r.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1]]))
        for s in set(vs):
            k = S.k[s]; S('vset', s, vec(I(3) + turn() if k == 'pose' else turn() if k == 'rot' else [r.choice([0.5, 1.0, 2.0])] if k == 'ir' else r.choice([[1, 0, 0], [0, -1, 0], [0, 0, 1]]) + I(1) if k == 'plane' else I(2) + [r.choice([-2, -1, 0, 1, 2]) * math.pi / 2] if k == 'pose2' else I(S.size(s))))
        return
    if q < 0.16 and kind in ('gp', 'gb', 'lv', 'ppp', 'ppb', 'pl'):      # everything is tiny
        for s in set(vs):
            if S.k[s] in ('gen', 'usr', 'lm', 'pose'): S('vset', s, vec(scale(10.0 ** -r.randint(8, 16), r.vec(S.size(s))) if S.k[s] != 'pose' else scale(1e-12, r.vec(3)) + r.rvec()))
        return
    if kind in ('bear', 'bp2') and r.random() < 0.8:
        R, p, l = near_target(S, kind, vs, d)
        S('vset', vs[0], vec(p + rlog(R))); S('vset', vs[1], vec(l)); return
    if kind in ('b2', 'rb2') and r.random() < 0.7:
        # landmark such that the bearing is near the observed one or the one opposite to it
        th = r.heading(); p = r.coords(2, 3); a = th + d[1 if kind == 'b2' else 3] + r.choice([0, math.pi, r.g(0.1), math.pi + r.g(0.01), math.pi - r.log(1e-9, 1e-2), -math.pi + r.log(1e-9, 1e-2), r.uniform(-3, 3)])
        dist = r.choice([r.log(0.01, 100)] * 5 + [r.log(2e-7, 0.01)])
        S('vset', vs[0], vec(p + [th])); S('vset', vs[1], vec([p[0] + dist * math.cos(a), p[1] + dist * math.sin(a)])); return
    if kind == 'irb' and S.k[vs[1]] == 'ir' and r.random() < 0.25:      # the point is close to the camera
        o = S.d[vs[1]]; x = r.log(0.1, 5); b = scale(1 / norm(o[3:6]), o[3:6])
        S('vset', vs[1], vec([x])); S('vset', vs[0], vec(add(add(o[:3], scale(1 / x, b)), scale(r.log(2e-7, 0.1), r.unit())) + r.rvec())); return
    if kind in ('pop', 'rp') and r.random() < 0.7:
        R = mm(rot(r.rvec()), [d[1:4], d[4:7], d[7:10]]); w = rlog(R)
        S('vset', vs[0], vec((r.coords(3, 3) if kind == 'pop' else []) + w)); return
    for s in set(vs):
        if r.random() < 0.8: S('vset' if r.random() < 0.6 else 'vinc', s, vec(some_value(S, s) if S.L[-1:] and r.random() < 0.5 else some_incr(S, s)))

def ep_factor(S, ri, kind, evals=5):
    r = S.r
    vs = make_vars(S, kind, const=0.25)
    d, n = make_args(S, kind, vs)
    if kind in ('gp', 'ppp') and r.random() < 0.1: d[1:] = r.choice([[0.0] * (len(d) - 1), scale(1e-12, d[1:])])
    f = S.fac(kind, vs, d, n, id=r.choice([r.randint(-9, 9), r.randint(0, 10**9)]))
    S('fres', f)
    for _ in range(evals):
        scatter(S, kind, vs, d, n); S('fres', f)
    return f, vs

def ep_pure(S, ri=0):
    """Purity and containers (P16): every start mode of the container, every combination of constant flags over time."""
    r = S.r; kind = FACTORS[ri % len(FACTORS)]
    vs = make_vars(S, kind, tame=True, const=0.3)
    d, n = make_args(S, kind, vs)
    f = S.fac(kind, vs, d, n)
    for _ in range(r.randint(2, 4)):
        modes = r.sample(range(6), r.randint(2, 4))
        for m in modes:
            if r.random() < 0.4: S('fres', f)
            S('fjac', f, m)
        q = r.random()
        if q < 0.5: S('setc', r.choice(vs), r.randrange(2))
        elif q < 0.8: scatter(S, kind, vs, d, n)
    S('fres', f)

def ep_self(S, ri=0):
    """What a factor says about itself, when it is made and after everything that can happen to it (P33)."""
    r = S.r; kinds = FACTORS + ['usr']; fs = []; pool = []
    ids = lambda: r.choice([r.randint(-5, 200), r.randint(0, 10**9), -2**31, 2**31 - 1])
    for kind in [kinds[ri % len(kinds)]] + [r.choice(FACTORS) for _ in range(r.randint(0, 3))]:
        if kind == 'usr':
            s = S.rvar('gen', r.randint(1, 3), True); m = r.randint(1, 3); vs, d, n = [s], [1.0, float(m)] + [0.5] * (9 * S.size(s)) + r.vec(9, 2), [0]; pool.append(s)
        else:
            vs = make_vars(S, kind, tame=r.random() < 0.8, const=0.2, pool=pool if r.random() < 0.5 else None); d, n = make_args(S, kind, vs)
        fs.append((S.fac(kind, vs, d, n, ids()), kind, vs, d, n))
    for _ in range(r.randint(1, 5)):
        f, kind, vs, d, n = r.choice(fs); q = r.randrange(5)
        if q == 0: S('fres', f)
        elif q == 1: S('fjac', f, 0)
        elif q == 2: S('setc', r.choice(vs), r.randrange(2))
        elif q == 3 and kind != 'usr': scatter(S, kind, vs, d, n)
        elif q == 4: var_steps(S, r.choice(vs), 1)
        S('facq', r.choice(fs)[0])
    for x in fs: S('facq', x[0])

def ep_deriv(S, ri=0, numj=False, kinds=FACTORS):
    """Derivatives (P15, P26) at generic states away from singular directions."""
    r = S.r; kind = kinds[ri % len(kinds)]
    vs = make_vars(S, kind, tame=True, const=0.2)
    d, n = make_args(S, kind, vs, sig=lambda: r.choice([1.0, 0.1, 3.0]), dirs=r.unit)
    f = S.fac(kind, vs, d, n)
    for _ in range(3):
        dist = 1.0
        if kind in ('bear', 'bp2'):
            R = rot(r.mild()); p = r.vec(3, 2); dist = r.log(0.3, 20); b = scale(1 / norm(d[1:4]), d[1:4])
            y = add(b, r.vec(3, 0.3)) if kind == 'bp2' or r.random() < 0.5 else r.unit()
            if kind == 'bp2' and dot(y, b) / norm(y) < 0.5: y = b
            S('vset', vs[0], vec(p + rlog(R))); S('vset', vs[1], vec(add(p, mv(tr(R), scale(dist / norm(y), y)))))
        elif kind == 'irb':
            S('vset', vs[0], vec(r.vec(3, 2) + r.mild())); S('vset', vs[1], vec([r.log(0.05, 3)]))
            dist = 0.3
        elif kind in ('b2', 'rb2'):
            th = r.uniform(-3, 3); p = r.vec(2, 2); dist = r.log(0.3, 20); a = th + d[1 if kind == 'b2' else 3] + r.uniform(-2.8, 2.8)
            S('vset', vs[0], vec(p + [th])); S('vset', vs[1], vec([p[0] + dist * math.cos(a), p[1] + dist * math.sin(a)]))
        elif kind == 'p2p': S('vset', vs[0], vec(r.vec(2, 2) + [d[4] + r.uniform(-2.8, 2.8)]))
        elif kind == 'p2b':
            a = r.uniform(-3, 3); b = a + r.uniform(-1.2, 1.2); m = r.uniform(-1.2, 1.2)
            S('vset', vs[0], vec(r.vec(2, 2) + [a])); S('vset', vs[1], vec(r.vec(2, 2) + [b])); S('vset', vs[2], vec(r.vec(2, 2) + [m]))
        elif kind in ('pop', 'rp'):
            w = scale(r.choice([r.uniform(0, 2.6), r.log(1e-7, 1e-2), 0.0]), r.unit()); R = mm(rot(w), [d[1:4], d[4:7], d[7:10]])
            S('vset', vs[0], vec((r.vec(3, 2) if kind == 'pop' else []) + rlog(R)))
        elif kind == 'pob':
            R1 = rot(r.mild()); C = rot(r.mild()); E = rot(scale(r.choice([r.uniform(0, 2.6), r.log(1e-7, 1e-2), 0.0]), r.unit()))
            # R2 R1^T C = E
            R2 = mm(E, mm(tr(C), R1))
            S('vset', vs[0], vec(r.vec(3) + rlog(R1))); S('vset', vs[1], vec(r.vec(3) + rlog(R2))); S('vset', vs[2], vec(rlog(C)))
        elif kind == 'plp':
            S('vset', vs[0], vec(add(scale(1 / norm(d[2:5]), d[2:5]), r.vec(3, r.choice([0.1, 0.5, 1]))) + [r.g(3)]))
        elif kind == 'pl':
            S('vset', vs[1], vec(r.unit() + [r.g(3)])); S('vset', vs[0], vec(add(d[2:5], scale(r.uniform(0.5, 5), r.unit()))))
        else:
            for s in vs: S('vset', s, vec(r.mild() if S.k[s] == 'rot' else (r.vec(3, 2) + r.mild()) if S.k[s] == 'pose' else r.vec(S.size(s), 2)))
        h = 1e-3 * min(1.0, dist)
        hs = [1e-3 * 0.05 if S.k[s] == 'ir' else h for s in vs]
        S('fd', f, vec(hs))
        if numj: S('numj', f, hx(r.choice([0, 0, 1e-4, 1e-5])), r.randrange(2))
        if numj and r.random() < 0.5:      # where an increment and its opposite do not cancel: limits, headings at pi
            for s in vs:
                k = S.k[s]
                if k == 'ir': lo, hi = r.uniform(0.05, 0.5), r.uniform(1, 5); S('vm', s, 'lim', vec([lo, hi])); S('vset', s, vec([r.choice([lo, hi])]))
                elif k == 'pose2': S('vm', s, 'theta', vec([r.choice([1, -1]) * (math.pi - r.choice([0, 1e-7, 1e-9]))]))
                elif k == 'rot': S('vset', s, vec(scale(math.pi - r.choice([0, 1e-7, 1e-3]), r.axis())))
            S('numj', f, hx(r.choice([0, 1e-4, 1e-5])), r.randrange(2))
            for s in vs:
                if S.k[s] == 'ir': S('vm', s, 'lim', vec([1e-9, 1e9]))
        if r.random() < 0.5: S('setc', r.choice(vs), r.randrange(2))

def ep_huber(S, ri=0):
    r = S.r
    for _ in range(8):
        delta = r.log(1e-3, 1e3); n = r.randint(1, 5)
        q = r.random(); t = delta * (r.uniform(0, 1) if q < 0.3 else r.uniform(1, 4) if q < 0.6 else r.log(1, 1e6) if q < 0.8 else r.choice([1 - 1e-9, 1 + 1e-9, 1 + 1e-6, 1.0, 0.0]))
        res = scale(t, r.unit(n)) if n > 1 else [r.choice([-1, 1]) * t]
        js = [r.choice([lambda: [], lambda: [r.vec(k, r.log(0.1, 10)) for _ in range(n)]])() if r.random() < 0.3 else [r.vec(k, r.log(0.1, 10)) for _ in range(n)] for k in [r.randint(1, 6) for _ in range(r.randint(0, 4))]]
        S('huber', hx(delta), vec(res), len(js), *[mat(j) for j in js])

def ep_watch(S, ri=0):
    r = S.r
    for _ in range(r.randint(12, 30)):
        k = r.randrange(2)
        q = r.random()
        if q < 0.6: S('sw', k, r.choice(['start', 'stop', 'reset', 'elapsed', 'elapsed', 'start', 'stop']))
        else: S('sw', k, r.choice([0, 50, 200, 1000]))
    S('sw', 0, 'elapsed'); S('sw', 1, 'elapsed')
