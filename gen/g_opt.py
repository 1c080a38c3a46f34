"""Episodes about SparseOptimizer.  A chain observes a run through its prefixes: from one start, runs with
max_num_iterations = 0, 1, 2, ...; after each a witness (op wit) is recorded at the state it left.  The dampings a
witness needs are only known once the run has been seen: #WIT lines are placeholders that witness() fills in after a
first pass of the driver."""
import math
from base import *
from g_graph import ids, lin_usr, prior, build, state_rand

class Prob:
    def __init__(self, S, g, vs, fs, x0): self.S, self.g, self.vs, self.fs, self.x0 = S, g, vs, fs, x0

def into(S, g, vs, fs, shuffle=False):
    vs, fs = list(vs), list(fs)
    if shuffle: S.r.shuffle(vs); S.r.shuffle(fs)
    for s in vs: S('addv', g, s)
    for f in fs: S('addf', g, f)
    S('fin', g)
    return vs, fs

def noise(S, vs, amp):
    """increments around the current (true) values"""
    v = []
    for s in vs:
        if S.c[s]: continue
        k = S.k[s]; v += [S.r.g(0.02 * amp) if k == 'ir' else S.r.g(amp) for _ in range(S.size(s))]
    return v

# ------------------------------------------------------------------ problems
def p_lin(S, g, consts=0.2, nv=None):
    r = S.r; vi, fi = ids(r), ids(r); vs = []; fs = []
    n = r.choice([None, 2, 3])
    for _ in range(nv or r.randint(1, 5)): vs.append(S.rvar(r.choice(LINEAR), n or r.randint(1, 4), id=next(vi), const=r.random() < consts))
    for s in vs:
        if r.random() < 0.9: fs += prior(S, s, next(fi), next(fi))
    for _ in range(r.randint(0, 4)):
        q = r.random()
        if q < 0.5: fs.append(lin_usr(S, r.sample(vs, r.randint(1, len(vs))), r.randint(1, 4), next(fi)))
        else:
            c = [(a, b) for a in vs for b in vs if a != b and S.size(a) == S.size(b)]
            if c:
                a, b = r.choice(c); m = S.rvar('gen', S.size(a), id=next(vi), const=r.random() < 0.8); vs.append(m)
                fs.append(S.fac('gb', [a, b, m], [r.choice([1, 0.3])], [], next(fi)))
                if not S.c[m]: fs += prior(S, m, next(fi), next(fi))
    return vs, fs

def p_pose2(S, g, amp=None):
    r = S.r; vi, fi = ids(r), ids(r); vs = []; fs = []
    n = r.randint(1, 4); P = [r.vec(2, 3) + [r.uniform(-3, 3)] for _ in range(n)]; L = [r.vec(2, 4) for _ in range(r.randint(0, 3))]
    pv = [S.var('pose2', p, next(vi), const=(i == 0 and r.random() < 0.4)) for i, p in enumerate(P)]
    lv = [S.var('gen', l, next(vi)) for l in L]
    vs = pv + lv; sg = lambda: r.choice([1.0, 0.3, 0.1]); e = r.choice([0, 0, 0.02, 0.3])
    for i, s in enumerate(pv):
        if i == 0 or r.random() < 0.5: fs.append(S.fac('p2p', [s], [sg(), sg()] + add(P[i], r.vec(3, e)), [], next(fi)))
        if i:
            d = sub(P[i], P[i - 1]); m = S.var(r.choice(['gen', 'pose2']), add(d, r.vec(3, e)), next(vi), True); vs.append(m)
            fs.append(S.fac('p2b', [pv[i - 1], s, m], [sg(), sg()], [0], next(fi)))
    for j, l in enumerate(lv):
        for i in r.sample(range(n), min(n, 2)):
            d = mv(tr(rot2(P[i][2])), sub(L[j], P[i][:2])); b = math.atan2(d[1], d[0]) + r.g(e)
            fs.append(S.fac('rb2', [pv[i], l], [sg(), sg(), norm(d), b], [], next(fi)) if r.random() < 0.6 else S.fac('b2', [pv[i], l], [sg(), b], [], next(fi)))
        if r.random() < 0.8: fs.append(S.fac('gp', [l], [sg()] + add(L[j], r.vec(2, e)), [], next(fi)))
    return vs, fs

def p_pose3(S, g):
    r = S.r; vi, fi = ids(r), ids(r); vs = []; fs = []; sg = lambda: r.choice([1.0, 0.3, 0.1]); e = r.choice([0, 0, 0.01, 0.1])
    n = r.randint(1, 2); P = [r.vec(3, 2) for _ in range(n)]; W = [scale(r.uniform(0, 2), r.unit()) for _ in range(n)]
    pv = [S.var('pose', P[i] + W[i], next(vi), const=r.random() < 0.25) for i in range(n)]; vs += pv
    for i, s in enumerate(pv):
        if r.random() < 0.85: fs.append(S.fac('ppp', [s], [sg()] + add(P[i], r.vec(3, e)), [], next(fi)))
        if r.random() < 0.85: fs.append(S.fac('pop', [s], [sg()] + flat(mm(rot(r.vec(3, e)), rot(W[i]))), [], next(fi)))
    if n == 2:
        m = S.var(r.choice(['gen', 'lm']), add(sub(P[1], P[0]), r.vec(3, e)), next(vi), r.random() < 0.8); vs.append(m)
        fs.append(S.fac('ppb', [pv[0], pv[1], m], [sg()], [0], next(fi)))
        if not S.c[m]: fs.append(S.fac('gp', [m], [sg()] + sub(P[1], P[0]), [], next(fi)))
        R = mm(rot(W[0]), tr(rot(W[1]))); q = S.var('rot', flat(R), next(vi), True); vs.append(q)
        fs.append(S.fac('pob', [pv[0], pv[1], q], [sg()], [], next(fi)))
    for _ in range(r.randint(0, 2)):
        l = add(P[0], r.vec(3, 3)); q = r.random()
        if q < 0.7:
            s = S.var('lm', l, next(vi)); vs.append(s)
            for i in range(n):
                d = mv(rot(W[i]), sub(l, P[i])); fs.append(S.fac('bear', [pv[i], s], [sg()] + d, [], next(fi)) if r.random() < .6 else S.fac('bp2', [pv[i], s], [sg()] + d + [1e-6], [], next(fi)))
            if r.random() < 0.9: fs.append(S.fac('gp', [s], [sg()] + add(l, r.vec(3, e)), [], next(fi)))
        else:
            d = mv(rot(W[0]), sub(l, P[0])); o = add(P[0], r.vec(3, 0.5)); b = sub(l, o)
            s = S.var('ir', o + b + [norm(b)], next(vi)); vs.append(s)
            fs.append(S.fac('irb', [pv[0], s], [sg()] + d, [], next(fi))); fs.append(lin_usr(S, [s], 1, next(fi)))
    if r.random() < 0.4:
        nn = r.unit(); d0 = r.g(2); s = S.var('plane', nn + [d0], next(vi)); vs.append(s)
        fs.append(S.fac('plp', [s], [sg(), sg()] + nn + [d0], [], next(fi)))
        for _ in range(3):
            x = r.vec(3, 3); x = sub(x, scale(dot(nn, x) + d0, nn)); l = S.var('lm', add(x, r.vec(3, e)), next(vi), r.random() < 0.6); vs.append(l)
            fs.append(S.fac('pl', [l, s], [sg(), 5.0] + r.vec(3), [r.randrange(3)], next(fi)))
            if not S.c[l]: fs.append(S.fac('gp', [l], [sg()] + x, [], next(fi)))
    if r.random() < 0.3:
        R = rot(r.mild()); o = r.vec(3); sc = r.uniform(0.5, 2)
        q = S.var('rot', flat(R), next(vi)); ov = S.var('gen', o, next(vi)); sv = S.var('gen', [sc], next(vi)); vs += [q, ov, sv]
        fs += prior(S, q, next(fi), next(fi)) + prior(S, ov, next(fi), next(fi)) + prior(S, sv, next(fi), next(fi))
        for _ in range(2):
            b = r.vec(3, 2); a = sub(scale(sc, mv(R, b)), o); la = S.var('lm', a, next(vi), True); lb = S.var('lm', add(b, r.vec(3, e)), next(vi), True); vs += [la, lb]
            fs.append(S.fac('ct', [q, ov, sv, la, lb], [sg()], [], next(fi)))
    if not fs: fs += prior(S, pv[0], next(fi), next(fi))
    return vs, fs

def p_scalar(S, g):
    r = S.r; vi, fi = ids(r), ids(r); k = r.randrange(5)
    if k == 0: s = S.var('gen', [r.uniform(-3, 3), r.uniform(-3, 3)], next(vi)); return [s], [S.fac('usr', [s], [r.choice([1.0, 0.1])], [1], next(fi))]
    if k == 1: s = S.var('usr', [r.choice([r.uniform(-4, 4), 0.5, 1.3, 1.4, -3.0])], next(vi)); return [s], [S.fac('usr', [s], [1.0, r.choice([1.0, 2.0])], [2], next(fi))]
    if k == 2: s = S.var('gen', [r.uniform(-3, 3)], next(vi)); return [s], [S.fac('usr', [s], [1.0, r.choice([1.0, -2.0]), r.uniform(-1, 3)], [3], next(fi))]
    if r.random() < 0.6:      # several arctangents: Gauss-Newton overshoots, damping has to go up
        vs = [S.var(r.choice(['gen', 'usr']), [r.choice([-1, 1]) * r.uniform(1, 6)], next(vi)) for _ in range(r.randint(1, 3))]
        return vs, [S.fac('usr', [v], [r.choice([1.0, 0.3, 3.0]), r.choice([1.0, 2.0, 0.5])], [2], next(fi)) for v in vs] + (prior(S, vs[0], next(fi)) if r.random() < 0.3 else [])
    a, b = S.var('gen', [r.uniform(-2, 2)], next(vi)), S.var('usr', [r.uniform(-2, 2)], next(vi))
    return [a, b], [S.fac('usr', [a, b], [1.0], [1], next(fi)), S.fac('usr', [a], [0.5, 1.5], [2], next(fi)), S.fac('gp', [b], [1.0, 0.3], [], next(fi))]

def p_mixed(S, g):
    vs, fs = build(S, S.r.randint(1, 3), S.r.randint(1, 3), const=0.2); return vs, fs

def p_degen(S, g):
    """singular and ill-conditioned problems, no factors, all constant, zero Jacobians"""
    r = S.r; vi, fi = ids(r), ids(r); k = r.randrange(7)
    n = r.randint(1, 3)
    if k == 0: a = S.rvar('gen', n, id=next(vi)); return [a, S.rvar('gen', n, id=next(vi))], prior(S, a, next(fi), next(fi))     # one variable free
    if k == 1:                                                                                        # gauge freedom
        a, b = S.rvar('gen', n, id=next(vi)), S.rvar('gen', n, id=next(vi)); m = S.rvar('gen', n, id=next(vi), const=True)
        return [a, b, m], [S.fac('gb', [a, b, m], [r.choice([1.0, 0.5])], [], next(fi))]
    if k == 2: a = S.rvar('gen', n, id=next(vi), const=True); return [a], prior(S, a, next(fi), next(fi))   # all constant
    if k == 3: a = S.rvar('gen', n, id=next(vi)); return [a], [S.fac('usr', [a], [1.0, 1.0] + [0.0] * n + [r.choice([0.0, 1.0])], [0], next(fi))]   # J = 0
    if k == 4:                                                                                        # ill-conditioned
        a, b = S.rvar('gen', 1, id=next(vi)), S.rvar('gen', 1, id=next(vi)); e = r.choice([1e-9, 1e-10, 1e-5, 1e-3])
        return [a, b], [S.fac('gp', [a], [1.0, r.g()], [], next(fi)), S.fac('usr', [b], [e, 1.0, 1.0, r.g()], [0], next(fi))]
    if k == 5: return [S.rvar('gen', n, id=next(vi))], []                                              # no factors
    a = S.rvar('pose2', id=next(vi)); l = S.rvar('gen', 2, id=next(vi))
    return [a, l], [S.fac('b2', [a, l], [1.0, r.uniform(-3, 3)], [], next(fi))]                        # underdetermined

def p_bad(S, g):
    """factors that turn non-finite or throw in a region which the iterations may enter"""
    r = S.r; vi, fi = ids(r), ids(r); n = r.randint(1, 2)
    s = S.rvar(r.choice(['gen', 'usr']), n, id=next(vi)); x0 = S.d[s][0]
    k = r.choice([5, 5, 6, 7, 8]); bad = r.choice([float('nan'), float('inf'), -float('inf'), 1e200])
    p = r.vec(n, 3); t = x0 + (p[0] - x0) * r.choice([0.5, 0.9, -0.3, 0.99]) + r.choice([0, 0, -50, 50])
    vs = [s]; fs = [S.fac('usr', [s], [r.choice([1.0, 2.0]), t, bad] + p, [k], next(fi))]
    if r.random() < 0.5: a, b = p_lin(S, g, 0.2, 1); vs += [x for x in a if x not in vs]; fs += b
    seen = set()
    if len({S.id[v] for v in vs}) < len(vs): return vs[:1], fs[:1]
    return vs, fs

STYLES = dict(lin=p_lin, pose2=p_pose2, pose3=p_pose3, scalar=p_scalar, mixed=p_mixed, degen=p_degen, bad=p_bad)

def unique_ids(S, vs, fs):
    return vs, fs

def settings(r, m, style, calm=False):
    """steptol, restol, lam0, lammax, up, down, lr"""
    if calm: return [1e-5, 1e-6, r.choice([1e-3, 1e-2, 1.0]), 1e5, r.choice([10.0, 2.0]), r.choice([0.1, 0.5]), 1.0]
    lam0 = r.choice([1e-3, 1e-3, 1e-6, 1.0, 100.0, r.log(1e-12, 1e3)])
    return [r.choice([1e-6, 1e-6, 1e-9, 0.0, 1e-2, 1.0]), r.choice([1e-6, 1e-6, 0.0, 1e-9, 1e-2, 0.5, -1.0]),
            lam0, max(lam0, r.choice([1e5, 1e5, 1e8, 1.0, lam0, lam0 * 5, lam0 * 100])), r.choice([10.0, 10.0, 2.0, 4.0, 1.5]), r.choice([0.1, 0.1, 0.5, 0.3, 0.9]),
            r.choice([1.0, 1.0, 1.0, 1.0, 0.5, 0.1, 1.5, 2.5])]

def wit(S, o, vs, fs, m, st):
    S('#WIT', o, m, hx(st[4]), hx(st[3]), hx(st[2]), hx(st[6]), '|', ints(vs), ints(fs))

def setup(S, o, g, m, k, st, verbose=0):
    if getattr(S, 'verbose', 0): verbose = int(S.r.random() < S.verbose)
    S('setup', o, g, m, k, vec(st), verbose)

def chain(S, o, g, vs, fs, x0, m, st, K, kinds=None, far=True):
    r = S.r
    for k in range(K + 1):
        S('setx', g, vec(x0)); setup(S, o, g, m, k, st, 1 if r.random() < 0.05 else 0); S('run', o)
        if k < K: wit(S, o, vs, fs, m, st)
    if far: S('setx', g, vec(x0)); setup(S, o, g, m, r.choice([100, 30, K + 5]), st); S('run', o)
    for _ in range(r.randint(1, 2)):
        k = r.randint(0, K); S('setx', g, vec(x0)); setup(S, o, g, m, k, st); S('run', o)

def start(S, g, vs, style):
    r = S.r
    if style in ('pose2', 'pose3'): S('incx', g, vec(noise(S, vs, r.choice([0.02, 0.1, 0.3, 0.8]))))
    n = sum(S.size(s) for s in vs if not S.c[s])
    return n

def ep_chain(S, ri, styles=('lin', 'lin', 'pose2', 'pose3', 'scalar', 'scalar', 'mixed', 'degen'), m=None, K=None):
    """x0 of a chain is state_rand for problems without structure, else the truth disturbed."""
    r = S.r; style = r.choice(styles); g = r.randrange(2); vs, fs = STYLES[style](S, g)
    vs, fs = into(S, g, vs, fs, r.random() < 0.5)
    x0 = truth_state(S, vs, style)
    m = r.randrange(2) if m is None else m; st = settings(r, m, style)
    S('setx', g, vec(x0))
    chain(S, r.randrange(2), g, vs, fs, x0, m, st, K or r.randint(2, 6))

def truth_state(S, vs, style):
    r = S.r
    if style in ('mixed',): return state_rand(S, vs)
    amp = r.choice([0.02, 0.1, 0.3, 0.8]) if style.startswith('pose') else r.choice([0, 1.0, 3.0]) if style in ('lin',) else 0
    x = []
    for s in vs:
        if S.c[s]: continue
        k = S.k[s]; d = S.d[s]
        if k == 'pose': x += add(d[:3], r.vec(3, amp)) + add(d[3:6], r.vec(3, amp))
        elif k == 'rot': x += add(log3(d), r.vec(3, amp))
        elif k == 'ir': x += [d[6] * math.exp(r.g(min(amp, 0.3)))]
        elif k == 'plane':
            n = add(scale(1 / norm(d[:3]), d[:3]), r.vec(3, min(amp, 0.3) * 0.5)); x += scale(1 / norm(n), n) + [d[3] + r.g(amp)]
        else: x += add(d, r.vec(len(d), amp))
    return x

def log3(m):
    """rotation vector of a row-major 3x3 dcm (angles well below pi)"""
    c = max(-1, min(1, (m[0] + m[4] + m[8] - 1) / 2)); t = math.acos(c)
    v = [m[7] - m[5], m[2] - m[6], m[3] - m[1]]
    if t < 1e-9: return scale(0.5, v)
    return scale(t / (2 * math.sin(t)), v)

def ep_gn(S, ri): ep_chain(S, ri, m=0)
def ep_lm(S, ri): ep_chain(S, ri, styles=('lin', 'pose2', 'pose3', 'scalar', 'scalar', 'scalar', 'scalar', 'mixed', 'mixed', 'degen'), m=1)
def ep_exact(S, ri):
    """A fixed point, with tolerances of exactly 0: no rule stops such a run."""
    r = S.r; n = r.randint(1, 3); g = r.randrange(2); x = [float(r.randint(-4, 4)) for _ in range(n)]; w = r.choice([1.0, 2.0, 0.5])
    p = [a + r.choice([0.0, 0.0, 1.0]) for a in x] if r.random() < 0.3 else list(x)
    v = S.var('gen', x, 1); fs = [S.fac('gp', [v], [w] + p, [], 1)]
    if r.random() < 0.5: fs.append(S.fac('gp', [v], [w] + p, [], 2))
    vs, fs = into(S, g, [v], fs); m = r.randrange(3) % 2
    st = [r.choice([0.0, 0.0, 1e-6]), r.choice([0.0, 0.0, 1e-9, -1.0]), 1e-3, 1e5, 10.0, 0.1, 1.0]
    S('setx', g, vec(x)); chain(S, r.randrange(2), g, vs, fs, x, m, st, r.randint(2, 4))

def ep_stop(S, ri):
    if S.r.random() < 0.1: return ep_exact(S, ri)
    ep_chain(S, ri, styles=('lin', 'scalar', 'scalar', 'pose2', 'degen', 'mixed', 'bad'))
def ep_bad(S, ri): ep_chain(S, ri, styles=('bad', 'bad', 'bad', 'degen', 'scalar'))

def ep_reuse(S, ri):
    """P21: the same run on a used optimizer, a fresh one, and after other work."""
    r = S.r; style = r.choice(['lin', 'pose2', 'scalar', 'pose3', 'mixed']); vs, fs = into(S, 0, *STYLES[style](S, 0)); x0 = truth_state(S, vs, style)
    S('setx', 0, vec(x0)); m = r.randrange(2); st = settings(r, m, style); K = r.randint(1, 4)
    chain(S, 0, 0, vs, fs, x0, m, st, K, far=False)
    for _ in range(r.randint(1, 3)):
        q = r.random()
        if q < 0.4: S('prep', 0); S('cov', 0, r.choice(vs)) 
        elif q < 0.7: st2 = settings(r, 1 - m, style); S('setx', 0, vec(x0)); setup(S, 0, 0, 1 - m, r.randint(0, 5), st2); S('run', 0)
        else: S('setx', 0, vec(truth_state(S, vs, style))); setup(S, 0, 0, m, r.randint(0, 5), st); S('run', 0)
        chain_tail(S, 0, 0, x0, m, st, K)
    o = 1; S('setx', 0, vec(x0)); setup(S, 0, 0, m, K, st); S('run', 0); S('setx', 0, vec(x0)); setup(S, o, 0, m, K, st); S('run', o); rel(S, 0, o, [(s, s) for s in vs])

def chain_tail(S, o, g, x0, m, st, K):
    for k in range(K + 1):
        if k == 0 or S.r.random() < 0.7 or True: S('setx', g, vec(x0)); setup(S, o, g, m, k, st); S('run', o)

def rel(S, a, b, pairs, c=-1): S("note", "rel", *([a, b, c] + [x for p in pairs for x in p]))

# ----------------------------------------------------------- P23: the same problem, written differently
def ep_rel(S, ri):
    r = S.r; style = r.choice(['lin', 'lin', 'pose2', 'pose3', 'scalar']); vs, fs = STYLES[style](S, 0)
    into(S, 0, vs, fs); x0 = truth_state(S, vs, style); S('setx', 0, vec(x0))
    xof = {}; i = 0
    for s in vs:
        if not S.c[s]: xof[s] = x0[i:i + S.size(s)]; i += S.size(s)
    # a copy of every variable and factor with other ids, in another order
    vi, fi = ids(r), ids(r); tw = {}
    for s in vs: tw[s] = dup_var(S, s, next(vi))
    ft = [S.fac(S.f[f][0], [tw[v] for v in S.f[f][1]], S.f[f][2], S.f[f][3], next(fi)) for f in fs]
    ws = [tw[s] for s in vs]; back = {tw[s]: s for s in vs}
    wp, fp = into(S, 1, ws, ft, True)
    S('setx', 1, vec([x for w in wp if not S.c[w] for x in xof[back[w]]]))
    m = r.randrange(2); st = settings(r, m, style, True); k = r.choice([0, 1, 2, 3, 5, 100])
    # the same problem from a slightly moved start shows how far rounding may carry
    S('setx', 0, vec([x * (1 + 1e-9 * r.choice([-1, 1])) + 1e-10 * r.choice([-1, 1]) for x in x0])); setup(S, 2, 0, m, k, st); S('run', 2); S('setx', 0, vec(x0))
    for o in (0, 1): setup(S, o, o, m, k, st); S('run', o)
    for o in (0, 1): S('prep', o)
    rel(S, 0, 1, [(s, tw[s]) for s in vs], 2)
    for s in vs: S('cov', 0, s); S('cov', 1, tw[s])

def dup_var(S, s, id, const=None):
    k = S.k[s]; d = S.d[s]
    return S.var('poseR' if k == 'pose' and len(d) == 12 else k, d, id, S.c[s] if const is None else const)

def ep_const(S, ri):
    """A constant variable is the same as its value written into the factors."""
    r = S.r; vi, fi = ids(r), ids(r); n = r.randint(1, 3)
    a = S.rvar(r.choice(['gen', 'usr']), n, id=next(vi)); c = S.rvar(r.choice(['gen', 'usr']), r.randint(1, 3), id=next(vi), const=True)
    b = S.rvar('gen', n, id=next(vi)); fs = prior(S, a, next(fi), next(fi)) + prior(S, b, next(fi), next(fi)); rest = list(fs)
    for _ in range(r.randint(1, 3)):
        q = r.random(); nc = S.size(c); w = [a, c, b] if q < 0.5 else [c, a]
        m = r.randint(1, 4); dims = [S.size(x) for x in w]; N = sum(dims); A = [r.vec(N) for _ in range(m)]; y = r.vec(m, 2); wt = r.choice([1.0, 0.5])
        fs.append(S.fac('usr', w, [wt, m] + flat(A) + y, [0], next(fi)))
        o = w.index(c); off = sum(dims[:o]); keep = [j for j in range(N) if not off <= j < off + nc]
        y2 = [y[i] - dot(A[i][off:off + nc], S.d[c]) for i in range(m)]
        rest.append(('usr', [x for x in w if x != c], [wt, m] + flat([[A[i][j] for j in keep] for i in range(m)]) + y2))
    vs, _ = into(S, 0, r.sample([a, b, c], 3), fs)
    a2, b2 = dup_var(S, a, next(vi)), dup_var(S, b, next(vi)); t = {a: a2, b: b2}
    gs = []
    for f in rest:
        if isinstance(f, tuple): gs.append(S.fac('usr', [t[x] for x in f[1]], f[2], [0], next(fi)))
        else: k, v, d, q = S.f[f]; gs.append(S.fac(k, [t[x] for x in v], d, q, next(fi)))
    into(S, 1, [t[x] for x in vs if x != c], gs)
    m = r.randrange(2); st = settings(r, m, 'lin', True); k = r.choice([1, 2, 3, 100])
    for o in (0, 1): setup(S, o, o, m, k, st); S('run', o)
    for o in (0, 1): S('prep', o)
    rel(S, 0, 1, [(a, a2), (b, b2)])
    for s in (a, b): S('cov', 0, s); S('cov', 1, t[s])
    S('cov', 0, c)

# -------------------------------------------------------------- P24, P25: covariances
def ep_cov(S, ri, life=False):
    r = S.r; style = r.choice(['lin', 'lin', 'pose2', 'pose3', 'mixed', 'degen', 'scalar']); g = 0
    vs, fs = STYLES[style](S, g); vs, fs = into(S, g, vs, fs, r.random() < 0.5); x0 = truth_state(S, vs, style); S('setx', g, vec(x0))
    out = S.rvar('gen', 2, id=987654)
    st = settings(r, 0, style); st[6] = 1.0
    def cov(o=0):
        for s in r.sample(vs, min(len(vs), 3)) + ([-1, out] if r.random() < 0.3 else []): S('cov', o, s)
    if not life:
        m = r.randrange(2); setup(S, 0, g, m, r.choice([0, 1, 5, 50]), st); S('run', 0)
        if r.random() < 0.2: cov()
        S('prep', 0)
        for s in vs: S('cov', 0, s)
        if r.random() < 0.4: S('cov', 0, -1); S('cov', 0, out)
        if r.random() < 0.3:      # values that change afterwards do not change prepared covariances
            s = r.choice(vs)
            if S.k[s] in ('gen', 'usr', 'lm', 'pose2'): S('vinc', s, vec(r.vec(S.size(s))))
            cov()
            if r.random() < 0.5: S('prep', 0); cov()
        return
    W = dict(setup=2, run=3, prep=4, cov=6, pcov=1, add=2, fin=2, vinc=1, setc=0.7, setx=1)
    vi = ids(r); nid = [20000]
    if r.random() < 0.8: setup(S, 0, g, r.randrange(2), r.choice([0, 1, 4]), st)
    for _ in range(r.randint(6, 16)):
        q = r.choices(list(W), list(W.values()))[0]; o = 0 if r.random() < 0.85 else 1
        if q == 'setup': setup(S, o, g, r.randrange(2), r.choice([0, 1, 4]), st)
        elif q == 'run': S('run', o)
        elif q == 'prep': S('prep', o)
        elif q == 'pcov': S('pcov', o)
        elif q == 'cov': cov(o)
        elif q == 'fin': S('fin', g)
        elif q == 'add':
            nid[0] += 1
            if r.random() < 0.5:
                s = S.rvar('gen', 2, id=nid[0]); S('addv', g, s); vs.append(s)
                S('addf', g, S.fac('gp', [s], [1.0] + r.vec(2), [], nid[0]))
            else:
                c = [v for v in vs if S.k[v] in LINEAR]
                if not c: continue
                s = r.choice(c); S('addf', g, S.fac('gp', [s], [0.5] + r.vec(S.size(s)), [], nid[0]))
            if r.random() < 0.7: S('fin', g)
        elif q == 'vinc':
            s = r.choice(vs)
            if S.k[s] in ('gen', 'usr', 'lm', 'pose2'): S('vinc', s, vec(r.vec(S.size(s), 0.3)))
        elif q == 'setx': S('setx', g, vec(truth_state(S, vs, 'lin' if style != 'mixed' else style)))
        elif q == 'setc': 
            s = r.choice(vs); S('setc', s, int(not S.c[s])); S.c[s] = not S.c[s]; S('fin', g)
    cov()
def ep_covlife(S, ri): ep_cov(S, ri, True)

# --------------------------------------------------------------- P32: reports
def ep_report(S, ri):
    """Runs that talk, between runs that do not, and the list of all covariances."""
    r = S.r; S.verbose = 0.6; q = r.random()
    if q < 0.5: ep_chain(S, ri, styles=('lin', 'pose2', 'pose3', 'scalar', 'scalar', 'scalar', 'mixed', 'degen', 'bad'))
    elif q < 0.6: ep_reuse(S, ri)
    else: ep_cov(S, ri, q < 0.75)
    for o in (0, 1): S('prep', o); S('pcov', o)

# --------------------------------------------------------------- witnesses
def witness(lines, records):
    """Fill in the #WIT placeholders: records are the parsed records of a first pass (with ep and ln)."""
    import json
    stats = {}
    for e in records:
        if e.get('op') == 'run': stats[(e['ep'], e['ln'])] = e
    out = []; ep = -1; last = {}; mx = {}
    for i, l in enumerate(lines):
        t = l.split()
        if t and t[0] == 'ep': ep = int(t[1]); last = {}; mx = {}; at = i
        elif t and t[0] == 'setup': mx[t[1]] = int(t[4])
        elif t and t[0] == 'run': last[t[1]] = stats.get((ep, i - at))
        elif t and t[0] == '#WIT':
            e = last.get(t[1])
            if e is not None and e['ok'] and e['s']['v'] == 1 and e['s']['it'] >= mx.get(t[1], 0):
                m = int(t[2]); f = lambda h: struct.unpack('>d', bytes.fromhex(h))[0]
                up, lmax, lam0, lr = f(t[3]), f(t[4]), f(t[5]), f(t[6])
                if m == 0: lams = [0.0]
                else:
                    l0 = lam0 if mx[t[1]] == 0 else unhx(e['s']['lam']); lams = []
                    for _ in range(5):
                        lams.append(l0)
                        if l0 >= lmax: break
                        l0 = min(l0 * up, lmax)
                rest = l.split(' | ')[1]
                l = 'wit %s %s %s' % (rest, hx(lr), vec(lams))
        out.append(l)
    return out
