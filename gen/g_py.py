"""Episodes for the Python module: the same problems, without what only C++ can do (user-defined types and so on)."""
from base import *
import g_graph, g_opt, g_vars

DROP = {'arm', 'wit', '#WIT', 'fjac', 'fd', 'numj', 'huber', 'note', 'explog', 'skew', 'unskew', 'ijac', 'sw', '#'}
PYKINDS = ['pose', 'poseR', 'lm', 'gen', 'rot', 'ir', 'plane', 'pose2']

class PyScript(Script):
    def __init__(self, S): super().__init__(S.r); self.L = S.L
    def __call__(self, *t):
        op = t[0]
        if op in DROP: return
        if op == 'vm' and (self.k[t[1]], t[2]) not in {('pose2', 'pos'), ('pose2', 'theta'), ('ir', 'lim')}: return
        if op == 'resid': t = ('resid', t[1], 0, vec([]))
        return super().__call__(*t)
    def var(self, kind, d, id=None, const=False): return super().var('gen' if kind == 'usr' else kind, d, id, const)
    def fac(self, kind, vs, d, n=(), id=None):
        r = self.r
        if kind == 'usr':
            lin = [s for s in vs if s >= 0 and self.k[s] in ('gen', 'lm')]
            if lin: s = r.choice(lin); kind, vs, d, n = 'gp', [s], [r.choice([1.0, 1.0, 0.5])] + r.vec(self.size(s), 2), []
            else:
                ir = [s for s in vs if s >= 0 and self.k[s] == 'ir']
                if ir: p = self.rvar('pose', tame=True, id=70000 + self.nv, const=True); kind, vs, d, n = 'irb', [p, ir[0]], [r.choice([1.0, 0.5])] + r.unit(), []
                else: p = self.rvar('gen', 1, id=70000 + self.nv, const=True); kind, vs, d, n = 'gp', [p], [1.0, 0.5], []
        if kind == 'lv': n = [0]
        if r.random() < 0.3:      # make the defaults come up
            i = dict(bear=[0], irb=[0], bp2=[0], b2=[0], pob=[0], gp=[0], gb=[0], lv=[0], ppp=[0], pop=[0], rp=[0], ct=[0], pl=[0], ppb=[0], rb2=[0, 1], plp=[0, 1]).get(kind, [])
            d = [1.0 if k in i else x for k, x in enumerate(d)]
        return super().fac(kind, vs, d, n, id)

def look(S, g):
    """everything the Python module can show"""
    for op in ('lists', 'flags', 'fin', 'both', 'jac', 'sjac', 'getx'): S(op, g) if op != 'sjac' else S('sjac', g, 0)
    S('resid', g, 0, vec([])); S('acc', g, 'r'); S('acc', g, 'j'); S('acc', g, 's'); S('flags', g)

def ep_vars(S, ri):
    S = PyScript(S); r = S.r
    if r.random() < 0.2:
        for _ in range(4):
            S('exp', vec(r.rvec())); S('log', vec(flat(r.dcm())))
    for k in r.sample(PYKINDS, 3):
        s = S.rvar(k, const=r.random() < 0.2)
        if r.random() < 0.5: S('vm', s, 'lim', vec(sorted([r.log(1e-6, 1), r.log(1, 1e6)])))
        g_vars.var_steps(S, s, r.randint(2, 6))
        if r.random() < 0.3: S('setc', s, r.randrange(2))
        if r.random() < 0.4:
            t = S.nv; S.nv += 1; S('clone', s, t); S.k[t] = S.k[s]; S.c[t] = S.c[s]; S.d[t] = S.d[s]; S.id[t] = S.id[s]
            S('vinc', t, vec(g_vars.some_incr(S, t)))

def ep_facs(S, ri):
    """every factor class, each argument explicit or left out"""
    S = PyScript(S); r = S.r
    for kind in r.sample(FACTORS, 3):
        vs = make_vars(S, kind, tame=r.random() < 0.7, const=0.1); d, n = make_args(S, kind, vs); f = S.fac(kind, vs, d, n, r.randint(-5, 10**6))
        S('fres', f)
        for _ in range(r.randint(1, 3)): s = r.choice(vs); S('vinc', s, vec(g_vars.some_incr(S, s))); S('fres', f)

def ep_life(S, ri):
    S = PyScript(S); g_graph.ep_life(S, ri); g = int(S.L[-1].split()[1]) if S.L[-1].split()[0] == 'lists' else 0
    look(S, g)
    if S.r.random() < 0.3: S('ftest', g, hx(S.r.choice([1e-5, 1e-3, 1e-12])), S.r.randrange(2))

def ep_opt(S, ri):
    S = PyScript(S); r = S.r; style = r.choice(['lin', 'pose2', 'pose3', 'mixed', 'degen', 'lin']); g = r.randrange(2)
    vs, fs = g_opt.into(S, g, *g_opt.STYLES[style](S, g), r.random() < 0.5); x0 = g_opt.truth_state(S, vs, style); S('setx', g, vec(x0))
    if r.random() < 0.2: S('sdef')
    for _ in range(r.randint(1, 3)):
        m = r.randrange(2); st = g_opt.settings(r, m, style, r.random() < 0.3); o = r.randrange(2)
        if r.random() < 0.5: S('setx', g, vec(x0))
        if r.random() < 0.2: S('stat', o)
        g_opt.setup(S, o, g, m, r.choice([0, 1, 2, 5, 100, 100]), st, int(r.random() < 0.1))
        if r.random() < 0.3: S('sget', o)
        S('run', o)
        if r.random() < 0.5:
            S('prep', o)
            for s in vs: S('cov', o, s)
            if r.random() < 0.3: S('cov', o, -1)
        elif r.random() < 0.3: S('pcov', o)
        if r.random() < 0.3: S('stat', o)
    look(S, g)

def ep_covlife(S, ri): S = PyScript(S); g_opt.ep_covlife(S, ri)

# ------------------------------------------------------------------ drawing (P31)
def pin(S, g, s, id):
    """priors that fix variable s"""
    k, r = S.k[s], S.r
    for kind in dict(pose=['ppp', 'pop'], pose2=['p2p'], lm=['gp'], gen=['gp'], rot=['rp']).get(k, []):
        d, n = make_args(S, kind, [s], sig=lambda: r.choice([1.0, 0.3, 2.0]))
        if kind == 'gp': d = d[:1] + r.vec(S.size(s), 2)
        if kind == 'ppp': d = d[:1] + r.vec(3, 2)
        if kind == 'pop': d = d[:1] + flat(rot(r.mild()))
        if kind == 'rp': d = d[:1] + flat(rot(r.mild()))
        S('addf', g, S.fac(kind, [s], d, n, id * 10 + (kind == 'pop')))

def solve(S, g, o):
    import g_opt
    g_opt.setup(S, o, g, S.r.randrange(2), S.r.choice([1, 3, 10]), [1e-9, 1e-12, 1e-3, 1e5, 10.0, 0.1, 1.0]); S('run', o)

def ep_plot(S, ri):
    S = PyScript(S); r = S.r; g = r.randrange(2); pool = []; nf = 1000; cov = r.random() < 0.5
    S.newid = lambda: S.nv + 1
    joins = ['p2b', 'ppb', 'pob', 'bear', 'b2', 'rb2', 'bp2', 'irb', 'gb', 'lv', 'pl', 'ct']
    for k in r.sample(PYKINDS, r.randint(0, 4)): pool.append(S.rvar(k, 2 if k == 'gen' and r.random() < 0.7 else None, True, id=S.newid(), const=r.random() < 0.15 or k in ('ir', 'plane')))
    pend = []
    for k in r.sample(joins, r.randint(0, 5)):
        vs = make_vars(S, k, tame=True, pool=pool, const=0.1); d, n = make_args(S, k, vs, dirs=r.unit); nf += 1; pend.append(S.fac(k, vs, d, n, nf))
        for s in vs:
            if s not in pool: pool.append(s)
    for s in pool:
        if S.k[s] in ('ir', 'plane') and not S.c[s]: S('setc', s, 1); S.c[s] = True
    poses = [s for s in pool if S.k[s] == 'pose']
    if len(poses) > 1 and r.random() < 0.3: m = S.rvar('gen', 6, True, id=S.newid(), const=True); nf += 1; pend.append(S.fac('gb', [poses[0], poses[1], m], [1.0], [], nf))
    inn = []
    for s in pool:
        if S.c[s] and r.random() < 0.3: continue       # constants need not be in the graph
        S('addv', g, s); inn.append(s)
    for s in inn:
        if not S.c[s]: nf += 1; pin(S, g, s, nf)
    for f in pend: S('addf', g, f)
    S('fin', g)
    o = r.randrange(2)
    if cov: solve(S, g, o)
    for _ in range(r.randint(1, 3)):
        S('plot', g, r.randrange(2), r.choice([1, 1, 0]), r.choice([1, 1, 0]), int(cov and r.random() < 0.8), o, r.choice([0, 0, 1, 2]))
        if inn and r.random() < 0.6:
            for s in r.sample(inn, min(2, len(inn))): S('vset', s, vec(g_vars.some_value(S, s) if S.k[s] not in ('pose', 'rot') else S.rand_args(S.k[s], tame=True) if S.k[s] == 'pose' else r.mild()))
