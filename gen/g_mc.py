"""Behaviours of the models (spec/MC*.tla), written as scripts of the conformance driver."""
from base import *
import g_graph

def graph(r, path, i):
    """MCGraph: the pool of the model with random values."""
    S = Script(r)
    kinds = {0: r.choice(['gen', 'usr']), 1: r.choice(['gen', 'usr', 'ir']), 2: r.choice(['gen', 'lm', 'rot', 'pose2']), 3: r.choice(['gen', 'lm', 'rot', 'pose2'])}
    for s, (n, id) in enumerate([(2, 5), (1, 7), (3, 5), (3, 0)]): S.rvar(kinds[s], n, True, id, s == 3)
    mult = i % 3                                 # the same histories with ids of another kind
    for vs, rows, id in [([0], 3, 1), ([1, 0], 2, 9), ([1], 2, 1), ([3, 1], 3, 0)]: g_graph.lin_usr(S, vs, rows, id)
    S.fac('usr', [-1], [1.0, 1.0, 1.0, 0.0], [0], 4)
    ins = []
    for step in path:
        op, a = step.split(); a = int(a)
        n = g_graph.state_len(S, ins)
        if op in ('addv', 'addf'):
            S(op, 0, a)
            if op == 'addv' and S.id[a] not in [S.id[s] for s in ins]: ins.append(a)
        elif op == 'resid': S('resid', 0, a, vec(r.choice([[], r.vec(3), [float('nan')] * 9])))
        elif op == 'sjac': S('sjac', 0, 0)
        elif op == 'acc': S('acc', 0, 'rjs'[a])
        elif op in ('setx', 'incx'):
            m = n if a == 0 else n + r.choice([1, 2, -1]) if n else 1
            d = g_graph.state_rand(S, ins) if op == 'setx' and a == 0 else r.vec(m, 0.3) if m != n else r.vec(n, 0.3)
            S(op, 0, vec(d))
        elif op == 'vset':
            v = a if a == 1 else r.randrange(4)
            S('vset', v, vec(r.vec(3) if S.k[v] in ('lm', 'rot', 'pose2') else [r.log(0.1, 10)] if S.k[v] == 'ir' else r.vec(S.size(v))))
        elif op == 'setc': S('setc', a, int(not S.c[a])); S.c[a] = not S.c[a]
        else: S(op, 0)
    return S.L

def life(r, path, i):
    """MCLife: a shared graph that only holds a problem at first, and grows."""
    import g_opt
    S = Script(r); style = r.choice(['lin', 'lin', 'pose2', 'pose3', 'scalar'])
    vs, fs = g_opt.STYLES[style](S, 0); vs, fs = g_opt.into(S, 0, vs, fs); x0 = g_opt.truth_state(S, vs, style); S('setx', 0, vec(x0))
    out = S.rvar('gen', 2, id=987654); grown = 0
    soft = [s for s in vs if S.k[s] in ('gen', 'usr', 'lm', 'pose2')]
    for step in path:
        op, a = step.split(); a = int(a)
        if op == 'grow':
            grown += 1; s = S.rvar('gen', 2, id=20000 + grown); S('addv', 0, s); vs.append(s); soft.append(s); S('addf', 0, S.fac('gp', [s], [1.0] + r.vec(2), [], 20000 + grown))
        elif op == 'fin': S('fin', 0)
        elif op == 'touch' and soft: s = r.choice(soft); S('vinc', s, vec(r.vec(S.size(s), 0.1)))
        elif op == 'setup': g_opt.setup(S, a, 0, r.randrange(2), r.choice([0, 1, 4]), g_opt.settings(r, 0, style))
        elif op in ('run', 'prep', 'pcov'): S(op, a)
        elif op == 'cov': S('cov', a, r.choice(vs + [-1, out]))
        elif op == 'covall':
            for s in vs[-4:]: S('cov', a, s)
    return S.L

def opt(r, path, i):
    """MCOpt: a one-dimensional problem, given by a table, that drives a run along the path; observed through its prefixes."""
    import re, math, g_opt
    states = [tuple(int(x) for x in re.findall(r'-?\d+', to)) for _, to in path]     # m, T, top, small, r0, k, p, r, lam, st
    m, T, top, small, r0 = states[0][:5]; calls = [op.split() for op, _ in path[1:]]
    rho = {0: 1.0, 1: 1.0 + 1e-4, 2: 2.0, 3: 3.0, 4: float('nan')}; nan = float('nan')
    if m == 0: lam0, up, steptol = 1e-3, 10.0, 0.5
    elif T: up = 1e5; lam0 = 1e-12 * up ** -T; steptol = 0.0
    elif small < 20: lam0, up, steptol = 1e-5, 100.0, 0.5
    else: lam0, up, steptol = 1e-3, 10.0, 0.0
    down = 1 / up; lmax = lam0 * up ** top if m and top < 20 else 1e100
    lam = lambda l: lam0 * up ** l
    sg = r.choice([1, -1]); x = 0.0; tab = []; here = [x, rho[r0], 1.0, 0]; tab.append(here); lev = r0; l = 0
    close = 1e-11
    def point(y, val, flag=0):
        if any(abs(y - t[0]) < close for t in tab): return False
        tab.append([y, val, 1.0, flag]); return True
    def above():           # a residual that does not lower the cost
        return r.choice([rho[lev] * 1.2, rho[lev] + 1, nan, float('inf'), 1e200])
    n = 0                  # iterations that can be made concrete
    for c, (_, to) in zip(calls, path[1:]):
        op, a, b = c[0], int(c[1]), int(c[2]); s = states[n + 1]
        if op == 'nojac':
            if m == 0 and r.random() < 0.5: here[2] = r.choice([nan, float('inf')])
            else: here[3] = 2
            n += 1; break
        if m == 0:
            J = 10.0 if op == 'step' and b else 1.0
            if op == 'sing': here[2] = 0.0; n += 1; break
            here[2] = sg * J; y = x - sg * rho[lev] / J
            ok = point(y, 0.0 if op == 'thr' else rho[a], 1 if op == 'thr' else 0)
            assert ok; n += 1
            if op == 'thr': break
            x = y; here = tab[-1]; lev = a; continue
        # Levenberg-Marquardt: trials from rung l on
        J = 1.0 if not T else math.sqrt(1e8 * lam(max(l, T))); here[2] = sg * J
        last = b if op in ('acc', 'lthr') else 5; ok = True; j = 1; q = l; known = []
        while j <= last:
            if not T or q >= T:
                y = x - sg * J * rho[lev] / (J * J + lam(q))
                if j == last and op == 'acc': ok = ok and abs(y - x) > close and point(y, rho[a])
                elif j == last and op == 'lthr': ok = ok and abs(y - x) > close and point(y, 0.0, 1)
                elif abs(y - x) > close: ok = ok and point(y, above())
                if op == 'none' and q + 1 >= top: break
            if j < last: q = min(q + 1, top)
            j += 1
        if not ok: break
        n += 1
        if op == 'acc': x = y; here = tab[-1]; lev = a; l = s[8]
        else: break
    if n == 0: return None
    off = r.choice([0.0, r.uniform(-5, 5)]) if not T and m == 0 else 0.0       # moving the origin costs precision
    for t in tab: t[0] += off
    S = Script(r); kind = r.choice(['gen', 'usr']); w = 1.0
    vs = [S.var(kind, [off], 1)] + ([S.var('gen', [r.uniform(-2, 2)], 2)] if T else [])
    f = S.fac('usr', vs, [w, 2.0 if T else r.choice([1.0, 2.0]), len(tab)] + [v for t in tab for v in t], [9], 1)
    order = list(vs)
    if T and r.random() < 0.5: order.reverse()
    g_opt.into(S, 0, order, [f]); S('getx', 0)
    x0 = [S.d[v][0] for v in order]; st = [steptol, 1e-3, lam0, lmax, up, down, 1.0]
    for k in range(n + 1):
        S('setx', 0, vec(x0)); g_opt.setup(S, 0, 0, m, k, st, 1 if r.random() < 0.05 else 0); S('run', 0)
        s = states[k]; final = s[9] != 1
        # what the model says the run ends with
        op = calls[k - 1][0] if k else ''
        vague = op in ('sing', 'thr', 'lthr', 'nojac') or s[7] == 4
        expect = s[9] if final else 0
        hl = lambda v: struct.unpack('>ii', struct.pack('>d', v))
        S('note', 'path', 0, 1 if vague else 0, expect, s[5] if not vague else -1, *(hl(rho[s[7]]) if not vague else (0, 0)), *(hl(min(lam(s[8]), lmax)) if m and k and not vague else (0, 0)))
        if k < n: g_opt.wit(S, 0, order, [f], m, st)
    if states[n][9] != 1:                # it has ended: more iterations change nothing
        S('setx', 0, vec(x0)); g_opt.setup(S, 0, 0, m, n + r.choice([1, 3, 50]), st); S('run', 0)
    return S.L

def watch(r, path, i):
    """MCWatch: a tick is a short time that passes; another watch has a life of its own."""
    S = Script(r)
    for step in path:
        op = step.split()[0]; S('sw', 0, op if op != 'tick' else r.choice([20, 50, 200]))
        if r.random() < 0.15: S('sw', 1, r.choice(['start', 'stop', 'reset', 'elapsed']))
    S('sw', 0, 'elapsed'); S('sw', 1, 'elapsed'); return S.L

def clone(r, path, i):
    """MCClone: the fixed changes a, b and the set s have random values; variables with the same history are compared."""
    import g_vars
    S = Script(r); k = (KINDS + ['poseR'])[i % (len(KINDS) + 1)]; s = S.rvar(k, id=r.randint(-9, 99)); at = {0: s}
    what = {'a': ('vinc', vec(g_vars.some_incr(S, s))), 'b': ('vinc', vec(g_vars.some_incr(S, s))), 's': ('vset', vec(g_vars.some_value(S, s)))}
    if k == 'pose' and r.random() < 0.5: what['b'] = ('vm', 'pos ' + vec(r.coords(3, 3)))
    ops = {0: ((), False)}
    for n, step in enumerate(path):
        op, a, b = step.split(); a, b = int(a), int(b)
        if op == 'clone':
            t = S.nv; S.nv += 1; S('clone', at[a], t); S.k[t] = S.k[s]; S.d[t] = S.d[s]; at[b] = t; ops[b] = ops[a]
        elif op == 'drop': S('drop', at.pop(a)); del ops[a]
        elif op == 'flip': ops[a] = (ops[a][0], not ops[a][1]); S('setc', at[a], int(ops[a][1]))
        else: S(what[op][0], at[a], what[op][1]); ops[a] = (('s',) if op == 's' else ops[a][0] + (op,), ops[a][1])
        for x in ops:
            for y in ops:
                if x < y and ops[x] == ops[y] and (n == len(path) - 1 or r.random() < 0.3): S('note', 'twins', at[x], at[y])
    return S.L

def pylife(*drops):
    """MCPyLife: the numbers of the problem are random; handles the model does without are dropped first."""
    def f(r, path, i):
        return ['new ' + vec([r.uniform(-5, 5) for _ in range(10)] + [r.randrange(2)])] + ['drop ' + x for x in drops] + list(path)
    return f

def plot(r, path, i):
    """MCPlot: the items get random values; factors of every kind that the items allow."""
    import g_py
    S = g_py.PyScript(Script(r)); S.r = r; item = {}; o = dict(three=1, meas=1, betw=1, cov=0); nf = 0; done = set()
    def fac(kind, vs):
        nonlocal nf; nf += 1; d, n = make_args(S, kind, vs, dirs=r.unit); S('addf', 0, S.fac(kind, vs, d, n, nf))
    for step in path:
        op, a = step.split()
        if op == 'switch': o[a] ^= 1
        else:
            k = {'poseB': 'pose', 'pose2B': 'pose2', 'pt2': 'gen', 'other': r.choice(['gen', 'rot', 'ir', 'plane'])}.get(a, a); c = k in ('ir', 'plane')
            s = item[a] = S.rvar(k, 2 if a == 'pt2' else r.choice([1, 3, 4]) if k == 'gen' else None, True, id=len(item) + 1, const=c); S('addv', 0, s)
            if not c: nf += 1; g_py.pin(S, 0, s, nf + 1000)
            H = lambda *x: set(x) <= set(item) and not (set(x) <= set(item) - {a})
            if H('pose', 'lm'): fac('bear', [item['pose'], item['lm']]); fac('bp2', [item['pose'], item['lm']])
            if H('pose2', 'pt2'): fac('b2', [item['pose2'], item['pt2']]); fac('rb2', [item['pose2'], item['pt2']])
            if H('pose', 'poseB'):
                u = lambda k, n=None: S.rvar(k, n, True, id=900 + S.nv, const=True); ps = [item['pose'], item['poseB']]
                fac('ppb', ps + [u('gen', 3)]); fac('pob', ps + [u('rot')]); nf += 1; S('addf', 0, S.fac('gb', ps + [u('gen', 6)], [1.0], [], nf))
            if H('pose2', 'pose2B'): fac('p2b', [item['pose2'], item['pose2B'], S.rvar('pose2', None, True, id=900 + S.nv, const=True)])
            S('fin', 0)
        if o['cov'] and a != 'other' and item and op == 'add' or (op == 'switch' and a == 'cov' and o['cov'] and item): g_py.solve(S, 0, 0)
        S('plot', 0, o['three'], o['meas'], o['betw'], o['cov'] if item else 0, 0, r.choice([0, 1, 1, 2]))
    return S.L
