"""Replays behaviours of the model MCPyLife with the Python module: takes, uses and drops handles, and after every step reads
all that are still held.  usage: pylife.py SCRIPT OUT [timeout]"""
import gc, json, os, signal, struct, sys
import numpy as np
import factorama as fa
from pydriver import rv, rp, unhx

class Prog:
    def __init__(self, d):
        self.d = d; a0, b0, aset, pa, k = [np.array(d[2 * i:2 * i + 2]) for i in range(5)]; m = int(d[10])
        self.x0 = np.concatenate([a0, b0]); self.aset = aset
        A = fa.GenericVariable(1, a0); B = fa.GenericVariable(2, b0); K = fa.GenericVariable(3, k); K.set_constant(True)
        F = fa.GenericBetweenFactor(13, A, B, K); pA = fa.GenericPriorFactor(11, A, pa); pB = fa.GenericPriorFactor(12, B, pa + k, sigma=1.0)
        G, H = fa.FactorGraph(), fa.FactorGraph()
        for g in (G, H):
            g.add_variable(A); g.add_variable(B)
            for f in (pA, pB, F): g.add_factor(f)
            g.finalize_structure()
        O = fa.SparseOptimizer(); self.m = m; self.h = dict(A=A, K=K, F=F, G=G, H=H, O=O); self.setup('G')
    def setup(self, g):
        s = fa.OptimizerSettings(); s.max_num_iterations = 50; s.method = fa.OptimizerMethod.LevenbergMarquardt if self.m else fa.OptimizerMethod.GaussNewton
        s.step_tolerance = 1e-10; s.residual_tolerance = 0.0; s.initial_lambda = 1e-9
        self.h['O'].setup(self.h[g], s)
    def do(self, op, x):
        h = self.h
        if op == 'drop': del h[x]
        elif op == 'set': h['A'].set_value_from_vector(self.aset)
        elif op == 'reset': h[x].set_variable_values_from_vector(self.x0)
        elif op == 'opt': h['O'].optimize()
        elif op == 'setup': self.setup(x)
        elif op == 'find':
            if x == 'A':
                w = [n for n in 'GHLWF' if n in h]; n = w[sum(map(ord, ''.join(sorted(h)))) % len(w)]
                h['A'] = h[n].get_variable(1) if n in 'GH' else h['L'][0] if n == 'L' else h['W'][0] if n == 'W' else h['F'].variables()[0]
            elif x == 'K': h['K'] = h['W'][2] if 'W' in h else h['F'].variables()[2]
            else: h['F'] = h['E'][2] if 'E' in h else h['G' if 'G' in h else 'H'].get_all_factors()[2]
        elif op == 'take':
            if x == 'V': h[x] = h['A'].value()
            elif x == 'R': h['G'].compute_full_jacobian_and_residual(); h[x] = h['G'].residual()
            elif x == 'J': h['G'].compute_full_jacobian_and_residual(); h[x] = h['G'].jacobian()
            elif x == 'L': h[x] = h['G'].get_all_variables()
            elif x == 'E': h[x] = h['G'].get_all_factors()
            elif x == 'W': h[x] = h['F'].variables()
            elif x == 'S': h[x] = h['O'].settings()
            elif x == 'T': h[x] = h['O'].current_stats
            elif x == 'C': h['O'].prepare_to_estimate_covariances(); h[x] = h['O'].estimate_covariance(h['A'])[0]
            elif x == 'N': h[x] = h['A'].clone()
    def read(self, n):
        o = self.h[n]
        if n in ('A', 'K', 'N'): return [rv(o.value()), [rp(o.id()), rp(o.size()), rp(float(type(o) is fa.GenericVariable))]]
        if n == 'F': return [rv(o.compute_residual()), [rp(o.id()), rp(o.residual_size()), rp(float(type(o) is fa.GenericBetweenFactor))]] + [rv(v.value()) for v in o.variables()]
        if n in 'GH': return [rv(o.get_variable_vector()), rv(o.compute_full_residual_vector())] + [rv(v.value()) for v in o.get_all_variables()] + [rv(f.compute_residual()) for f in o.get_all_factors()]
        if n == 'O': return [[rp(o.settings().max_num_iterations)]]
        if n in 'VR': return [rv(o)]
        if n in 'JC': return [rv(r) for r in o]
        if n in 'LW': return [rv(v.value()) for v in o]
        if n == 'E': return [rv(f.compute_residual()) for f in o]
        if n == 'S': return [[rp(o.max_num_iterations), rp(o.initial_lambda), rp(o.step_tolerance)]]
        if n == 'T': return [[rp(float(o.valid)), rp(float(int(o.status))), rp(o.chi2)]]

def churn(n):
    """objects that settle where others were freed"""
    j = [fa.GenericVariable(99, np.full(2, 777.0 + i)) for i in range(12)]
    j += [fa.GenericPriorFactor(98, j[i], np.full(2, 555.0)) for i in range(6)]
    j += [np.full(k, 333.0) for k in (2, 2, 4, 6, 6, 12, 24) for _ in range(3)]
    if n % 5 == 0:
        g = fa.FactorGraph(); g.add_variable(j[0]); g.add_factor(j[12]); g.finalize_structure(); j.append(g); o = fa.SparseOptimizer(); o.setup(g, fa.OptimizerSettings()); j.append(o)
    return j

def episode(lines, ep, fd):
    p = None; junk = None
    def out(o): os.write(fd, (json.dumps(o, separators=(',', ':')) + '\n').encode())
    for n, l in enumerate(lines):
        if not l or l[0] == '#': continue
        t = l.split(); o = dict(ep=ep, ln=n + 1, op=t[0], x=t[1] if t[0] != 'new' else '', ok=1)
        try:
            if t[0] == 'new': p = Prog([unhx(x) for x in t[2:]]); o['d'] = [rp(x) for x in p.d]
            else: p.do(t[0], t[1])
        except Exception as e: o['ok'] = 0; o['err'] = str(e)[:200]
        if n % 2: gc.collect()
        junk = None; junk = churn(n); rd = []; bad = []
        for k in sorted(p.h):
            try: rd.append([k, p.read(k)])
            except Exception as e: bad.append(k); o['err'] = str(e)[:200]
        o['rd'] = rd; o['bad'] = bad; out(o)
    for k in list(p.h)[::(-1 if ep % 2 else 1)]: del p.h[k]; gc.collect(); junk = churn(1)
    del p; gc.collect(); junk = None; gc.collect()
    out(dict(ep=ep, op='end', ok=1, rd=[], bad=[], x=''))

def main():
    script, outf = sys.argv[1:3]; tmo = int(sys.argv[3]) if len(sys.argv) > 3 else 20
    lines = open(script).read().split('\n'); starts = [i for i, l in enumerate(lines) if l.startswith('ep ')] + [len(lines)]
    fd = os.open(outf, os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_APPEND, 0o644)
    gc.collect(); gc.freeze()
    for a, b in zip(starts, starts[1:]):
        ep = int(lines[a].split()[1]); sys.stdout.flush(); p = os.fork()
        if p == 0:
            signal.alarm(tmo); null = os.open('/dev/null', os.O_WRONLY); os.dup2(null, 1)
            if not os.environ.get('DRIVER_STDERR'): os.dup2(null, 2)
            try: episode(lines[a + 1:b], ep, fd)
            except BaseException as e: os.write(fd, (json.dumps(dict(ep=ep, op='harness', ok=0, err=repr(e)[:300])) + '\n').encode()); os._exit(97)
            os._exit(0)
        st = os.waitpid(p, 0)[1]
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 97: sys.stderr.write('pylife: harness error in episode %d\n' % ep); os._exit(97)
        if st: os.write(fd, (json.dumps(dict(ep=ep, op='crash', ok=0, x='', rd=[], bad=[], sig=os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st))) + '\n').encode())
    os._exit(0)
if __name__ == '__main__': main()
