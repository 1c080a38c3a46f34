"""P29: one script, run through the C++ API and through the Python API; the pairs of records are judged by JPy.tla."""
import hashlib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor
import build, engine
sys.path.insert(0, os.path.join(build.VERIF, 'gen'))

def py_env(mod): return {'PATH': os.environ.get('PATH', ''), 'HOME': '/tmp', 'PYTHONPATH': mod, 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONHASHSEED': '0'}

# freed memory is overwritten at once: a handle that outlived its object cannot look right
LIFE = {'PYLIFE': '1', 'MALLOC_PERTURB_': '165', 'PYTHONMALLOC': 'malloc', 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'}

def pydrive(mod, txt, d, tag, timeout=30, life=False):
    s, o = os.path.join(d, tag + '.py.txt'), os.path.join(d, tag + '.py.nd')
    with open(s, 'w') as f: f.write('\n'.join(txt) + '\n')
    p = subprocess.run([build.PY, os.path.join(build.VERIF, 'harness', 'pydriver.py'), s, o, str(timeout)], capture_output=True, text=True, env=dict(py_env(mod), **(LIFE if life else {})), cwd=d)
    if p.returncode:
        why = [l for l in open(o) if '"harness"' in l] if os.path.exists(o) else []
        raise engine.CheckError('pydriver exit %d: %s %s' % (p.returncode, (p.stderr or '')[-800:], ''.join(why)[:400]))
    return o

# observations: name -> how it is compared (the specification owns the list of what must be there)
KINDS = dict(nm='is', rs='is', fid='is', ft='is', fv='is', fa='v', r1='v', r4='v', same='is', vs='is', fs='is', num='is', nv='is', nr='is', jv='is', rv='is', j='m', bad='is', x='v',
             i='st', s='st', valid='is', p='m', gm='is', gk='is', gd='v', gv='is', gr='is')
def kind_of(op, n):
    if n == 'r': return dict(getv='is', ftest='is', resid='v', both='v', acc='v', log='v', exp='vs').get(op)
    if n in ('s', 'i'): return 'st' if op in ('run', 'stat') else None
    if n in ('vs', 'fs'): return 'is' if op == 'lists' else None
    if n == 'nr' and op == 'arm': return None
    return KINDS.get(n)

def merge(cfile, pfile, scripts, out):
    """Pairs the records of the two drivers, episode by episode, line by line."""
    def load(f):
        eps = {}
        for l in open(f): e = json.loads(l); eps.setdefault(e['ep'], []).append(e)
        return eps
    C, P = load(cfile), load(pfile); n = 0
    with open(out, 'w') as f:
        def emit(e):
            nonlocal n; n += 1; f.write(json.dumps(e, separators=(',', ':')) + '\n')
        for ep in sorted(C):
            a, b = C[ep], P.get(ep, []); ka, kb = {}, {}; kinds = {}
            for x, y in zip(a, b):
                if x['op'] == 'crash' or y['op'] == 'crash': break
                hold = [['array ' + m, 'hold', [then, now], shown] for m, then, now, shown in y.get('hold', ())]
                if x['op'] == 'end':
                    if hold: emit(dict(ep=ep, op='py', of='end', ok=[1, 1], f=hold))
                    break
                if x['ln'] != y['ln']: raise engine.CheckError('records out of step in episode %d' % ep)
                o = dict(ep=ep, op='py', of=x['op'], ln=x['ln'], ok=[x['ok'], y['ok']])
                if x['op'] in ('var', 'fac'): o['k'] = scripts[ep][x['ln'] - 1].split()[2]
                if x['op'] == 'clone' and x['ok']: o['k'] = 'clone'
                for q in ('left', 'kw', 'tn', 'cls'):
                    if q in y and not (q == 'cls' and x['op'] == 'clone'): o[q] = y[q]
                fs = []
                if (x['ok'] and y['ok']) or x['op'] == 'run':
                    for q in x:
                        k = kind_of(x['op'], q)
                        if k and q in y: fs.append([q, k, x[q], y[q]])
                    o['ok'] = [x['ok'], y['ok']]
                for c in x['ch']: ka[c['s']] = c
                for c in y['ch']: kb[c['s']] = c
                for s in sorted({c['s'] for c in x['ch'] + y['ch']}):
                    if s in ka and s in kb:
                        for q, k in (('t', 'is'), ('id', 'is'), ('n', 'is'), ('c', 'is'), ('x', 'v'), ('a', 'vs')): fs.append([q + ' of a variable', k, ka[s][q], kb[s][q]])
                    else: fs.append(['which variables exist', 'is', s in ka, s in kb])
                o['f'] = fs + hold; emit(o)
            ca, cb = a[-1]['op'] == 'crash', not b or b[-1]['op'] == 'crash'
            if ca or cb: emit(dict(ep=ep, op='py', of='crash', ok=[0 if ca else 1, 1 if ca or not cb else 0], sig=b[-1].get('sig', 0) if b else 0, f=[]))
    return n

def run_eps(drv, mod, cls, eps, d, life=False):
    txt = engine.script_of(eps); scripts = engine.split(txt)
    c = pydrive(mod, txt, d, 'c') if life else engine.drive(drv, txt, d, 'c'); p = pydrive(mod, txt, d, 'p', life=life)
    out = os.path.join(d, 'm.nd'); n = merge(c, p, scripts, out)
    ops = {}
    for l in open(out): o = json.loads(l); ops[o['of']] = ops.get(o['of'], 0) + 1
    fails, infos, prob = engine.judge(cls, out, d, 'm', 'JPy', {'LABEL': 'P30' if life else 'P29'})
    if prob: raise engine.CheckError('JPy cannot interpret a record of %s: %s' % (prob[2], prob[3]))
    res = [(q, scripts[ep], eps[ep].name, op, text) for q, ep, pos, op, text in fails]
    if any('HARNESS' in r[4] for r in res): raise engine.CheckError([r[3:] for r in res if 'HARNESS' in r[4]][0])
    return dict(fails=res, infos=infos, ops=ops, lines=n, episodes=len(eps), hashes=[(hashlib.sha256('\n'.join(e.lines).encode()).hexdigest()[:16], sorted({l.split(' ', 1)[0] for l in e.lines})) for e in eps],
                sample=(eps[0].name, scripts[0]) if eps else None)

def shard(job):
    drv, mod, cls, plans, seed, chunk, life = job; d = tempfile.mkdtemp(prefix='verif_', dir='/tmp')
    try:
        eps = []
        for m, fn, args, n, k in plans: eps += engine.generate(m, fn, n, '%s.%s' % (seed, k), args)
        return engine.merge([run_eps(drv, mod, cls, eps[a:a + chunk], d, life) for a in range(0, len(eps), chunk)])
    finally: shutil.rmtree(d, ignore_errors=True)

def part(plans, life=False):
    def run(prop, tier, seed):
        scale = 1 if tier == 'quick' else 15; drv, mod, cls = build.driver(), build.pymodule(), build.classes(); J = engine.JOBS; per = [[] for _ in range(J)]
        for m, fn, args, n in plans:
            n = int(n * scale)
            for j in range(J):
                q = n // J + (1 if j < n % J else 0)
                if q: per[j].append((m, fn, tuple(args), q, j))
        with ProcessPoolExecutor(J) as ex: res = list(ex.map(shard, [(drv, mod, cls, p, seed, 600, life) for p in per if p]))
        for r in res: r['sample'] = r.pop('samples')[0] if r['samples'] else None
        tot = engine.merge(res); tot['confirm'] = lambda script: confirm(script, life)
        return tot, {}
    return run

def confirm(script, life=False):
    d = tempfile.mkdtemp(prefix='verif_', dir='/tmp')
    try: return run_eps(build.driver(), build.pymodule(), build.classes(), [engine.Episode('replay', script)], d, life)['fails']
    finally: shutil.rmtree(d, ignore_errors=True)
