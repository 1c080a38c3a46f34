"""P31: drawings of PlotFactorGraph, recorded by the Python driver and judged by JPlot.tla."""
import hashlib, json, os, shutil, tempfile
from concurrent.futures import ProcessPoolExecutor
import build, engine
from pycheck import pydrive

def run_eps(mod, cls, eps):
    d = tempfile.mkdtemp(prefix='verif_', dir='/tmp')
    try:
        txt = engine.script_of(eps); scripts = engine.split(txt); tr = pydrive(mod, txt, d, 'p', 120); ops = {}; n = 0
        for l in open(tr): o = json.loads(l); n += 1; ops[o['op']] = ops.get(o['op'], 0) + 1
        fails, infos, prob = engine.judge(cls, tr, d, 'p', 'JPlot')
        if prob: raise engine.CheckError('JPlot cannot interpret a record of %s: %s' % (prob[2], prob[3]))
        return dict(fails=[(q, scripts[ep], eps[ep].name, op, text) for q, ep, pos, op, text in fails], infos=infos, ops=ops, lines=n, episodes=len(eps),
                    hashes=[(hashlib.sha256('\n'.join(e.lines).encode()).hexdigest()[:16], sorted({l.split(' ', 1)[0] for l in e.lines})) for e in eps], sample=(eps[0].name, scripts[0]) if eps else None)
    finally: shutil.rmtree(d, ignore_errors=True)

def work(job): return run_eps(*job)

def run(eps, chunk=300):
    mod, cls = build.pymodule(), build.classes(); n = max(engine.JOBS, -(-len(eps) // chunk))
    with ProcessPoolExecutor(engine.JOBS) as ex: res = list(ex.map(work, [(mod, cls, eps[k::n]) for k in range(n) if eps[k::n]]))
    tot = engine.merge(res); tot['confirm'] = confirm
    return tot

def part(plans):
    def go(prop, tier, seed):
        eps = []
        for m, fn, args, n in plans: eps += engine.generate(m, fn, n * (1 if tier == 'quick' else 15), '%s' % seed, args)
        return run(eps), {}
    return go

def confirm(script): return run_eps(build.pymodule(), build.classes(), [engine.Episode('replay', script)])['fails']
