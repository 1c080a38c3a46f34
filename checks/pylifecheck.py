"""P30: behaviours of MCPyLife, replayed by a Python program; what its handles show is judged by JPyLife.tla."""
import hashlib, json, os, shutil, subprocess, tempfile
from concurrent.futures import ProcessPoolExecutor
import build, engine
from pycheck import py_env

def drive(mod, txt, d, timeout=20):
    s, o = os.path.join(d, 'l.txt'), os.path.join(d, 'l.nd')
    with open(s, 'w') as f: f.write('\n'.join(txt) + '\n')
    # freed memory is overwritten at once: a handle that outlived its object cannot look right
    env = dict(py_env(mod), MALLOC_PERTURB_='165', PYTHONMALLOC='malloc', GLIBC_TUNABLES='glibc.malloc.tcache_count=0')
    p = subprocess.run([build.PY, os.path.join(build.VERIF, 'harness', 'pylife.py'), s, o, str(timeout)], capture_output=True, text=True, env=env, cwd=d)
    if p.returncode: raise engine.CheckError('pylife exit %d: %s' % (p.returncode, (p.stderr or '')[-800:]))
    return o

def run_eps(mod, cls, eps):
    d = tempfile.mkdtemp(prefix='verif_', dir='/tmp')
    try:
        txt = engine.script_of(eps); scripts = engine.split(txt); tr = drive(mod, txt, d); ops = {}; n = 0
        for l in open(tr): o = json.loads(l); n += 1; ops[o['op']] = ops.get(o['op'], 0) + 1
        fails, infos, prob = engine.judge(cls, tr, d, 'l', 'JPyLife')
        if prob: raise engine.CheckError('JPyLife cannot interpret a record of %s: %s' % (prob[2], prob[3]))
        res = [(q, scripts[ep], eps[ep].name, op, text) for q, ep, pos, op, text in fails]
        if any('HARNESS' in r[4] for r in res): raise engine.CheckError([r[3:] for r in res if 'HARNESS' in r[4]][0])
        return dict(fails=res, infos=infos, ops=ops, lines=n, episodes=len(eps), hashes=[(hashlib.sha256('\n'.join(e.lines).encode()).hexdigest()[:16], sorted({l.split(' ', 1)[0] for l in e.lines})) for e in eps],
                    sample=(eps[0].name, scripts[0]) if eps else None)
    finally: shutil.rmtree(d, ignore_errors=True)

def work(job): return run_eps(*job)

def run(eps, chunk=300):
    mod, cls = build.pymodule(), build.classes(); n = max(engine.JOBS, -(-len(eps) // chunk))
    with ProcessPoolExecutor(engine.JOBS) as ex: res = list(ex.map(work, [(mod, cls, eps[k::n]) for k in range(n) if eps[k::n]]))
    tot = engine.merge(res); tot['confirm'] = confirm
    return tot

def confirm(script): return run_eps(build.pymodule(), build.classes(), [engine.Episode('replay', script)])['fails']
