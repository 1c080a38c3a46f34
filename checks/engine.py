"""Conformance engine: generated episodes -> the real library (driver) -> trace -> the TLA+ trace specification (TLC)."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ProcessPoolExecutor
import build
sys.path.insert(0, os.path.join(build.VERIF, 'gen'))
import base

JOBS = int(os.environ.get('VERIF_JOBS', '8'))

class CheckError(Exception): pass

def java(classes, spec_dir, cfg, module, env, meta, heap='1600m', workers=1, extra=()):
    cmd = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xss64m', '-Xmx' + heap, '-cp', classes + ':' + build.TLA, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *extra, module]
    return subprocess.run(cmd, cwd=spec_dir, env={**os.environ, **env}, capture_output=True, text=True)

class Episode:
    __slots__ = ('name', 'lines')
    def __init__(self, name, lines): self.name = name; self.lines = lines

def generate(modname, fn, n, seed, args=()):
    """n episodes of generator fn; episode i depends only on (seed, generator, i)."""
    mod = __import__(modname); f = getattr(mod, fn); out = []
    for i in range(n):
        S = base.Script(base.Rng('%s/%s/%s/%s/%d' % (seed, modname, fn, args, i)))
        f(S, i, *args)
        out.append(Episode('%s.%s%s seed %s #%d' % (modname, fn, args or '', seed, i), S.L))
    return out

def script_of(eps):
    txt = []
    for i, e in enumerate(eps): txt.append('ep %d' % i); txt += e.lines
    return txt

def drive(driver, txt, d, tag, timeout=20):
    s, o = os.path.join(d, tag + '.txt'), os.path.join(d, tag + '.nd')
    with open(s, 'w') as f: f.write('\n'.join(txt) + '\n')
    p = subprocess.run([driver, s, o, str(timeout)], capture_output=True, text=True, env={**os.environ, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1', 'UBSAN_OPTIONS': 'abort_on_error=1'})
    if p.returncode: raise CheckError('driver exit %d: %s' % (p.returncode, (p.stderr or '')[-800:]))
    return o

FAIL = re.compile(r'^"(FAIL|INFO)\|([^|]*)\|(\d+)\|(\d+)\|([^|]*)\|(.*)"$')
def judge(classes, trace, d, tag, module='Trace', env={}):
    """Replays a trace in TLC.  Returns (fails, infos, tlc_problem): fails are (prop, ep, pos, op, text); tlc_problem is the
    episode of a record that the specification could not interpret, or None."""
    meta = tempfile.mkdtemp(prefix='md_', dir=d)
    p = java(classes, os.path.join(build.VERIF, 'spec'), module + '.cfg', module + '.tla', {'TRACE': trace, **env}, meta)
    shutil.rmtree(meta, ignore_errors=True)
    fails = []; infos = {}; done = False
    for l in p.stdout.splitlines():
        m = FAIL.match(l)
        if m:
            if m.group(1) == 'INFO': infos[m.group(6)] = infos.get(m.group(6), 0) + 1
            else: fails.append((m.group(2), int(m.group(3)), int(m.group(4)), m.group(5), m.group(6)))
        elif l.startswith('"DONE|'): done = True
    if done: return fails, infos, None
    n = len([1 for _ in re.finditer(r'^State \d+:', p.stdout, re.M)])
    pos = [int(x) for x in re.findall(r'^/\\ pos = (\d+)', p.stdout, re.M)]
    msg = [l for l in p.stdout.splitlines() if 'rror' in l][:6]
    if not pos: raise CheckError('TLC: ' + ' / '.join(msg) + (p.stdout + p.stderr)[-1500:])
    at = max(pos)
    with open(trace) as f:
        for i, l in enumerate(f, 1):
            if i == at: e = json.loads(l); break
    return fails, infos, (e['ep'], at, e['op'], ' / '.join(msg)[:600])

def shard(job):
    """One shard: list of (modname, fn, args, n, seed) -> results.  Runs in a worker process."""
    drv, cls, plans, seed, two_pass = job
    d = tempfile.mkdtemp(prefix='verif_', dir='/tmp')
    try:
        eps = []
        for modname, fn, args, n, k in plans: eps += generate(modname, fn, n, '%s.%s' % (seed, k), args)
        return run_eps(drv, cls, eps, d, two_pass)
    finally: shutil.rmtree(d, ignore_errors=True)

def run_eps(drv, cls, eps, d, two_pass):
    txt = script_of(eps)
    tr = drive(drv, txt, d, 'a')
    if two_pass and any(l.startswith('#WIT') for l in txt):
        import g_opt
        recs = [json.loads(l) for l in open(tr) if '"op":"run"' in l]
        txt = g_opt.witness(txt, recs)
        tr = drive(drv, txt, d, 'b')
    scripts = split(txt)
    ops = {}; n_lines = 0; seen = set(); nontriv = {}
    for l in open(tr):
        n_lines += 1
        m = re.search(r'"op":"(\w+)"', l)
        o = m.group(1) if m else '?'; ops[o] = ops.get(o, 0) + 1
    fails, infos, prob = judge(cls, tr, d, 'a')
    weird = []
    cut = set()
    while prob is not None and len(cut) < 5:        # take the offending episode out and judge the rest
        ep, at, op, msg = prob; weird.append((ep, op, msg)); cut.add(ep)
        rest = os.path.join(d, 'rest.nd')
        with open(rest, 'w') as f:
            for l in open(tr):
                if json.loads(l)['ep'] not in cut: f.write(l)
        fails, infos, prob = judge(cls, rest, d, 'r')
    out = [(p, scripts[ep], eps[ep].name, op, text) for p, ep, pos, op, text in fails]
    out += [('SPEC', scripts[ep], eps[ep].name, op, 'the specification cannot interpret a record of %s: %s' % (op, msg)) for ep, op, msg in weird]
    return dict(fails=out, infos=infos, ops=ops, lines=n_lines, episodes=len(eps), hashes=[(hashlib.sha256('\n'.join(e.lines).encode()).hexdigest()[:16], sorted({l.split(' ', 1)[0] for l in e.lines})) for e in eps],
                sample=(eps[0].name, scripts[0]) if eps else None)

def shard_eps(job):
    drv, cls, eps, two_pass = job
    d = tempfile.mkdtemp(prefix='verif_', dir='/tmp')
    try: return run_eps(drv, cls, eps, d, two_pass)
    finally: shutil.rmtree(d, ignore_errors=True)

def split(txt):
    out = []; cur = None
    for l in txt:
        if l.startswith('ep '): cur = []; out.append(cur)
        else: cur.append(l)
    return out

def run_plan(plans, seed, flavour='std', jobs=None, two_pass=True, budget=None):
    """plans: list of (modname, fn, args, total).  Spread over shards, judge, merge."""
    jobs = jobs or JOBS
    drv, cls = build.driver(flavour), build.classes()
    per = [[] for _ in range(jobs)]
    for modname, fn, args, total in plans:
        for j in range(jobs):
            n = total // jobs + (1 if j < total % jobs else 0)
            if n: per[j].append((modname, fn, args, n, j))
    with ProcessPoolExecutor(jobs) as ex: res = list(ex.map(shard, [(drv, cls, p, seed, two_pass) for p in per if p]))
    return merge(res)

def run_episodes(eps, flavour='std', jobs=None, two_pass=True, chunk=400):
    """The same for given episodes."""
    jobs = jobs or JOBS
    drv, cls = build.driver(flavour), build.classes()
    n = max(jobs, -(-len(eps) // chunk))
    with ProcessPoolExecutor(jobs) as ex: res = list(ex.map(shard_eps, [(drv, cls, eps[k::n], two_pass) for k in range(n) if eps[k::n]]))
    return merge(res)

def merge(res):
    tot = dict(fails=[], infos={}, ops={}, lines=0, episodes=0, hashes=[], samples=[])
    for r in res:
        tot['fails'] += r['fails']; tot['lines'] += r['lines']; tot['episodes'] += r['episodes']; tot['hashes'] += r['hashes']
        for k in ('infos', 'ops'):
            for a, b in r[k].items(): tot[k][a] = tot[k].get(a, 0) + b
        if r['sample'] and len(tot['samples']) < 2: tot['samples'].append(r['sample'])
    return tot

def confirm(script, flavour='std'):
    """Runs one episode again on its own; the failures it shows."""
    drv, cls = build.driver(flavour), build.classes()
    d = tempfile.mkdtemp(prefix='verif_', dir='/tmp')
    try: return run_eps(drv, cls, [Episode('replay', script)], d, True)['fails']
    finally: shutil.rmtree(d, ignore_errors=True)
