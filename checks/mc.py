"""Model checking and model-based tests: TLC explores a model completely, checking its invariants and action properties, and
prints its transitions; behaviours that together cover every transition are replayed into the real library and the recorded
traces are judged by the trace specification, which is made of the same operators as the model."""
import os, re, shutil, tempfile
from collections import deque
import build, engine

def explore(module, consts, invariants=(), properties=(), workers=8, heap='6g', spec='Spec', view='View', timeout=None):
    """-> dict(states, transitions, edges = [(from, call, to)], init).  Raises CheckError unless TLC verified everything."""
    d = tempfile.mkdtemp(prefix='verif_', dir='/tmp')
    try:
        cfg = os.path.join(d, 'mc.cfg')
        with open(cfg, 'w') as f:
            f.write('SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec)
            if consts: f.write('CONSTANTS ' + '  '.join('%s %s' % (a, '<- ' + b[2:] if b[:2] == '<-' else '= ' + b) if isinstance(b, str) else '%s = %s' % (a, b) for a, b in consts.items()) + '\n')
            if view: f.write('VIEW %s\n' % view)
            if invariants: f.write('INVARIANTS %s\n' % ' '.join(invariants))
            if properties: f.write('PROPERTIES %s\n' % ' '.join(properties))
        p = engine.java(build.classes(), os.path.join(build.VERIF, 'spec'), cfg, module + '.tla', {}, os.path.join(d, 'meta'), heap=heap, workers=workers)
    finally: shutil.rmtree(d, ignore_errors=True)
    out = p.stdout
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', out)
    if 'No error has been found' not in out or not m:
        raise engine.CheckError('TLC on %s: %s' % (module, '\n'.join(l for l in out.splitlines() if not l.startswith('"T|'))[-2500:]))
    edges = []; seen = set(); inits = []
    for l in out.splitlines():
        if l.startswith('"T|') and l.endswith('"'):
            _, a, op, b = l[1:-1].split('|')
            k = (a, op, b)
            if k not in seen: seen.add(k); edges.append(k)
        elif l.startswith('"I|') and l[3:-1] not in inits: inits.append(l[3:-1])
    edges.sort(); inits.sort(); n = len(edges)
    init = inits[0] if inits else ''
    if len(inits) > 1: init = ''; edges += [('', 'start', a) for a in inits]       # several initial states: chosen by a first step
    return dict(states=int(m.group(2)), transitions=int(m.group(1)), edges=edges, init=init, calls=n)

def tour(edges, init, maxlen=60, first=None):
    """Paths from init, each of at most about maxlen calls, that together take every transition; a path is a list of (call, state)."""
    out = {}
    for a, op, b in edges: out.setdefault(a, []).append((op, b))
    if first:
        for a in out: out[a].sort(key=lambda e: first(e[0]))
    todo = {a: list(reversed(l)) for a, l in out.items()}          # transitions not yet taken
    left = len(edges)
    # shortest way from init to every state
    par = {init: None}; q = deque([init]); order = []
    while q:
        a = q.popleft(); order.append(a)
        for op, b in out.get(a, ()):
            if b not in par: par[b] = (a, op); q.append(b)
    def way(s):
        w = []
        while par[s] is not None: a, op = par[s]; w.append((op, s)); s = a
        return w[::-1]
    def near(s, limit=200):
        """Nearest state with transitions left, and the calls leading there."""
        seen = {s: None}; q = deque([s]); n = 0
        while q:
            a = q.popleft(); n += 1
            if todo.get(a):
                w = []
                t = a
                while seen[t] is not None: p, op = seen[t]; w.append((op, t)); t = p
                return a, w[::-1]
            if n > limit: return None
            for op, b in out.get(a, ()):
                if b not in seen: seen[b] = (a, op); q.append(b)
        return None
    paths = []; k = 0
    unreached = [a for a in out if a not in par]
    if unreached: raise engine.CheckError('transition from a state that is not reachable: %s' % unreached[0])
    while left:
        while k < len(order) and not todo.get(order[k]): k += 1
        if k == len(order): break
        s = order[k]; path = way(s)
        while len(path) < maxlen:
            if todo.get(s): op, s2 = todo[s].pop(); left -= 1; path.append((op, s2)); s = s2
            else:
                n = near(s)
                if n is None or len(path) + len(n[1]) >= maxlen: break
                s, w = n; path += w
        paths.append(path)
    return paths

def model(module, mapper, quick, thorough=None, invariants=(), properties=(), maxlen=60, first=None, rounds=1, states=False, view='View', run=None):
    """A part of a check: explore the model, replay its behaviours.  mapper(Rng, path, i) -> script lines
    (None: cannot be made concrete)."""
    def part(prop, tier, seed):
        consts = thorough if tier == 'thorough' and thorough else quick
        x = explore(module, consts, invariants, properties, view=view)
        paths = tour(x['edges'], x['init'], maxlen, first)
        import base
        eps = []
        for rd in range(rounds if tier == 'quick' else max(rounds, 2)):
            for i, p in enumerate(paths):
                r = base.Rng('%s/%s/%d/%d' % (seed, module, rd, i))
                lines = mapper(r, p if states else [op for op, _ in p], i)
                if lines is not None: eps.append(engine.Episode('%s behaviour %d (values %s.%d)' % (module, i, seed, rd), lines))
        tot = (run or engine.run_episodes)(eps)
        cov = dict(states=x['states'], transitions=x['transitions'],
                   models=[dict(module=module, constants=consts, distinct_states=x['states'], states_generated=x['transitions'], distinct_transitions=x['calls'],
                                behaviours_replayed=len(eps), invariants=list(invariants), properties=list(properties))])
        return tot, cov
    return part
