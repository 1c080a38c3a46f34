"""Scripts for the conformance driver: value sampling, variable and factor builders."""
import math, random, struct

def hx(x): return struct.pack('>d', float(x)).hex()
def unhx(p): return struct.unpack('>d', struct.pack('>ii', p[0], p[1]))[0]      # <<hi, lo>> of a trace
def vec(v): return ' '.join([str(len(v))] + [hx(x) for x in v])
def ints(v): return ' '.join([str(len(v))] + [str(x) for x in v])
def mat(m): return ' '.join([str(len(m)), str(len(m[0]) if m else 0)] + [hx(x) for r in m for x in r])

# ---------------------------------------------------------------- small linear algebra
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def norm(a): return math.sqrt(dot(a, a))
def sub(a, b): return [x - y for x, y in zip(a, b)]
def add(a, b): return [x + y for x, y in zip(a, b)]
def scale(s, a): return [s * x for x in a]
def mv(m, v): return [dot(r, v) for r in m]
def mm(a, b): return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]
def tr(m): return [list(c) for c in zip(*m)]
def rot(w):
    t = norm(w)
    if t < 1e-300: return [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    k = scale(1 / t, w); s = math.sin(t); h = 2 * math.sin(t / 2) ** 2
    K = [[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]]; K2 = mm(K, K)
    return [[(i == j) + s * K[i][j] + h * K2[i][j] for j in range(3)] for i in range(3)]
def flat(m): return [x for r in m for x in r]
def rot2(t): return [[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]]

class Rng(random.Random):
    def g(self, s=1.0): return self.gauss(0, s)
    def vec(self, n, s=1.0): return [self.gauss(0, s) for _ in range(n)]
    def unit(self, n=3):
        while True:
            v = self.vec(n); t = norm(v)
            if t > 1e-3: return scale(1 / t, v)
    def axis(self):          # directions, biased to axes and planes
        r = self.random()
        if r < 0.3: v = [0.0, 0.0, 0.0]; v[self.randrange(3)] = self.choice([1.0, -1.0]); return v
        if r < 0.45: v = [self.g(), self.g(), 0.0]; self.shuffle(v); t = norm(v); return scale(1 / t, v)
        return self.unit()
    def log(self, lo, hi): return math.exp(self.uniform(math.log(lo), math.log(hi)))
    def angle(self, maxa=math.pi):   # rotation angles, often near 0 and near the largest one
        r = self.random()
        if r < 0.1: return 0.0
        if r < 0.35: return min(maxa, self.log(1e-12, 1e-1))
        if r < 0.55: return max(0.0, maxa - self.log(1e-12, 1e-1))
        return self.uniform(0, maxa)
    def rvec(self, maxa=math.pi): return scale(self.angle(maxa), self.axis())
    def mild(self): return scale(self.uniform(0, 2.2), self.unit())      # a rotation vector far from both ends
    def dcm(self, maxa=math.pi): return rot(self.rvec(maxa))
    def coord(self, s=1.0):
        r = self.random()
        return 0.0 if r < 0.08 else self.g(s * 100) if r < 0.16 else self.g(s * 1e-4) if r < 0.2 else self.g(s)
    def coords(self, n, s=1.0): return [self.coord(s) for _ in range(n)]
    def sigma(self): return self.choice([1.0, 0.1, 0.5, 2.0, self.log(1e-3, 1e2)])
    def heading(self):
        r = self.random()
        if r < 0.25: return self.choice([1, -1]) * (math.pi + self.choice([0, 1, -1]) * self.log(1e-15, 1e-2))
        if r < 0.35: return self.g(30)
        return self.uniform(-math.pi, math.pi)

SIZE = dict(pose=6, poseR=6, lm=3, rot=3, ir=1, plane=4, pose2=3)
KINDS = ['pose', 'lm', 'gen', 'rot', 'ir', 'plane', 'pose2', 'usr']
LINEAR = ['lm', 'gen', 'usr']

class Script:
    """One episode.  Slots are allocated in order; ids are given or arbitrary."""
    def __init__(self, rng):
        self.r = rng; self.L = []; self.nv = 0; self.nf = 0; self.k = {}; self.c = {}; self.d = {}; self.f = {}; self.id = {}; self.hooks = {}
    def __call__(self, *t):
        self.L.append(' '.join(str(x) for x in t)); return len(self.L)
    # --- variables
    def var(self, kind, d, id=None, const=False):
        s = self.nv; self.nv += 1
        if id is None: id = s
        self('var', s, kind, id, int(const), vec(d)); self.k[s] = 'pose' if kind == 'poseR' else kind; self.c[s] = const; self.d[s] = list(d); self.id[s] = id
        return s
    def size(self, s): return SIZE.get(self.k[s], len(self.d[s]))
    def rand_args(self, kind, n=None, tame=False):
        r = self.r
        if kind == 'pose': return r.coords(3, 3) + (r.mild() if tame else r.rvec())
        if kind == 'poseR': return r.coords(3, 3) + flat(rot(r.mild()) if tame else r.dcm())
        if kind == 'lm': return r.coords(3, 3)
        if kind in ('gen', 'usr'): return r.coords(n or r.randint(1, 5), 2)
        if kind == 'rot': return flat(rot(r.mild()) if tame else r.dcm())
        if kind == 'ir': return r.coords(3, 2) + scale(r.uniform(0.3, 3), r.axis()) + [r.log(0.05, 50) if tame or r.random() < .8 else r.choice([1e-9, 1e9, 1e-3, 1e6])]
        if kind == 'plane': return scale(r.log(0.1, 10), r.axis()) + [r.coord(3)]
        if kind == 'pose2': return r.coords(2, 3) + [r.uniform(-3, 3) if tame else r.heading()]
        raise KeyError(kind)
    def rvar(self, kind, n=None, tame=False, id=None, const=False):
        return self.var(kind, self.rand_args(kind, n, tame), id, const)
    # --- factors
    def fac(self, kind, vs, d, n=(), id=None):
        s = self.nf; self.nf += 1
        if id is None: id = s
        self('fac', s, kind, id, ints(vs), vec(d), ints(n)); self.f[s] = (kind, list(vs), list(d), list(n)); return s

# Residual sizes of the built-in factors
def rows_of(kind, vs_sizes, d, n):
    return dict(bear=3, irb=3, bp2=2, b2=1, rb2=2, p2p=3, p2b=3, ppp=3, pop=3, ppb=3, pob=3, rp=3, ct=3, pl=1, plp=4).get(kind) or \
        (vs_sizes[0] if kind in ('gp', 'gb') else vs_sizes[2] if kind == 'lv' else None)

FACTORS = ['bear', 'irb', 'bp2', 'b2', 'rb2', 'p2p', 'p2b', 'gp', 'gb', 'lv', 'ppp', 'pop', 'ppb', 'pob', 'rp', 'ct', 'pl', 'plp']

def make_vars(S, kind, tame=False, pool=None, const=0.0):
    """Variables for one factor of the kind; pool: choose existing variables where possible."""
    r = S.r
    def get(k, n=None, fresh=False):
        if pool is not None and not fresh and r.random() < 0.75:
            c = [s for s in pool if S.k[s] == k and (n is None or S.size(s) == n)]
            if c: return r.choice(c)
        s = S.rvar(k, n, tame, id=(S.newid() if hasattr(S, 'newid') else None), const=r.random() < const)
        if pool is not None: pool.append(s)
        return s
    def two(k, n=None):
        a = get(k, n)
        for _ in range(4):
            b = get(k, n)
            if b != a: return a, b
        return a, get(k, n, True)
    def lin(n): return get(r.choice(['gen', 'gen', 'usr'] + (['lm'] if n == 3 else [])), n)
    if kind == 'bear' or kind == 'bp2': return [get('pose'), get('lm')]
    if kind == 'irb': return [get('pose'), get('ir')]
    if kind in ('b2', 'rb2'): return [get('pose2'), get(r.choice(['gen', 'gen', 'usr']), 2)]
    if kind == 'p2p': return [get('pose2')]
    if kind == 'p2b':
        a, b = two('pose2'); return [a, b, get(r.choice(['pose2', 'gen']), 3, fresh=True)]
    if kind == 'gp': return [lin(r.randint(1, 4))]
    if kind == 'gb':
        n = r.randint(1, 4); a = lin(n); b = lin(n); c = lin(n)
        while b == a: b = get('gen', n, True)
        while c in (a, b): c = get('gen', n, True)
        return [a, b, c]
    if kind == 'lv':
        n = r.randint(2, 6); a, b = two('gen', n); v = get('gen', r.randint(1, n), True); return [a, b, v]
    if kind in ('ppp', 'pop'): return [get('pose')]
    if kind == 'ppb':
        a, b = two('pose'); return [a, b, get(r.choice(['gen', 'lm', 'usr']), 3)]
    if kind == 'pob':
        a, b = two('pose'); return [a, b, get('rot')]
    if kind == 'rp': return [get('rot')]
    if kind == 'ct':
        a, b = two('lm'); o = get('gen', 3); s = get('gen', 1); return [get('rot'), o, s, a, b]
    if kind == 'pl': return [get(r.choice(['lm', 'lm', 'gen', 'usr']), 3), get('plane')]
    if kind == 'plp': return [get('plane')]
    raise KeyError(kind)

def make_args(S, kind, vs, sig=None, dirs=None):
    """Parameters (d, n) for a factor on the variables vs."""
    r = S.r; sg = sig or r.sigma
    direction = lambda: scale(r.log(0.2, 5), dirs() if dirs else r.axis())
    if kind in ('bear', 'irb'): return [sg()] + direction(), []
    if kind == 'bp2': return [sg()] + direction() + [r.choice([1e-6, 1e-6, 1e-3, 0.2])], []
    if kind == 'b2': return [sg(), r.heading()], []
    if kind == 'rb2': return [sg(), sg(), r.log(0.1, 30), r.heading()], []
    if kind == 'p2p': return [sg(), sg()] + r.coords(2, 3) + [r.heading()], []
    if kind == 'p2b': return [sg(), sg()], [r.randrange(2)]
    if kind == 'gp': return [sg()] + r.coords(S.size(vs[0]), 2), []
    if kind == 'gb': return [sg()], []
    if kind == 'lv': return [sg(), r.choice([0.0, 1.0, -0.5, r.g(10), 0.01])], [r.randint(0, S.size(vs[0]) - S.size(vs[2]))]
    if kind == 'ppp': return [sg()] + r.coords(3, 3), []
    if kind in ('pop', 'rp'): return [sg()] + flat(r.dcm()), []
    if kind == 'ppb': return [sg()], [r.randrange(2)]
    if kind == 'pob': return [sg()], []
    if kind == 'ct': return [sg()], []
    if kind == 'pl': return [sg(), r.log(0.1, 30)] + r.coords(3, 3), [r.randrange(3)]
    if kind == 'plp': return [sg(), sg()] + scale(r.log(0.2, 5), r.axis()) + [r.coord(3)], []
    raise KeyError(kind)
