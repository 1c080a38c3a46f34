"""Conformance driver for the Python module: executes the same scripts as the C++ driver through the Python API and records
the same records.  How arguments were passed (left out, by keyword) is chosen per line and recorded too.
usage: pydriver.py SCRIPT OUT [timeout]      (PYTHONPATH: the built package)"""
import gc, json, os, random, signal, struct, sys
import numpy as np
import factorama as fa

def rp(x):
    h, l = struct.unpack('>ii', struct.pack('>d', float(x))); return [h, l]
def rv(v):
    a = np.asarray(v)
    if a.dtype != np.float64: raise TypeError('not an array of doubles: %s' % a.dtype)
    return [rp(x) for x in a.reshape(-1)]
def vec1(v):
    if not isinstance(v, np.ndarray) or v.ndim != 1: raise AssertionError('expected a vector, got %r' % (getattr(v, 'shape', type(v)),))
    return rv(v)
def shaped(m):
    m = np.asarray(m)
    if m.ndim != 2: raise AssertionError('expected a matrix')
    return dict(r=m.shape[0], c=m.shape[1], m=[rv(r) for r in m])
def unhx(t): return struct.unpack('>d', bytes.fromhex(t))[0]

class In:
    def __init__(self, t): self.t = t; self.i = 0
    def str(self): self.i += 1; return self.t[self.i - 1]
    def num(self): return int(self.str())
    def real(self): return unhx(self.str())
    def vec(self): return [self.real() for _ in range(self.num())]
    def ints(self): return [self.num() for _ in range(self.num())]

def m3(d): return np.array(d).reshape(3, 3)
# constructors: class, parameter names, defaults
VARS = dict(
    pose=('PoseVariable', ['id', 'pose_CW_init'], lambda d: [np.array(d)]),
    poseR=('PoseVariable', ['id', 'pos_W', 'dcm_CW'], lambda d: [np.array(d[:3]), m3(d[3:])]),
    lm=('LandmarkVariable', ['id', 'pos_W_init'], lambda d: [np.array(d)]),
    gen=('GenericVariable', ['id', 'initial_value'], lambda d: [np.array(d, dtype=float)]),
    rot=('RotationVariable', ['id', 'dcm_AB'], lambda d: [m3(d)]),
    ir=('InverseRangeVariable', ['id', 'origin_pos_W', 'bearing_W', 'initial_range'], lambda d: [np.array(d[:3]), np.array(d[3:6]), d[6]]),
    plane=('PlaneVariable', ['id', 'normal_vector', 'distance'], lambda d: [np.array(d[:3]), d[3]]),
    pose2=('Pose2DVariable', ['id', 'pose_2d'], lambda d: [np.array(d)]))
A = np.array
FACS = dict(    # class, names, arguments after the id from (variables, d, n), parameters that have a default
    bear=('BearingObservationFactor', ['id', 'pose_var', 'landmark_var', 'bearing_C_observed', 'angle_sigma'], lambda v, d, n: [v[0], v[1], A(d[1:4]), d[0]], {'angle_sigma': 1.0}),
    irb=('InverseRangeBearingFactor', ['id', 'pose_var', 'inverse_range_var', 'bearing_C_observed', 'angle_sigma'], lambda v, d, n: [v[0], v[1], A(d[1:4]), d[0]], {'angle_sigma': 1.0}),
    bp2=('BearingProjectionFactor2D', ['id', 'pose', 'landmark', 'bearing_C_observed', 'sigma', 'along_tolerance_epsilon'], lambda v, d, n: [v[0], v[1], A(d[1:4]), d[0], d[4]], {'sigma': 1.0, 'along_tolerance_epsilon': 1e-6}),
    b2=('BearingObservationFactor2D', ['id', 'pose_var', 'landmark_var', 'bearing_angle_obs', 'angle_sigma'], lambda v, d, n: [v[0], v[1], d[1], d[0]], {'angle_sigma': 1.0}),
    rb2=('RangeBearingFactor2D', ['id', 'pose_var', 'landmark_var', 'range_obs', 'bearing_angle_obs', 'range_sigma', 'bearing_sigma'], lambda v, d, n: [v[0], v[1], d[2], d[3], d[0], d[1]], {'range_sigma': 1.0, 'bearing_sigma': 1.0}),
    p2p=('Pose2DPriorFactor', ['id', 'pose_var', 'pose_prior', 'position_sigma', 'angle_sigma'], lambda v, d, n: [v[0], A(d[2:5]), d[0], d[1]], {}),
    p2b=('Pose2DBetweenFactor', ['id', 'pose_a', 'pose_b', 'measured_between_variable', 'position_sigma', 'angle_sigma', 'local_frame'], lambda v, d, n: [v[0], v[1], v[2], d[0], d[1], bool(n[0])], {'local_frame': False}),
    gp=('GenericPriorFactor', ['id', 'variable', 'prior_value', 'sigma'], lambda v, d, n: [v[0], A(d[1:], dtype=float), d[0]], {'sigma': 1.0}),
    gb=('GenericBetweenFactor', ['id', 'var_a', 'var_b', 'measured_diff', 'sigma'], lambda v, d, n: [v[0], v[1], v[2], d[0]], {'sigma': 1.0}),
    lv=('LinearVelocityFactor', ['id', 'var_1', 'var_2', 'velocity_variable', 'dt', 'sigma'], lambda v, d, n: [v[0], v[1], v[2], d[1], d[0]], {'sigma': 1.0}),
    ppp=('PosePositionPriorFactor', ['id', 'pose', 'pos_prior', 'sigma'], lambda v, d, n: [v[0], A(d[1:4]), d[0]], {'sigma': 1.0}),
    pop=('PoseOrientationPriorFactor', ['id', 'pose', 'rotvec_prior', 'sigma'], lambda v, d, n: [v[0], m3(d[1:]), d[0]], {'sigma': 1.0}),
    ppb=('PosePositionBetweenFactor', ['id', 'pose_a', 'pose_b', 'measured_diff', 'sigma', 'local_frame'], lambda v, d, n: [v[0], v[1], v[2], d[0], bool(n[0])], {'sigma': 1.0, 'local_frame': False}),
    pob=('PoseOrientationBetweenFactor', ['id', 'pose1', 'pose2', 'calibration_rotation_12', 'angle_sigma'], lambda v, d, n: [v[0], v[1], v[2], d[0]], {'angle_sigma': 1.0}),
    rp=('RotationPriorFactor', ['id', 'rotation', 'dcm_AB_prior', 'sigma'], lambda v, d, n: [v[0], m3(d[1:]), d[0]], {'sigma': 1.0}),
    ct=('CoordinateTransformFactor', ['id', 'rot_AB', 'B_origin_A', 'scale_AB', 'lm_A', 'lm_B', 'sigma'], lambda v, d, n: v[:5] + [d[0]], {'sigma': 1.0}),
    pl=('PlaneFactor', ['id', 'point_var', 'plane_var', 'sigma'], lambda v, d, n: [v[0], v[1], d[0]], {'sigma': 1.0}),
    pls=('PlaneFactor', ['id', 'point_var', 'plane_var', 'sigma', 'do_distance_scaling', 'dist_scaling_r0', 'dist_scaling_p0'], lambda v, d, n: [v[0], v[1], d[0], n[0] == 1, d[1], A(d[2:5])], {}),
    plp=('PlanePriorFactor', ['id', 'plane', 'normal_prior', 'distance_prior', 'normal_sigma', 'distance_sigma'], lambda v, d, n: [v[0], A(d[2:5]), d[5], d[0], d[1]], {'normal_sigma': 1.0, 'distance_sigma': 1.0}))
SETS = ['step_tolerance', 'residual_tolerance', 'initial_lambda', 'max_lambda', 'lambda_up_factor', 'lambda_down_factor', 'learning_rate']
SDEF = [1e-6, 1e-6, 1e-3, 1e5, 10.0, 0.1, 1.0]

def call(r, o, cls, names, args, defaults):
    """Calls cls with some of the defaults left out and some arguments by keyword; records which."""
    n = len(args); left = []
    cand = [k for k in range(n) if names[k] in defaults and args[k] == defaults[names[k]]]
    if r.random() < 0.7:        # any may be left out if what follows goes by keyword
        left = [k for k in cand if r.random() < 0.7]
    first = min(left + [n]); kwfrom = min(first, r.choice([n, n, r.randint(1, n)]))
    kw = [k for k in range(kwfrom, n) if k not in left]
    pos = args[:kwfrom]
    order = list(kw); r.shuffle(order)
    o['left'] = [[names[k], rp(float(args[k]))] for k in left]; o['kw'] = [names[k] for k in kw]
    return getattr(fa, cls)(*pos, **{names[k]: args[k] for k in order})

class World:
    def __init__(self): self.v = {}; self.f = {}; self.fk = {}; self.g = {}; self.o = {}; self.og = {}; self.last = {}
    def var(self, s): return None if s < 0 else self.v[s]
    def vs(self, x):
        if x is None: return -1
        for s, v in self.v.items():
            if v is x: return s
        return -2
    def fs(self, x):
        for s, f in self.f.items():
            if f is x: return s
        return -2
    def G(self, g):
        if g not in self.g: self.g[g] = fa.FactorGraph()
        return self.g[g]
    def O(self, k):
        if k not in self.o: self.o[k] = fa.SparseOptimizer()
        return self.o[k]

def views(v):
    one = lambda x: [rp(x)]
    n = type(v).__name__
    if n == 'PoseVariable': return [vec1(v.pos_W()), vec1(v.rot_CW())] + [rv(r) for r in v.dcm_CW()]
    if n == 'LandmarkVariable': return [vec1(v.pos_W())]
    if n == 'RotationVariable': return [rv(r) for r in v.rotation()] + [rv(r) for r in v.dcm_AB()]
    if n == 'InverseRangeVariable': return [vec1(v.origin_pos_W()), vec1(v.bearing_W()), one(v.inverse_range()), vec1(v.pos_W()), [rp(v.minimum_inverse_range), rp(v.maximum_inverse_range)]]
    if n == 'PlaneVariable': return [vec1(v.unit_vector()), one(v.distance_from_origin()), one(v.distance_from_point(A([1.5, -2.25, 0.5])))]
    if n == 'Pose2DVariable': return [vec1(v.pos_2d()), one(v.theta())] + [rv(r) for r in v.dcm_2d()]
    return []
def vrec(v): return dict(t=int(v.type()), id=v.id(), n=v.size(), c=int(v.is_constant()), x=vec1(v.value()), a=views(v))

def stats(s): return dict(v=int(s.valid), st=int(s.status), chi2=rp(s.chi2), dn=rp(s.delta_norm), rn=rp(s.residual_norm), it=s.current_iteration, lam=rp(s.damping_parameter), rank=s.rank)
def sets(o, s):
    o['gm'] = int(s.method == fa.OptimizerMethod.LevenbergMarquardt); o['gk'] = s.max_num_iterations; o['gd'] = [rp(getattr(s, k)) for k in SETS]; o['gv'] = int(s.verbose); o['gr'] = int(s.check_rank_deficiency)

def step(w, op, i, o, r):
    if op == 'var':
        s, k, id, c, d = i.num(), i.str(), i.num(), i.num(), i.vec()
        cls, names, mk = VARS[k]; o['s'] = s; o['k'] = k; o['id'] = id; o['c'] = c; o['d'] = rv(np.array(d, dtype=float))
        v = call(r, o, cls, names, [id] + mk(d), {})
        if c: v.set_constant(True)
        w.v[s] = v; o['nm'] = v.name(); o['cls'] = type(v).__name__; o['tn'] = v.type().name; return
    if op == 'fac':
        s, k, id, vs, d, n = i.num(), i.str(), i.num(), i.ints(), i.vec(), i.ints(); o['s'] = s; o['k'] = k; o['id'] = id; o['d'] = rv(np.array(d, dtype=float)); o['n'] = n
        cls, names, mk, df = FACS['pls' if k == 'pl' and n[0] else k]
        f = call(r, o, cls, names, [id] + mk([w.var(x) for x in vs], d, n), df)
        w.f[s] = f
        o['rs'] = f.residual_size(); o['fid'] = f.id(); o['ft'] = int(f.type()); o['nm'] = f.name(); o['tn'] = f.type().name; o['fv'] = [w.vs(x) for x in f.variables()]
        o['fa'] = vec1(f.bearing_C_obs()) if k in ('bear', 'irb', 'bp2') else [rp(f.bearing_angle_obs())] if k == 'b2' else [rp(f.range_obs()), rp(f.bearing_angle_obs())] if k == 'rb2' else [rp(f.weight())] if k == 'ct' else []
        return
    if op == 'setc': w.v[i.num()].set_constant(bool(i.num())); return
    if op == 'vset': w.v[i.num()].set_value_from_vector(A(i.vec(), dtype=float)); return
    if op == 'vinc': w.v[i.num()].apply_increment(A(i.vec(), dtype=float)); return
    if op == 'vm':
        v, what, d = w.v[i.num()], i.str(), i.vec()
        if what == 'pos': v.set_pos_2d(A(d))
        elif what == 'theta': v.set_theta(d[0])
        elif what == 'lim': v.minimum_inverse_range = d[0]; v.maximum_inverse_range = d[1]
        else: os._exit(97)
        return
    if op == 'clone':
        s, t = i.num(), i.num(); o['s'] = s; o['to'] = t; c = w.v[s].clone(); o['same'] = int(c is w.v[s]); o['cls'] = type(c).__name__; w.v[t] = c; return
    if op == 'drop': s = i.num(); w.v.pop(s, None); w.last.pop(s, None); return
    if op == 'fres': f = w.f[i.num()]; a = f.compute_residual(); o['r1'] = vec1(a); o['rs'] = f.residual_size(); o['r4'] = vec1(f.compute_residual()); return
    if op in ('exp', 'log'):
        d = A(i.vec()); kw = r.random() < 0.5
        if op == 'exp': m = fa.ExpMapSO3(omega=d) if kw else fa.ExpMapSO3(d); o['r'] = shaped(m)['m']
        else: o['r'] = vec1(fa.LogMapSO3(R=m3(d)) if kw else fa.LogMapSO3(m3(d)))
        return
    if op in ('setup', 'run', 'prep', 'pcov', 'cov', 'sdef', 'sget', 'stat'): return opt(w, op, i, o, r)
    if op == 'plot': return plot(w, i, o, r)
    g = w.G(i.num())
    if op == 'addv': g.add_variable(w.v[i.num()])
    elif op == 'addf': g.add_factor(w.f[i.num()])
    elif op == 'getv': o['r'] = w.vs(g.get_variable(i.num()))
    elif op == 'lists': o['vs'] = [w.vs(v) for v in g.get_all_variables()]; o['fs'] = [w.fs(f) for f in g.get_all_factors()]; o['num'] = g.num_variables()
    elif op == 'fin': g.finalize_structure(); o['nv'] = g.num_values(); o['nr'] = g.num_residuals()
    elif op == 'lay': o['nv'] = g.num_values(); o['nr'] = g.num_residuals()
    elif op == 'print': g.print_structure()
    elif op == 'flags': o['jv'] = int(g.jacobian_valid()); o['rv'] = int(g.residual_valid())
    elif op == 'resid': o['r'] = vec1(g.compute_full_residual_vector())
    elif op == 'jac': o['j'] = shaped(g.compute_full_jacobian_matrix())
    elif op == 'sjac': m = g.compute_sparse_jacobian_matrix(); o['j'] = shaped(m.toarray()); o['bad'] = 0 if m.has_canonical_format else 1
    elif op == 'both': g.compute_full_jacobian_and_residual(); o['r'] = vec1(g.residual()); o['j'] = shaped(g.jacobian())
    elif op == 'acc':
        k = i.str()
        if k == 'r': o['r'] = vec1(g.residual())
        elif k == 'j': o['j'] = shaped(g.jacobian())
        else: o['j'] = shaped(g.sparse_jacobian().toarray())
    elif op == 'getx': o['x'] = vec1(g.get_variable_vector())
    elif op == 'setx': g.set_variable_values_from_vector(A(i.vec(), dtype=float))
    elif op == 'incx': g.apply_increment(A(i.vec(), dtype=float))
    elif op == 'ftest':
        tol, verb = i.real(), bool(i.num()); q = r.randrange(4)
        o['r'] = int(g.detailed_factor_test(tol, verb) if q == 0 else g.detailed_factor_test(jacobian_tol=tol, verbose=verb) if q == 1 or verb else g.detailed_factor_test(tol) if q == 2 else g.detailed_factor_test(jacobian_tol=tol))
    else: sys.stderr.write('unknown op %s\n' % op); os._exit(97)

def opt(w, op, i, o, r):
    if op == 'sdef': sets(o, fa.OptimizerSettings()); return
    k = i.num(); O = w.O(k)
    if op == 'setup':
        g, m, n, d, verb = w.g[i.num()], i.num(), i.num(), i.vec(), i.num(); s = fa.OptimizerSettings(); left = []
        if m or r.random() < 0.5: s.method = fa.OptimizerMethod.LevenbergMarquardt if m else fa.OptimizerMethod.GaussNewton
        if n != 100 or r.random() < 0.5: s.max_num_iterations = n
        idx = list(range(7)); r.shuffle(idx)
        for q in idx:
            if d[q] != SDEF[q] or r.random() < 0.5: setattr(s, SETS[q], d[q])
            else: left.append([SETS[q], rp(d[q])])
        if verb: s.verbose = True
        o['left'] = left; w.og[k] = g; O.setup(g, s)
    elif op == 'run':
        try: O.optimize()
        finally: o['i'] = stats(O.initial_stats); o['s'] = stats(O.current_stats)
    elif op == 'stat': o['i'] = stats(O.initial_stats); o['s'] = stats(O.current_stats)
    elif op == 'sget': sets(o, O.settings())
    elif op == 'prep': O.prepare_to_estimate_covariances()
    elif op == 'pcov': O.print_all_covariances()
    elif op == 'cov':
        v = w.var(i.num()); P, ok = O.estimate_covariance(variable=v) if r.random() < 0.5 else O.estimate_covariance(v)
        o['valid'] = int(ok); o['p'] = shaped(P)

# ---- PlotFactorGraph: what was drawn, as markers, lines, arrows and covariance regions
def plot(w, i, o, r):
    import warnings; warnings.simplefilter('ignore')
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_hex
    from matplotlib import collections as mc, patches as mp
    from mpl_toolkits.mplot3d import art3d
    g, three, meas, betw, cov, k, given = w.G(i.num()), i.num(), i.num(), i.num(), i.num(), i.num(), i.num()
    O = w.o.get(k); cov = int(cov and O is not None and w.og.get(k) is g and O.current_stats.valid)
    o['three'], o['meas'], o['betw'], o['cov'], o['given'] = three, meas, betw, cov, given
    vs, fs = g.get_all_variables(), g.get_all_factors(); o['vs'] = [w.vs(v) for v in vs]; o['fs'] = [w.fs(f) for f in fs]
    have = plt.get_fignums(); ax = None; before = set()
    if given:
        fig = plt.figure(); ax = fig.add_subplot(111, projection='3d') if three else fig.add_subplot(111)
        if given == 2: ax.scatter([1.0], [2.0], c='black'); ax.plot([0, 1], [0, 1], color='orange')
        before = {id(a) for a in list(ax.collections) + list(ax.lines) + list(ax.patches)}; keep = list(ax.collections) + list(ax.lines)
    kw = dict(axis_handle=ax, plot_covariance=bool(cov), optimizer=O if cov or r.random() < 0.2 else None, plot_3d=bool(three), plot_measurements=bool(meas), plot_between_factors=bool(betw))
    df = dict(axis_handle=None, plot_covariance=False, optimizer=None, plot_3d=True, plot_measurements=True, plot_between_factors=True)
    names = list(kw); q = r.choice([0, 0, 0, 1, 3, 6])
    pos = [kw.pop(n) for n in names[:q]]
    for n in list(kw):
        if kw[n] is df[n] and r.random() < 0.5: del kw[n]
    try:
        R = fa.PlotFactorGraph(g, *pos, **kw)
        o['ret'] = ('given' if R is ax else 'another') if given else 'new' if R.figure.number not in have else 'an old one'
        o['dim'] = 3 if R.name == '3d' else 2; n3 = o['dim'] == 3; mk, ln, ar, rg = [], [], [], []
        hexes = lambda cs, n: [to_hex(c[:3]) for c in (cs if len(cs) == n else [cs[0]] * n)] if n else []
        for c in R.collections:
            if id(c) in before: continue
            if isinstance(c, art3d.Path3DCollection):
                P = np.array([np.asarray(x, dtype=float) for x in c._offsets3d]).T
                for h, p in zip(hexes(c.get_facecolor(), len(P)), P): mk.append([h, rv(p)])
            elif isinstance(c, art3d.Line3DCollection):
                S = [np.asarray(x, dtype=float) for x in c._segments3d]; C = hexes(c.get_edgecolor(), len(S)); L = [np.linalg.norm(x[1] - x[0]) for x in S]
                for x, h, l in zip(S, C, L):
                    if l < 0.6 * max(L): continue        # part of a head
                    heads = [y for y, m in zip(S, L) if m < 0.6 * max(L)]; touch = lambda p: sum(min(np.linalg.norm(y[0] - p), np.linalg.norm(y[1] - p)) < 1e-6 * l for y in heads)
                    a, b = (x[0], x[1]) if touch(x[1]) > touch(x[0]) else (x[1], x[0]); ar.append([h, rv(a), rv((b - a) / l)])
            elif isinstance(c, art3d.Poly3DCollection):
                P = np.asarray(c._vec)[:3].T; mid = (P.max(0) + P.min(0)) / 2
                D = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, -1, 0], [1, 0, 1], [1, 0, -1], [0, 1, 1], [0, 1, -1]], dtype=float)
                u = P @ D.T; ext = (u.max(0) - u.min(0)) / 2; mid = np.linalg.lstsq(D, (u.max(0) + u.min(0)) / 2, rcond=None)[0]
                rg.append([main_colour(c), rv(mid), rv(ext)])
            elif isinstance(c, mc.PathCollection):
                P = np.asarray(c.get_offsets(), dtype=float)
                for h, p in zip(hexes(c.get_facecolor(), len(P)), P): mk.append([h, rv(p)])
        for l in R.lines:
            if id(l) in before: continue
            D = np.array([np.asarray(x, dtype=float) for x in (l.get_data_3d() if n3 else l.get_data())])
            if D.shape[1] == 0: continue
            h = to_hex(l.get_color())
            if l.get_linestyle() in ('None', '', ' '):
                for p in D.T: mk.append([h, rv(p)])
            else:
                for a, b in zip(D.T[:-1], D.T[1:]):
                    if not (np.isnan(a).any() or np.isnan(b).any()): ln.append([h, l.get_linestyle(), rv(a), rv(b)])
        for p in R.patches:
            if id(p) in before: continue
            h = to_hex(p.get_facecolor()[:3])
            if isinstance(p, mp.Ellipse):
                t = np.radians(p.angle); Q = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]); a, b = p.width / 2, p.height / 2
                rg.append([h, rv(np.array(p.get_center(), dtype=float)), [rv(x) for x in Q @ np.diag([a * a, b * b]) @ Q.T]])
            elif isinstance(p, mp.FancyArrow): d = np.array([p._dx, p._dy]); ar.append([h, rv(np.array([p._x, p._y], dtype=float)), rv(d / np.linalg.norm(d))])
        if given == 2 and not all(a in list(R.collections) + list(R.lines) for a in keep): raise RuntimeError('what was on the axes is gone')
        lim = [R.get_xlim(), R.get_ylim()] + ([R.get_zlim()] if n3 else []); o['lim'] = [rv(np.array(sorted(x), dtype=float)) for x in lim]
        o['asp'] = str(R.get_aspect()); o['leg'] = [x.get_text() for x in R.get_legend().get_texts()] if R.get_legend() else []
        o['lab'] = [R.get_xlabel(), R.get_ylabel()] + ([R.get_zlabel()] if n3 else [])
        o['mk'], o['sg'], o['ar'], o['rg'] = mk, ln, ar, rg; o['covs'] = []
        if cov:
            for v in vs: P, ok = O.estimate_covariance(v); o['covs'].append(dict(s=w.vs(v), valid=int(ok), p=shaped(P)))
        a, b = g.get_all_variables(), g.get_all_factors(); o['same'] = int(len(a) == len(vs) and len(b) == len(fs) and all(x is y for x, y in zip(a, vs)) and all(x is y for x, y in zip(b, fs)))
    finally: plt.close('all')
def main_colour(c):
    """a shaded surface: the shades differ in brightness only"""
    f = np.asarray(c._facecolor3d if len(np.shape(c._facecolor3d)) else c.get_facecolor())[:, :3]; m = f[f.sum(1).argmax()]; m = m / m.max() if m.max() > 0 else m
    best = min((('#008000', (0, 1, 0)), ('#0000ff', (0, 0, 1)), ('#ff0000', (1, 0, 0)), ('#00ffff', (0, 1, 1))), key=lambda q: sum((x - y) ** 2 for x, y in zip(q[1], m)))
    return best[0] if sum((x - y) ** 2 for x, y in zip(best[1], m)) < 0.05 else 'other'

# ---- PYLIFE=1: the same script by a program that keeps no handle longer than it must, and keeps arrays instead (P30)
LIFE = bool(os.environ.get('PYLIFE'))
ARRAYS = dict(PoseVariable=['value', 'pos_W', 'rot_CW', 'dcm_CW'], LandmarkVariable=['value', 'pos_W'], GenericVariable=['value'], RotationVariable=['value', 'dcm_AB', 'rotation'],
              InverseRangeVariable=['value', 'pos_W', 'origin_pos_W', 'bearing_W'], PlaneVariable=['value', 'unit_vector'], Pose2DVariable=['value', 'pos_2d', 'dcm_2d'])
def churn():
    j = [fa.GenericVariable(99, np.full(k, 777.0)) for k in (1, 2, 3, 4, 6) for _ in range(3)] + [fa.PoseVariable(97, np.full(6, 0.25)), fa.LandmarkVariable(97, np.full(3, 55.0)), fa.PlaneVariable(97, A([0.0, 0.0, 1.0]), 7.0)]
    j += [fa.GenericPriorFactor(98, j[0], np.full(1, 555.0)), fa.GenericBetweenFactor(98, j[0], j[1], j[2])] + [np.full(k, 333.0) for k in (1, 2, 3, 6, 7, 9, 12)]
    return j
def life(w, t, r):
    op = t[0]
    def renew(ss, get):         # drop the handles, then have them again from what refers to the objects
        for s in ss: w.v.pop(s, None)
        gc.collect(); j = churn(); new = get(); del j; return new
    if op == 'fac' and r.random() < 0.7:
        f = w.f[int(t[1])]; ss = [w.vs(x) for x in f.variables()]
        if all(s >= 0 for s in ss):
            for s, v in zip(ss, renew(ss, f.variables)): w.v[s] = v
    elif op == 'addv' and r.random() < 0.5:
        s, g = int(t[2]), w.g[int(t[1])]; id = w.v[s].id()
        if g.get_variable(id) is w.v[s]: w.v[s] = renew([s], lambda: g.get_variable(id))
    elif op == 'addf' and r.random() < 0.5:
        f, g = int(t[2]), w.g[int(t[1])]; fs = g.get_all_factors()
        if fs[-1] is w.f[f]: del fs, w.f[f]; gc.collect(); j = churn(); w.f[f] = g.get_all_factors()[-1]
    if r.random() < 0.5 and w.v:            # keep an array, not the variable
        s = r.choice(sorted(w.v)); v = w.v[s]
        for m in ARRAYS[type(v).__name__]:
            a = getattr(v, m)(); w.hold.append([s, m, rv(a), a])
        w.now[s] = {m: rv(getattr(v, m)()) for m in ARRAYS[type(v).__name__]}
    if len(w.hold) > 40: del w.hold[:len(w.hold) - 40]
def held(w):
    for s, v in w.v.items(): w.now[s] = {m: rv(getattr(v, m)()) for m in ARRAYS[type(v).__name__]}
    j = churn() if LIFE else None
    return [[m, then, w.now[s].get(m, then), rv(a)] for s, m, then, a in w.hold]

def episode(lines, ep, fd):
    w = World(); w.hold = []; w.now = {}
    for n, l in enumerate(lines):
        if not l or l[0] == '#': continue
        t = l.split(); o = dict(ep=ep, ln=n + 1, op=t[0]); r = random.Random('%d/%s' % (n, l))
        try: step(w, t[0], In(t[1:]), o, r); o['ok'] = 1
        except Exception as e: o['ok'] = 0; o['err'] = str(e)[:200]; o['exc'] = type(e).__name__
        if LIFE:
            if t[0] in ('var', 'drop', 'clone'):        # slots are reused: an array belongs to the variable it came from
                x = int(t[2 if t[0] == 'clone' else 1]); w.hold = [[None if h[0] == x else h[0]] + h[1:] for h in w.hold]
                for h in w.hold:
                    if h[0] is None: h[0] = len(w.now) + 10**6; w.now[h[0]] = w.now.get(x, {})
            if o['ok']:
                try: life(w, t, r)
                except Exception as e: o['ok'] = 0; o['err'] = 'keeping arrays: ' + str(e)[:200]
        ch = []
        for s, v in w.v.items():
            try: q = vrec(v)
            except Exception as e: o['ok'] = 0; o['err'] = 'reading a variable: ' + str(e)[:200]; continue
            if w.last.get(s) != q: w.last[s] = q; ch.append(dict(s=s, **q))
        o['ch'] = ch
        if LIFE:
            try: o['hold'] = held(w)
            except Exception as e: o['ok'] = 0; o['err'] = 'reading an array: ' + str(e)[:200]
        os.write(fd, (json.dumps(o, separators=(',', ':')) + '\n').encode())
    end = dict(ep=ep, op='end', ok=1, ch=[])
    if LIFE:
        w.o.clear(); gc.collect(); w.g.clear(); gc.collect(); w.v.clear(); w.f.clear(); w.og.clear(); gc.collect(); end['hold'] = held(w)
    os.write(fd, (json.dumps(end) + '\n').encode())

def main():
    script, out = sys.argv[1:3]; tmo = int(sys.argv[3]) if len(sys.argv) > 3 else 20
    lines = open(script).read().split('\n'); starts = [i for i, l in enumerate(lines) if l.startswith('ep ')] + [len(lines)]
    fd = os.open(out, os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_APPEND, 0o644)
    for a, b in zip(starts, starts[1:]):
        ep = int(lines[a].split()[1]); sys.stdout.flush(); p = os.fork()
        if p == 0:
            signal.alarm(tmo); null = os.open('/dev/null', os.O_WRONLY); os.dup2(null, 1)
            if not os.environ.get('DRIVER_STDERR'): os.dup2(null, 2)
            try: episode(lines[a + 1:b], ep, fd)
            except BaseException as e: os.write(fd, (json.dumps(dict(ep=ep, op='harness', ok=0, err=repr(e)[:300], ch=[])) + '\n').encode()); os._exit(97)
            os._exit(0)
        st = os.waitpid(p, 0)[1]
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 97: sys.stderr.write('pydriver: harness error in episode %d\n' % ep); os._exit(97)
        if st: os.write(fd, (json.dumps(dict(ep=ep, op='crash', ok=0, sig=os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st), ch=[])) + '\n').encode())
    os._exit(0)
if __name__ == '__main__': main()
