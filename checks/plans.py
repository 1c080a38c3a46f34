"""What each check runs.  trace: (module, generator, arguments, number of episodes in the quick tier); ops: the operations its
clauses are evaluated on (for the evidence); need: least number of judgements of a kind, below which the check calls itself
vacuous instead of answering; deep: factor of the thorough tier."""
import mc, g_mc, pycheck, pylifecheck, plotcheck
GRAPH = mc.model('MCGraph', g_mc.graph, dict(MaxParts=3, Full='FALSE'), dict(MaxParts=4, Full='TRUE'),
                 ['UniqueIds', 'LookupExact', 'LayoutTight', 'FinalizedIsSound', 'CachesFollow'],
                 ['OnlyAppends', 'StructureDropsAll', 'RefusedChangesNothing', 'RevMonotone'])
LIFE = mc.model('MCLife', g_mc.life, {'MaxGrow': 2, 'Opts': '{0, 1}'}, {'MaxGrow': 3, 'Opts': '{0, 1, 2}'}, ['ServableMeansPrepared', 'PreparedIsServable'], ['Independent'], maxlen=30, rounds=6)
OPT = mc.model('MCOpt', g_mc.opt, {'K': 3, 'C': 3, 'Rungs': '<-SomeRungs'}, {'K': 4, 'C': 3, 'Rungs': '<-SomeRungs'},
               ['TypeOK', 'ValidIffNotFailed', 'NaNNeverValid', 'LMNeverRaises', 'DampingBounded', 'DivergedIsTrue'], ['LMStepsLower', 'Terminates'], maxlen=12, states=True, view=None, rounds=2)
WATCH = mc.model('MCWatch', g_mc.watch, {'N': 4}, {'N': 7}, ['ElapsedIsRunningTime', 'RunningIsStarted'], ['OnlyResetLowers'], maxlen=25, rounds=2)
CLONE = mc.model('MCClone', g_mc.clone, {'Slots': '{0, 1, 2}', 'Depth': 1}, {'Slots': '{0, 1, 2}', 'Depth': 2}, ['OwnHistory'], ['Independence'], maxlen=20)
PYALL, PYLESS = '{"V", "R", "J", "L", "E", "W", "S", "T", "C", "N"}', '{"A", "K", "F", "G", "O"}'
LIVE = [mc.model('MCPyLife', g_mc.pylife(*dr), {'MaxDerived': n, 'DerivedUsed': PYALL, 'BaseUsed': base}, None, ['TypeOK', 'Definite'], ['DropInvisible', 'CopiesKeep'], maxlen=ml, run=pylifecheck.run)
        for dr, base, n, ml in (((('H',), PYLESS, 1, 40)), ((), '{"A", "K", "F", "G", "H", "O"}', 1, 40))]
PYLIFE = lambda prop, tier, seed: LIVE[tier == 'thorough'](prop, tier, seed)
L = lambda p, n: ('g_graph', 'ep_life', (p,), n)
COMP = ['resid', 'jac', 'sjac', 'both', 'acc']
FK = {'P10': ['bear', 'irb', 'bp2'], 'P11': ['b2', 'rb2', 'p2p', 'p2b'], 'P12': ['gp', 'gb', 'lv', 'ppp', 'ppb'], 'P13': ['pop', 'pob', 'rp', 'ct'], 'P14': ['pl', 'plp']}
fac = lambda p, n: [('g_vars', 'ep_factor', (k,), n) for k in FK[p]]
RUNS = ['run']
PYKEEP = pycheck.part([('g_py', 'ep_vars', (), 500), ('g_py', 'ep_facs', (), 800), ('g_py', 'ep_life', (), 200), ('g_py', 'ep_opt', (), 200)], life=True)
confirm_P30 = lambda script: pylifecheck.confirm(script) if script[0].startswith('new ') else pycheck.confirm(script, True)
PY = pycheck.part([('g_py', 'ep_vars', (), 1500), ('g_py', 'ep_facs', (), 2000), ('g_py', 'ep_life', (), 1000), ('g_py', 'ep_opt', (), 1200), ('g_py', 'ep_covlife', (), 500)])

PLOT = mc.model('MCPlot', g_mc.plot, dict(Items='{"pose", "poseB", "lm", "pose2", "pt2"}'), dict(Items='{"pose", "poseB", "lm", "pose2", "pose2B", "pt2", "other"}'), ['MarkersAlways', 'LinesNeedTheirOption', 'RegionsAtMarkers'], ['GrowOnly', 'OptionsApart'], maxlen=30, run=plotcheck.run)
PLOTS = plotcheck.part([('g_py', 'ep_plot', (), 1000)])

PLANS = {
    'P01': dict(level='model_checking', parts=[GRAPH], trace=[L('P01', 2400)], ops=['addv', 'addf', 'getv', 'lists']),
    'P02': dict(level='model_checking', parts=[GRAPH], trace=[L('P02', 2400)], ops=['fin', 'lay', 'lists']),
    'P03': dict(level='model_checking', parts=[GRAPH], trace=[L('P03', 1600), L('P05', 800)], ops=COMP + ['flags', 'getx', 'setx', 'incx', 'fin']),
    'P04': dict(level='model_checking', parts=[GRAPH], trace=[L('P04', 2000)], ops=['resid', 'both', 'acc']),
    'P05': dict(level='model_checking', parts=[GRAPH], trace=[L('P05', 2000)], ops=['jac', 'sjac', 'both', 'acc']),
    'P06': dict(level='model_checking', parts=[GRAPH], trace=[L('P06', 2000)], ops=['getx', 'setx', 'incx']),
    'P07': dict(level='exploration', trace=[('g_vars', 'ep_var', (), 20000)], ops=['var', 'vset', 'vinc', 'vm', 'setc']),
    'P08': dict(level='exploration', trace=[('g_vars', 'ep_so3', (), 24000)], ops=['exp', 'log', 'explog', 'skew', 'unskew', 'ijac']),
    'P09': dict(level='model_checking', parts=[CLONE], trace=[('g_vars', 'ep_clone', (), 12000)], ops=['clone', 'note', 'vset', 'vinc', 'vm']),
    **{p: dict(level='exploration', trace=fac(p, 20000 // len(FK[p])), ops=['fres']) for p in FK},
    'P15': dict(level='exploration', trace=[('g_vars', 'ep_deriv', (), 15000)], ops=['fd']),
    'P16': dict(level='exploration', trace=[('g_vars', 'ep_pure', (), 12000), L('P04', 300)], ops=['fres', 'fjac', 'resid', 'both', 'jac', 'sjac']),
    'P17': dict(level='model_checking', parts=[OPT], trace=[('g_opt', 'ep_gn', (), 4000)], ops=RUNS, need={'GN step': 500, 'GN singular step': 10}),
    'P18': dict(level='model_checking', parts=[OPT], trace=[('g_opt', 'ep_lm', (), 4000)], ops=RUNS, need={'LM accepts trial 1': 500, 'LM accepts trial 2': 10, 'LM accepts trial 3': 5, 'LM no step': 30}),
    'P19': dict(level='model_checking', parts=[OPT], trace=[('g_opt', 'ep_lm', (), 4000)], ops=RUNS, need={'LM accepts trial 1': 500, 'LM accepts trial 2': 10, 'LM accepts trial 3': 5, 'LM no step': 30}),
    'P20': dict(level='model_checking', parts=[OPT], trace=[('g_opt', 'ep_stop', (), 4000)], ops=RUNS, need={'run stops': 200, 'long run stops': 100}),
    'P21': dict(level='model_checking', trace=[('g_opt', 'ep_reuse', (), 2000), ('g_opt', 'ep_stop', (), 1000)], ops=RUNS, need={'run repeated': 500, 'relation': 50}),
    'P22': dict(level='model_checking', parts=[OPT], trace=[('g_opt', 'ep_bad', (), 5000)], ops=RUNS, need={'step from a non-finite state': 20, 'step from a state where a factor throws': 20, 'LM trial throws': 5}),
    'P23': dict(level='exploration', trace=[('g_opt', 'ep_rel', (), 4000), ('g_opt', 'ep_const', (), 2000), ('g_opt', 'ep_lm', (), 200)], ops=['note', 'run', 'cov'], need={'relation': 500}),
    'P24': dict(level='exploration', trace=[('g_opt', 'ep_cov', (), 7000), ('g_opt', 'ep_rel', (), 500)], ops=['cov'], need={'covariance, good system': 500}),
    'P25': dict(level='model_checking', parts=[LIFE], trace=[('g_opt', 'ep_covlife', (), 5000), ('g_opt', 'ep_cov', (), 1000)], ops=['cov', 'prep', 'pcov'], need={'covariance, good system': 300, 'covariance that must be invalid': 500}),
    'P26': dict(level='exploration', trace=[('g_vars', 'ep_deriv', (True,), 8000), ('g_graph', 'ep_ftest', (), 5000)], ops=['numj', 'ftest']),
    'P27': dict(level='exploration', trace=[('g_vars', 'ep_huber', (), 15000)], ops=['huber']),
    'P28': dict(level='model_checking', parts=[WATCH], trace=[('g_vars', 'ep_watch', (), 2000)], ops=['sw']),
    'P29': dict(level='exploration', parts=[PY], replay=pycheck.confirm, gens='g_py', need={'arguments left out': 1000, 'arguments by keyword': 1000, 'errors in both': 1000}),
    'P30': dict(level='model_checking', parts=[PYLIFE, PYKEEP], replay=confirm_P30, gens='MCPyLife, g_py'),
    'P31': dict(level='model_checking', parts=[PLOT, PLOTS], replay=plotcheck.confirm, gens='MCPlot, g_py.ep_plot',
                need={**{'mark ' + k: 300 for k in ('pose', 'lm', 'pose2', 'pt2')}, **{'region ' + k: 100 for k in ('pose', 'lm', 'pose2', 'pt2')}, **{'line ' + k: 50 for k in ('bear', 'bp2', 'b2', 'rb2', 'p2b', 'ppb', 'pob', 'gb')}, 'arrow pose': 200, 'arrow pose2': 200}),
    'P32': dict(level='exploration', trace=[('g_graph', 'ep_print', (), 2500), ('g_vars', 'ep_show', (), 4000), ('g_opt', 'ep_report', (), 800)], ops=['print', 'pvars', 'pjac', 'vprint', 'pcov', 'run'],
                need={'verbose run': 300, 'printed covariance': 100, 'print of a Jacobian of full rank': 300, 'print of a Jacobian with zero columns': 50, 'print of an empty Jacobian': 10}),
    'P33': dict(level='exploration', trace=[('g_vars', 'ep_self', (), 8000)], ops=['fac', 'facq']),
}
