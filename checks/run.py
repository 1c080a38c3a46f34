#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] [--replay FILE]: the check of one property (see DESIGN.md)."""
import hashlib, json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, engine
sys.path.insert(0, os.path.join(build.VERIF, 'gen'))
from plans import PLANS

VERIF = build.VERIF

def known_findings():
    """known: property=<id> <text>   -- text as the specification prints it"""
    out = []
    for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS')):
        l = l.strip()
        if l.startswith('known: property='): p, _, t = l[len('known: property='):].partition(' '); out.append((p, t))
    return out

def write_replay(prop, script, name, text):
    d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s-%s.txt' % (prop, hashlib.sha256('\n'.join(script).encode()).hexdigest()[:10]))
    with open(f, 'w') as o:
        o.write('# property %s: %s\n# episode %s\n# replay: python3 checks/run.py %s --replay %s\n' % (prop, text, name, prop, os.path.relpath(f, VERIF)))
        o.write('\n'.join(script) + '\n')
    return f

def trim(lines, n=40, w=160):
    return [l[:w] + ('…' if len(l) > w else '') for l in lines[:n]] + (['… %d more lines' % (len(lines) - n)] if len(lines) > n else [])

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'): tier = sys.argv[2]
    if '--replay' in sys.argv:
        lines = [l.rstrip('\n') for l in open(sys.argv[sys.argv.index('--replay') + 1])]
        while lines and lines[0].startswith('# '): lines.pop(0)
        for p, _, _, op, text in (PLANS[prop].get('replay') or engine.confirm)(lines): print(p, op, text)
        return 0
    t0 = time.time(); P = PLANS[prop]
    cov = {}; violations = []; known = {}
    # 1. model checking and the other parts of the check; each may bring traces (tot) of its own
    runs = []; kf = known_findings()
    for part in P.get('parts', ()):
        tot, c = part(prop, tier, seed)
        for a, b in c.items(): cov[a] = cov[a] + b if a in cov and isinstance(b, (int, list)) and not isinstance(b, bool) else b
        if tot: runs.append(('std', tot))
    # 2. conformance of generated episodes: traces of the real library against the specification
    if P.get('trace'):
        scale = 1 if tier == 'quick' else P.get('deep', 15)
        plans = [(m, f, tuple(a), int(n * scale)) for m, f, a, n in P['trace']]
        flavours = [('std', plans, seed)]
        if tier == 'thorough': flavours.append(('asan', [(m, f, a, max(8, n // 10)) for m, f, a, n in plans], seed + 1000))
        for flavour, pl, sd in flavours: runs.append((flavour, engine.run_plan(pl, sd, flavour)))
    # 3. the failures that are this property's, confirmed by running the episode again on its own
    for flavour, tot in runs:
        confirm = tot.get('confirm') or (lambda s: engine.confirm(s, flavour))
        seen = set()
        for p, script, name, op, text in tot['fails']:
            if p == 'KNOWN':
                q, _, t = text.partition(' ')
                if q != prop: continue
                if (q, t) in kf: known[t] = known.get(t, 0) + 1; continue
                p = q; text = t
            if p not in (prop, 'CRASH', 'SPEC'): continue
            key = (p, op, ''.join(c for c in text if not c.isdigit())[:60])
            if key in seen and len(seen) < 6: continue
            seen.add(key)
            if len(violations) >= 5: continue
            again = confirm(script)
            if any(q[0] == p or (q[0] == 'KNOWN' and q[4].startswith(p)) for q in again): violations.append((write_replay(prop, script, name, text), '%s: %s [%s]' % (op, text, name)))
            else: print('note: not reproduced: %s %s %s' % (p, op, text))
    # evidence
    if runs:
        ops = set(P.get('ops', ())); hs = {}
        for _, tot in runs:
            for h, o in tot['hashes']: hs[h] = o
        nontriv = sum(1 for o in hs.values() if not ops or ops & set(o))
        cov['traces_validated_against_impl'] = cov.get('traces_validated_against_impl', 0) + sum(t['episodes'] for _, t in runs)
        cov['evaluations'] = cov.get('evaluations', 0) + sum(n for _, t in runs for o, n in t['ops'].items() if not ops or o in ops)
        cov['distinct_nontrivial'] = cov.get('distinct_nontrivial', 0) + nontriv
        cov['trace_records'] = sum(t['lines'] for _, t in runs)
        cov['operations'] = {o: sum(t['ops'].get(o, 0) for _, t in runs) for o in sorted({o for _, t in runs for o in t['ops']})}
        inf = {}
        for _, t in runs:
            for a, b in t['infos'].items(): inf[a] = inf.get(a, 0) + b
        if inf: cov['judged'] = inf
        cov.setdefault('rule', 'an evaluation is one recorded call (of: %s) judged by the specification; a case is an episode, made by the generators %s from VERIF_SEED; it is non-trivial if it contains such a call; distinct: by its script'
                       % (', '.join(sorted(ops)) or 'all operations', ', '.join(sorted({'%s.%s%s' % (m, f, tuple(a) or '') for m, f, a, _ in P.get('trace', ())} or {P.get('gens', '')})) + (' and by the behaviours of the models' if 'models' in cov else '')))
        if P['level'] == 'model_checking' and 'states' not in cov:
            cov['states'] = cov['trace_records'] + 1; cov['transitions'] = cov['trace_records']
        cov['samples'] = cov.get('samples', []) + [{'episode': n, 'script': trim(s)} for _, t in runs for n, s in t['samples'][:1]]
        if not violations and (cov['evaluations'] == 0 or nontriv == 0): raise engine.CheckError('vacuous: nothing was judged')
        for k, least in P.get('need', {}).items():
            if not violations and inf.get(k, 0) < least: raise engine.CheckError('vacuous: "%s" judged only %d times' % (k, inf.get(k, 0)))
    ev = dict(property=prop, tier=tier, seed=seed, level=P['level'], coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(violations))
    if P.get('assume'): ev['assumptions'] = P['assume']
    if known: ev['coverage']['known_findings'] = known
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for t, n in sorted(known.items()): print('KNOWN-FINDING: property=%s %s (%d times)' % (prop, t, n))
    for f, text in violations: print('  ' + text); print('VIOLATION property=%s replay=%s' % (prop, f))
    print('%s %s: %s, %.1f s' % (prop, tier, 'VIOLATED' if violations else 'held', time.time() - t0))
    return 1 if violations else 0

if __name__ == '__main__':
    try: sys.exit(main())
    except build.BuildError as e: print('build failed: %s' % e, file=sys.stderr); sys.exit(2)
    except engine.CheckError as e: print('check failed: %s' % e, file=sys.stderr); sys.exit(2)
    except Exception: import traceback; traceback.print_exc(); sys.exit(2)
