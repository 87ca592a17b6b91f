#!/opt/veriftools/pyvenv/bin/python
"""Decides one property: `check.py ID [--tier quick|thorough]`.

exit 0  every obligation of every task was discharged by the solver
exit 1  a counterexample was found and reproduced on the unmodified code
exit 2  inconclusive (solver gave up, bound hit, or not reproducible)
"""
import argparse
import json
import math
import multiprocessing as mp
import os
import subprocess
import sys
import time
from fractions import Fraction

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
GRACE = float(os.environ.get('VERIF_GRACE', '20'))
REPO = os.environ.get('VERIF_REPO', '/repo')
REPLAY_PY = os.environ.get('VERIF_REPLAY_PY', '/opt/venv/bin/python')
SITE = '/opt/venv/lib/python3.12/site-packages'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           PYTHONNOUSERSITE='1')


def replay_batch(cases, timeout=240):
    """Runs the cases in a fresh interpreter on the unmodified code."""
    if not cases:
        return []
    p = subprocess.run(
        [REPLAY_PY, os.path.join(HERE, 'symx', 'replay.py')],
        input=json.dumps(cases), capture_output=True, text=True,
        timeout=timeout, env=ENV, cwd=HERE)
    if p.returncode != 0:
        raise RuntimeError('replay failed: ' + p.stderr[-2000:])
    return json.loads(p.stdout)


def work(job):
    """One task in a worker process."""
    modname, fnname, config, opts = job
    import importlib
    import z3
    from symx import sym
    try:
        z3.set_param('smt.random_seed', opts['seed'])
        mod = importlib.import_module('harness.' + modname)
        sym.install_shims()
        fn = getattr(mod, fnname)
        kw = dict(max_paths=opts['max_paths'], time_limit=opts['time_limit'],
                  samples=opts['samples'],
                  solver_timeout_ms=opts['solver_timeout_ms'])
        kw.update(getattr(fn, 'opts', {}))
        run = sym.Run(fn, config, **kw)
        run.go()
        r = run.result()
    except BaseException as e:
        import traceback
        return dict(task=(modname, fnname, config),
                    crash=traceback.format_exc()[-3000:])
    r['task'] = (modname, fnname, config)
    base = dict(module=modname, fn=fnname, config=config)
    # replay the candidates
    r['violations'] = []
    r['unreproduced'] = []
    for c in r['candidates']:
        cases = [dict(base, inputs=m, mode=mode)
                 for m in c['models'] for mode in ('float', 'exact')]
        try:
            outs = replay_batch(cases)
        except Exception as e:
            if not c.get('guess'):
                r['unreproduced'].append([c['label'], 'replay error: %s' % e])
            continue
        hit = None
        for case, out in zip(cases, outs):
            if not out['assume_failed'] and c['label'] in [
                    f[0] for f in out['failures']]:
                hit = (case, out, c['label'])
                break
        if hit is None:
            # another assertion may fail instead: in both number systems
            for i in range(0, len(outs) - 1, 2):
                both = set.intersection(*[
                    set() if o['assume_failed'] else
                    set(f[0] for f in o['failures'])
                    for o in outs[i:i + 2]])
                if both:
                    hit = (cases[i], outs[i], min(both))
                    break
        if hit:
            r['violations'].append(dict(hit[0], outcome=hit[1],
                                        label=hit[2]))
        elif not c.get('guess'):
            r['unreproduced'].append(
                [c['label'], c.get('traceback', ''), c['models'][:1],
                 [o.get('broken') for o in outs if o.get('broken')][:1]])
    del r['candidates']
    # validate the proxies against concrete runs of the same paths
    r['validated'] = 0
    r['mismatch'] = []
    if r['witnesses']:
        cases, meta = [], []
        for w in r['witnesses']:
            for mode in ('float', 'exact'):
                cases.append(dict(base, inputs=w['inputs'], mode=mode))
        try:
            outs = replay_batch(cases)
        except Exception as e:
            r['mismatch'].append('replay error: %s' % e)
            outs = []
        for i, w in enumerate(r['witnesses']):
            pair = outs[2 * i:2 * i + 2]
            if not pair:
                continue
            errs = [compare(w['obs'], o) for o in pair]
            if any(e is None for e in errs):
                r['validated'] += 1
            elif all(o['assume_failed'] and not o.get('broken')
                     for o in pair):
                # a borderline witness whose abstracted powers are irrational
                r['borderline'] = r.get('borderline', 0) + 1
            else:
                r['mismatch'].append([w['inputs'], errs[0]])
        # a concrete run of a path witness may itself fail a check
        # (in both number systems: rounding alone is not a violation)
        for i in range(len(outs) // 2):
            pair = outs[2 * i:2 * i + 2]
            labels = [set(f[0] for f in o['failures']) for o in pair
                      if not o['assume_failed']]
            both = set.intersection(*labels) if len(labels) == 2 else set()
            if both:
                r.setdefault('witness_failures', []).append(
                    dict(cases[2 * i], outcome=pair[0], label=min(both)))
    r['n_witnesses'] = len(r['witnesses'])
    r['witnesses'] = r['witnesses'][:2]
    return r


def num(v):
    if isinstance(v, str) and '/' in v:
        return float(Fraction(v))
    if isinstance(v, bool):
        return v
    try:
        return float(v)
    except (TypeError, ValueError):
        return v


def compare(obs, out):
    """None if a concrete run agrees with the symbolic one."""
    if out.get('broken'):
        return 'broken: ' + out['broken']
    if out['assume_failed']:
        return 'assumption failed concretely'
    if not obs:
        return None
    got = out['observed']
    if [n for n, _ in got] != [n for n, _ in obs]:
        return 'different observations: %s / %s' % (
            [n for n, _ in obs][:8], [n for n, _ in got][:8])
    for (n, a), (_, b) in zip(obs, got):
        if a is None or b is None:
            continue
        a, b = num(a), num(b)
        if isinstance(a, float) and isinstance(b, float):
            if a == b or abs(a - b) <= 1e-6 * max(1, abs(a)) + 1e-4:
                continue
            return '%s: %r != %r' % (n, a, b)
        if a != b and not (isinstance(a, (bool, float)) and
                           isinstance(b, (bool, float)) and
                           float(a) == float(b)):
            return '%s: %r != %r' % (n, a, b)
    return None


def load_known():
    """Lines `finding: property=ID harness=FN label=LABEL_WITH_UNDERSCORES
    text`; lines `fixed: ...` suppress nothing."""
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = {}
                body = line[len('finding:'):].strip()
                for tok in body.split(' '):
                    if '=' in tok and tok.split('=')[0] in (
                            'property', 'harness', 'label'):
                        k, v = tok.split('=', 1)
                        d[k] = v
                d['text'] = body
                res.append(d)
    return res


def known_finding(known, v):
    """The listed finding that is this violation, or None."""
    return next((k for k in known if k.get('harness') == v['fn']
                 and k.get('label') == v['label'].replace(' ', '_')), None)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', help='only harnesses whose name contains this')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ.update(PYTHONDONTWRITEBYTECODE='1')
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.path[:0] = [HERE, REPO]
    sys.path.append(SITE)
    t0 = time.time()
    pid = args.property
    import importlib
    import warnings
    warnings.simplefilter('ignore')
    mod = importlib.import_module('harness.' + pid)
    tasks = [(fn, cfg) for fn, cfg in mod.tasks(tier)
             if not args.only or args.only in fn.__name__]
    opts = dict(
        seed=seed, max_paths=60000 if tier == 'thorough' else 20000,
        time_limit=2400 if tier == 'thorough' else 420,
        samples=12 if tier == 'thorough' else 6,
        solver_timeout_ms=60000 if tier == 'thorough' else 20000)
    budget = 14000 if tier == 'thorough' else 780
    jobs = [(pid, fn.__name__, cfg, opts) for fn, cfg in tasks]
    results = []
    skipped = []
    known = [k for k in load_known() if k.get('property') == pid]
    with mp.get_context('fork').Pool(min(args.jobs, max(1, len(jobs))),
                                     maxtasksperchild=1) as pool:
        it = pool.imap_unordered(work, jobs, chunksize=1)
        while True:
            try:
                r = it.next(timeout=max(1, t0 + budget - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                seen = [r['task'] for r in results]
                skipped = [j[:3] for j in jobs if tuple(j[:3]) not in seen]
                pool.terminate()
                break
            results.append(r)
            if any(known_finding(known, v) is None for v in
                   r.get('violations', []) + r.get('witness_failures', [])):
                # a confirmed violation: let what is nearly done finish
                budget = min(budget, time.time() - t0 + GRACE)
            if args.v:
                if 'crash' in r:
                    print('CRASH', r['task'], r['crash'])
                else:
                    print('%-28s %-40s paths=%-5d q=%-6d obl=%-5d solver=%.1fs '
                          'wall=%.1fs val=%d%s%s%s%s%s' % (
                              r['task'][1], json.dumps(r['task'][2])[:40],
                              r['stats']['paths'], r['stats']['queries'],
                              r['stats']['obligations'],
                              r['stats']['solver_s'], r['wall'],
                              r['validated'],
                              ' ERR=' + r['error'] if r['error'] else '',
                              ' VIOL=%s' % sorted(set(
                                  v['label'] for v in r['violations']))
                              if r['violations'] else '',
                              ' UNREP=%s' % r['unreproduced'][:2]
                              if r['unreproduced'] else '',
                              ' UNK=%s' % r['unknowns'][:3]
                              if r['unknowns'] else '',
                              ' MISM=%s' % r['mismatch'][:1]
                              if r['mismatch'] else ''), flush=True)
    return finish(pid, tier, seed, mod, results, t0, skipped)


def finish(pid, tier, seed, mod, results, t0, skipped=()):
    crashes = [r for r in results if 'crash' in r]
    ok = [r for r in results if 'crash' not in r]
    viol, inconc, known_hits = [], [], {}
    gaps = ['%s%s: not finished within the time budget' % (
        j[1], json.dumps(j[2])) for j in skipped]
    known = [k for k in load_known() if k.get('property') == pid]
    for r in ok:
        allv = r['violations'] + r.get('witness_failures', [])
        for v in allv:
            k = known_finding(known, v)
            if k is not None:
                known_hits[k['text']] = k
            else:
                viol.append(v)
        name = '%s%s' % (r['task'][1], json.dumps(r['task'][2]))
        if r['error']:
            (gaps if r['error'].startswith(('LimitExceeded', 'Unsupported'))
             else inconc
             ).append('%s: %s' % (name, r['error']))
        for u in r['unreproduced']:
            gaps.append('%s: counterexample to "%s" did not reproduce %s'
                          % (name, u[0], str(u[1:])[:900]))
        for u in sorted(set(r['unknowns'])):
            gaps.append('%s: solver gave up on "%s"' % (name, u))
        if not r['stats']['paths'] and not r['error']:
            inconc.append('%s: no feasible path (vacuous)' % name)
        if not r['reached'] and not r['error']:
            inconc.append('%s: no obligation reached (vacuous)' % name)
        if r['mismatch']:
            inconc.append('%s: %d of %d path witnesses disagree with the real '
                          'code: %s' % (name, len(r['mismatch']),
                                        r['n_witnesses'],
                                        str(r['mismatch'][0])[:600]))
    for r in crashes:
        inconc.append('%s crashed: %s' % (r['task'], r['crash'][-600:]))
    reached = {}
    for r in ok:
        for k, v in r['reached'].items():
            key = '%s/%s' % (r['task'][1], k)
            reached[key] = reached.get(key, 0) + v
    st = {}
    for r in ok:
        for k, v in r['stats'].items():
            st[k] = st.get(k, 0) + v
    functions = sorted(set(f for r in ok for f in r['functions']))
    samples = []
    for r in ok:
        for w in r['witnesses'][:1]:
            if len(samples) < 6:
                samples.append({'harness': r['task'][1],
                                'config': r['task'][2],
                                'path_witness': w['inputs']})
    nval = sum(r['validated'] for r in ok)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': st.get('paths', 0),
            'transitions': st.get('decisions', 0),
            'traces_validated_against_impl': nval,
            'samples': samples,
            'exhaustive': not inconc and not gaps,
            'explanation': (
                'states = feasible paths of the real code explored '
                'symbolically; transitions = symbolic branch decisions '
                'settled by the solver; every obligation on every path was '
                'decided by z3 for all input values on that path.'),
            'tasks': len(results),
            'obligations': st.get('obligations', 0),
            'discharged': st.get('discharged', 0),
            'solver_queries': st.get('queries', 0),
            'solver_seconds': round(st.get('solver_s', 0.0), 2),
            'solver_fallbacks': st.get('fallback', 0),
            'assertions_reached': reached,
            'functions_encoded': functions,
            'bounds': getattr(mod, 'BOUNDS', ''),
            'inconclusive': (inconc + gaps)[:20],
            'known_findings': sorted(known_hits),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %d tasks, %d paths, %d decisions, %d/%d obligations '
          'discharged, %d queries (%.1f s solver), %d path witnesses replayed,'
          ' %.1f s' % (
              pid, tier, len(results), st.get('paths', 0),
              st.get('decisions', 0), st.get('discharged', 0),
              st.get('obligations', 0), st.get('queries', 0),
              st.get('solver_s', 0.0), nval, time.time() - t0))
    for k in sorted(known_hits):
        print('KNOWN-FINDING: ' + k)
    if viol:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        seen = {}
        for v in viol:
            key = (v['fn'], v['label'])
            if key in seen:
                continue
            seen[key] = v
            if len(seen) > 10:
                break
            path = os.path.join(HERE, 'replays', '%s-%d.json' % (
                pid, len(seen)))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('  %s %s: %s' % (v['fn'], json.dumps(v['config']),
                                   v['outcome']['failures'][:2]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    for i in (inconc + gaps)[:20]:
        print('INCONCLUSIVE ' + i)
    # Budget limits and obligations the solver gave up on are not explored:
    # they are reported (here and in the evidence), but what was explored
    # held.  Anything that makes the run itself untrustworthy is an error.
    if inconc or not ok or st.get('discharged', 0) < 0.5 * st.get(
            'obligations', 0):
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
