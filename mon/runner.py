"""Runs one property's monitored workload over all cores and writes verdict and evidence."""
import argparse
import importlib
import json
import os
import pickle
import sys
import time
import traceback
import warnings

import numpy as np

from . import core
from .core import Ctx, Skip, Violation, CheckError, Coverage, new_stats, mine_literals, EVIDENCE, VERIF, REPO

WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line:
                    out.append(json.loads(line))
    return out


def prop_module(pid):
    return importlib.import_module('mon.props.' + pid.lower())


def run_case(mod, ctx):
    """-> None or a violation message."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            try:
                mod.case(ctx)
            except Skip:
                ctx.stats['skipped'] += 1
                return None
            except Violation as v:
                return str(v)
            except (CheckError, MemoryError, KeyboardInterrupt):
                raise
            except Exception as e:
                # the oracle met something it cannot interpret at all (a wrong type, shape or missing field)
                tb = traceback.extract_tb(e.__traceback__)[-1]
                return f'the outcome cannot be interpreted: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})'
    return None


def finish(ctx, st):
    st['evaluations'] += 1
    for t in ctx.tags:
        st['tags'][t] = st['tags'].get(t, 0) + 1
    return ctx.h.hexdigest()


def worker(pid, wid, nworkers, ncases, deadline, seed, tier, lits, path, stop):
    mod = prop_module(pid)
    cov = Coverage()
    cov.start()
    st = new_stats()
    res = {'violation': None, 'error': None}
    corpus = []
    files = getattr(mod, 'FILES', None)
    try:
        np.random.seed((seed * 7919 + wid) % (2 ** 32))
        if hasattr(mod, 'setup'):
            mod.setup(tier)
        pick = np.random.default_rng([seed, wid, 77])
        for i in range(wid, ncases, nworkers):
            if os.path.exists(stop):        # another worker saw a violation
                break
            if time.time() > deadline:
                st['events']['stopped by time cap'] = 1
                break
            genome = None
            if corpus and pick.random() < 0.3:      # mutate a case that reached new code
                g = list(corpus[int(pick.integers(len(corpus)))])
                for _ in range(int(pick.integers(1, 4))):
                    if g:
                        k = int(pick.integers(len(g)))
                        g[k] = float(pick.random())
                if pick.random() < 0.2 and g:
                    g = g[:int(pick.integers(1, len(g) + 1))]
                genome = g
                st['events']['cases mutated from the coverage corpus'] = \
                    st['events'].get('cases mutated from the coverage corpus', 0) + 1
            ctx = Ctx(genome, [seed, i], lits, tier, st)
            cov.new = False
            sk = st['skipped']
            msg = run_case(mod, ctx)
            sig = finish(ctx, st)
            if st['skipped'] == sk:
                st['sigs'].add(sig)
            if cov.new:
                corpus.append(ctx.used)
                corpus[:] = corpus[-64:]
            if len(st['samples']) < 2 and st['skipped'] == sk and ctx.tags and (i // nworkers) % 7 == 3:
                st['samples'].append({'case': i, 'scenario': ctx.tags[:6], 'observed': [f'{a}: {b}' for a, b in ctx.log[:6]]})
            if msg is not None:
                alone = Ctx(ctx.used, [seed, i], lits, tier, new_stats())
                alone.history = True
                try:
                    again = run_case(mod, alone)
                except Exception:
                    again = None
                res['violation'] = {'message': msg, 'genome': ctx.used, 'case': i, 'seed': seed, 'tags': ctx.tags,
                                    'trace': ctx.log[-12:], 'lits': lits, 'reproduced_again': again is not None}
                open(stop, 'w').close()
                break
        if res['violation'] is None and hasattr(mod, 'final'):
            try:
                mod.final(st)
            except Violation as v:
                res['violation'] = {'message': str(v), 'genome': [], 'case': -1, 'seed': seed, 'tags': ['aggregate'],
                                    'trace': [], 'lits': lits, 'reproduced_again': False}
    except BaseException:
        res['error'] = traceback.format_exc()
    st['sigs'] = list(st['sigs'])
    st['agg'] = mod.aggregate() if hasattr(mod, 'aggregate') else None
    res['stats'] = st
    res['corpus'] = len(corpus)
    res['cov'] = (cov.lines, {k: list(v) for k, v in cov.branches.items()}, {k: len(v) for k, v in cov.total.items()})
    with open(path, 'wb') as f:
        pickle.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--cap', type=float)
    a = ap.parse_args(argv)
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    pid = a.pid
    # dedicated import of the code under test from the working tree
    for m in ('scipy.signal', 'scipy.stats', 'scipy.optimize', 'scipy.interpolate', 'scipy.linalg',
              'sklearn.linear_model', 'sklearn.preprocessing'):
        importlib.import_module(m)
    # from here on bytecode goes to (and comes from) a fresh scratch directory: never a stale .pyc of the tree
    sys.pycache_prefix = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), f'pyc{os.getpid()}')
    sys.path.insert(0, REPO)
    import proadv
    got = os.path.realpath(os.path.dirname(proadv.__file__))
    if got != os.path.realpath(os.path.join(REPO, 'proadv')):
        print(f'error: proadv was imported from {got}', file=sys.stderr)
        return 2
    mod = prop_module(pid)
    lits = mine_literals()
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        ctx = Ctx(r['genome'], [r['seed'], r['case']], [tuple(x) for x in r['lits']], r.get('tier', tier), new_stats())
        if hasattr(mod, 'setup'):
            mod.setup(tier)
        msg = run_case(mod, ctx)
        for k, v in ctx.log:
            print(f'  {k}: {v}')
        if msg is None:
            print('replay: no violation')
            return 0
        print(f'replay: {msg}')
        print(f'VIOLATION property={pid} replay={a.replay}')
        return 1
    n = a.cases or mod.CASES[tier]
    cap = a.cap or (getattr(mod, 'CAP', {}).get(tier) or {'quick': 120, 'thorough': 780}[tier])
    os.makedirs(EVIDENCE, exist_ok=True)
    nw = max(1, min(WORKERS, n, getattr(mod, 'MAXWORKERS', WORKERS)))
    tmp = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), f'verif_{pid}_{os.getpid()}')
    pids = []
    sys.stdout.flush()
    for w in range(nw):
        p = os.fork()
        if p == 0:
            try:
                worker(pid, w, nw, n, t0 + cap, seed, tier, lits, f'{tmp}_{w}', tmp + '_stop')
            finally:
                os._exit(3)
        pids.append(p)
    for p in pids:
        os.waitpid(p, 0)
    if os.path.exists(tmp + '_stop'):
        os.unlink(tmp + '_stop')
    results = []
    for w in range(nw):
        try:
            with open(f'{tmp}_{w}', 'rb') as f:
                results.append(pickle.load(f))
            os.unlink(f'{tmp}_{w}')
        except OSError:
            print(f'error: worker {w} died', file=sys.stderr)
            return 2
    st = new_stats()
    lines, branches, totals = set(), {}, {}
    viol, errs, known = [], [], {}
    corpus = 0
    for r in results:
        s = r['stats']
        st['evaluations'] += s['evaluations']
        st['skipped'] += s['skipped']
        for k in ('events', 'tags'):
            for t, c in s[k].items():
                st[k][t] = st[k].get(t, 0) + c
        for k, v in s['known'].items():
            e = known.setdefault(k, [0, v[1]])
            e[0] += v[0]
        st['sigs'].update(s['sigs'])
        st['samples'] += s['samples']
        corpus += r['corpus']
        l, b, t = r['cov']
        lines |= l
        totals.update(t)
        for k, v in b.items():
            branches.setdefault(k, set()).update(v)
        if r['violation']:
            viol.append(r['violation'])
        if r['error']:
            errs.append(r['error'])
    if not viol and not errs and hasattr(mod, 'merge'):
        try:
            mod.merge([r['stats']['agg'] for r in results], st)
        except Violation as v:
            viol.append({'message': str(v), 'genome': [], 'case': -1, 'seed': seed, 'tags': ['aggregate'], 'trace': [],
                         'lits': lits, 'reproduced_again': False})
    wall = time.time() - t0
    files = getattr(mod, 'FILES', [])
    covd = {}
    for f in files:
        if f in totals:
            hit = len({l for (p, l) in lines if p == f})
            both = sum(1 for k, v in branches.items() if k[0] == f and len(v) > 1)
            allb = sum(1 for k, v in branches.items() if k[0] == f)
            covd[f] = {'lines_executed': hit, 'lines': totals[f], 'branches_seen': allb, 'branches_seen_both_ways': both}
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': st['evaluations'],
            'distinct_nontrivial': len(st['sigs']),
            'rule': getattr(mod, 'RULE', 'seeded random workloads; a case counts as distinct and non-trivial when it lies '
                                         'in the property\'s domain, reached an oracle verdict, and its arguments hash '
                                         'differently from every other case'),
            'samples': st['samples'][:5],
            'observed_events': dict(sorted(st['events'].items())),
            'scenarios': dict(sorted(st['tags'].items())),
            'skipped_out_of_domain_or_undecidable': st['skipped'],
            'coverage_corpus_entries': corpus,
            'code_reached': covd,
            'dictionary': {'integers': len(lits[0]), 'floats': len(lits[1])},
            'workers': nw,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', ['finite float64 data in the domain given in the property statement',
                                                    'numpy and scipy primitives used by the reference models are correct']),
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    if not ev['coverage']['samples']:
        ev['coverage']['samples'] = [{'note': 'no sample kept'}]
    with open(os.path.join(EVIDENCE, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    listed = {k['key']: k for k in load_known() if k.get('property') == pid and k.get('status') == 'known'}
    for key, (cnt, text) in sorted(known.items()):
        if key not in listed:
            viol.append({'message': f'{text} (not a listed finding: {key})', 'genome': [], 'case': -1, 'seed': seed,
                         'tags': [], 'trace': [], 'lits': lits, 'reproduced_again': False})
        else:
            print(f'KNOWN-FINDING: property={pid} {listed[key]["what"]} (observed {cnt} times)')
    if viol:
        v = min(viol, key=lambda v: len(v['genome']))
        rp = os.path.join(EVIDENCE, f'replay_{pid}.json')
        v['tier'] = tier
        v['property'] = pid
        with open(rp, 'w') as f:
            json.dump(v, f, indent=1, default=str)
        print(f'{pid}: {v["message"]}')
        for k, x in v['trace'][-6:]:
            print(f'  {k}: {x}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if errs:
        print(errs[0], file=sys.stderr)
        return 2
    if st['evaluations'] == 0 or not st['sigs'] or not any(k.startswith('call ') for k in st['events']):
        print('error: the monitors observed nothing', file=sys.stderr)
        return 2
    print(f'{pid}: held on {st["evaluations"]} cases ({len(st["sigs"])} distinct, {st["skipped"]} skipped, '
          f'{sum(c for k, c in st["events"].items() if k.startswith("call "))} calls observed) in {wall:.1f} s')
    return 0


if __name__ == '__main__':
    sys.exit(main())
