"""Runs a check: spreads its cases over worker processes, gives the verdict, writes evidence.

Exit 0: held on everything observed.  Exit 1: VIOLATION line.  Exit 2: no verdict.
"""
import argparse
import gc
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_perf = time.perf_counter
_sleep = time.sleep
HANG_S = 90


def load(prop):
    mod = importlib.import_module(f'checks.{prop.lower()}')
    return mod


def prepare(mod_name):
    """Install the scheduler before the code under test is imported."""
    sys.dont_write_bytecode = True
    if '/repo' not in sys.path:
        sys.path.insert(0, '/repo')
    from lib import vsched

    vsched.install()
    import logging
    import unittest.case  # noqa: F401  (imported by the code under test)
    import urllib.request  # noqa: F401

    # never read a __pycache__ of /repo: an edit of the same size in the same second
    sys.pycache_prefix = '/nonexistent/verif-no-pycache'
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter('ignore')
    mod = load(mod_name)
    import stream2py

    assert stream2py.__file__.startswith('/repo/'), stream2py.__file__
    return mod


def known_mechanisms(prop):
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            k = json.load(f)
    except FileNotFoundError:
        return {}
    return {e['mechanism']: e['what'] for e in k.get('open', []) if e['property'] == prop}


def run_case(mod, ctx, seed, tier, i):
    """One case; returns None or a dict describing what went wrong."""
    from lib.harness import Inconclusive, Violation, fmt_exc, from_repo

    ctx.begin(i)
    rng = random.Random(f'{seed}:{mod.ID}:{tier}:{i}')
    try:
        mod.case(rng, ctx)
    except Violation as e:
        return dict(kind='violation', mechanism=e.mechanism, text=e.text[:6000], case=i)
    except Inconclusive as e:
        ctx.count('inconclusive cases')
        return dict(kind='inconclusive', mechanism='', text=str(e), case=i)
    except Exception as e:
        if from_repo(e):
            return dict(kind='violation', mechanism='unexpected ' + type(e).__name__,
                        text=fmt_exc(e), case=i)
        if isinstance(e, (TypeError, AttributeError, LookupError, ValueError)):
            # a value the check was handed is not of the kind the interface gives
            return dict(kind='violation', mechanism='unusable result ' + type(e).__name__,
                        text=fmt_exc(e), case=i)
        return dict(kind='error', mechanism='', text=fmt_exc(e), case=i)
    finally:
        ctx.end()
    return None


def worker(a):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    mod = prepare(a.prop)
    from lib.harness import Ctx, jsonable

    gc.disable()
    ctx = Ctx(mod.ID, a.tier, force_trace=a.force_trace)
    known = known_mechanisms(mod.ID)
    out = dict(problems=[], known={}, done=0)
    t0 = _perf()
    stop = os.path.join(a.dir, 'stop')
    prog = open(os.path.join(a.dir, f'progress.{a.index}'), 'w')
    n = 0
    for i in range(a.first, a.cases, a.stride):
        if os.path.exists(stop):
            break
        if n and _perf() - t0 > a.budget:
            out['cut'] = True
            break
        prog.seek(0)
        prog.write(f'{i:10d}')
        prog.flush()
        bad = run_case(mod, ctx, a.seed, a.tier, i)
        n += 1
        if n % 20 == 0:
            gc.collect()
        if bad is None:
            continue
        if bad['kind'] == 'violation' and bad['mechanism'] in known:
            out['known'].setdefault(bad['mechanism'], 0)
            out['known'][bad['mechanism']] += 1
            continue
        bad['trail'] = [jsonable(t) for t in ctx.trail[-400:]]
        bad['desc'] = jsonable(ctx.desc)
        out['problems'].append(bad)
        if bad['kind'] == 'violation':
            open(stop, 'w').close()
            break
        if bad['kind'] == 'error' and len(out['problems']) >= 3:
            break
    out['done'] = n
    out['counters'] = ctx.counters
    out['maxima'] = ctx.maxima
    out['sets'] = {k: sorted(v) for k, v in ctx.sets.items()}
    out['nontrivial'] = sorted(ctx.nontrivial)
    out['samples'] = jsonable(ctx.samples)
    hits = {}
    for f, line in ctx.hits:
        hits.setdefault(f.replace('/repo/', ''), []).append(line)
    out['hits'] = {k: sorted(v) for k, v in hits.items()}
    tmp = os.path.join(a.dir, f'out.{a.index}.tmp')
    with open(tmp, 'w') as f:
        json.dump(out, f)
    os.rename(tmp, os.path.join(a.dir, f'out.{a.index}'))
    prog.close()
    sys.stdout.flush()
    os._exit(0)


def spawn(a, d, index, first, stride, cases, budget, force=False):
    cmd = [sys.executable, os.path.join(VERIF, 'run.py'), a.prop, '--worker', '--dir', d,
           '--index', str(index), '--first', str(first), '--stride', str(stride),
           '--cases', str(cases), '--budget', str(budget), '--tier', a.tier,
           '--seed', str(a.seed)]
    if force:
        cmd.append('--force-trace')
    log = open(os.path.join(d, f'log.{index}'), 'w')
    return subprocess.Popen(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL,
                            start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


def gather(a, mod, d, workers, cases, budget):
    """Run all workers to their end; rerun a hung worker's case under full tracing."""
    procs = {}
    for w in range(workers):
        procs[w] = spawn(a, d, w, w, workers, cases, budget)
    last = {w: (None, _perf()) for w in procs}
    results, problems = [], []
    t0 = _perf()
    while procs:
        _sleep(0.02)
        for w, p in list(procs.items()):
            path = os.path.join(d, f'out.{w}')
            rc = p.poll()
            if rc is not None:
                if os.path.exists(path):
                    with open(path) as f:
                        results.append(json.load(f))
                else:
                    with open(os.path.join(d, f'log.{w}')) as f:
                        log = f.read()[-3000:]
                    problems.append(dict(kind='error', mechanism='', case=None,
                                         text=f'worker {w} ended with {rc}: {log}'))
                del procs[w]
                continue
            try:
                with open(os.path.join(d, f'progress.{w}')) as f:
                    cur = f.read().strip()
            except FileNotFoundError:
                cur = None
            if cur != last[w][0]:
                last[w] = (cur, _perf())
            hang = HANG_S if w < 1000 else 240
            if _perf() - last[w][1] > hang or _perf() - t0 > budget + 300:
                kill(p)
                del procs[w]
                if w < 1000 and cur and _perf() - t0 <= budget + 300:
                    # decide by counted steps, not by the clock
                    i = int(cur)
                    procs[1000 + w] = spawn(a, d, 1000 + w, i, 1, i + 1, budget, force=True)
                    last[1000 + w] = (None, _perf())
                else:
                    problems.append(dict(
                        kind='error', mechanism='', case=cur,
                        text=f'worker {w} made no progress (watchdog, no verdict)'))
    return results, problems


def merge(results):
    m = dict(done=0, counters={}, sets={}, nontrivial=set(), samples=[], known={}, hits={},
             problems=[], cut=False, maxima={})
    for r in results:
        m['done'] += r['done']
        m['cut'] = m['cut'] or r.get('cut', False)
        for k, v in r['counters'].items():
            m['counters'][k] = m['counters'].get(k, 0) + v
        for k, v in r['maxima'].items():
            m['maxima'][k] = max(v, m['maxima'].get(k, v))
        for k, v in r['sets'].items():
            m['sets'].setdefault(k, set()).update(v)
        m['nontrivial'].update(r['nontrivial'])
        m['samples'] += r['samples']
        for k, v in r['known'].items():
            m['known'][k] = m['known'].get(k, 0) + v
        for k, v in r['hits'].items():
            m['hits'].setdefault(k, set()).update(v)
        m['problems'] += r['problems']
    return m


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--cases', type=int, default=None)
    ap.add_argument('--workers', type=int, default=None)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--case', type=int, default=None)
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--force-trace', action='store_true')
    ap.add_argument('--dir')
    ap.add_argument('--index', type=int)
    ap.add_argument('--first', type=int)
    ap.add_argument('--stride', type=int)
    a = ap.parse_args(argv)
    a.prop = a.prop.upper()
    if a.tier is None:
        a.tier = 'thorough' if a.thorough else 'quick'
    if a.seed is None:
        try:
            a.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            a.seed = 1
    if a.worker:
        return worker(a)
    if a.replay or a.case is not None:
        return replay(a)
    return check(a)


def replay(a):
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.seed, a.tier, a.case = r['seed'], r['tier'], r['case']
    mod = prepare(a.prop)
    from lib.harness import Ctx

    gc.disable()
    ctx = Ctx(mod.ID, a.tier, force_trace=a.force_trace)
    bad = run_case(mod, ctx, a.seed, a.tier, a.case)
    print(json.dumps(ctx.desc, default=repr, indent=1))
    for t in ctx.trail:
        print(*t)
    if bad:
        print(bad['kind'], bad['mechanism'])
        print(bad['text'])
        if bad['kind'] == 'violation':
            print(f'VIOLATION property={mod.ID} replay={a.replay or a.case}')
            return 1
        return 2
    print('held')
    return 0


def check(a):
    t0 = _perf()
    sys.path.insert(0, '/repo')
    spec = read_spec(a.prop)
    cases = a.cases or (spec['THOROUGH'] if a.tier == 'thorough' else spec['QUICK'])
    budget = a.budget or (600 if a.tier == 'thorough' else 240)
    workers = a.workers or min(8, os.cpu_count() or 1, cases)
    d = tempfile.mkdtemp(prefix='verif-')
    try:
        results, problems = gather(a, spec, d, workers, cases, budget)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = merge(results)
    m['problems'] += problems
    viol = [p for p in m['problems'] if p['kind'] == 'violation']
    errors = [p for p in m['problems'] if p['kind'] == 'error']
    incon = [p for p in m['problems'] if p['kind'] == 'inconclusive']
    prop = a.prop
    evidence = dict(
        property=prop,
        tier=a.tier,
        seed=a.seed,
        level=spec['LEVEL'],
        coverage=dict(
            evaluations=m['done'],
            distinct_nontrivial=len(m['nontrivial']),
            rule=spec['RULE'],
            samples=m['samples'][:4] or ['none'],
            observed=dict(sorted(m['counters'].items())),
            maxima=m['maxima'],
            distinct={k: len(v) for k, v in sorted(m['sets'].items())},
            lines_of_the_code_under_test_preempted={
                k: len(v) for k, v in sorted(m['hits'].items())},
            cases_planned=cases,
            stopped_by_time=m['cut'],
            inconclusive_cases=len(incon),
            known_findings_met=m['known'],
        ),
        assumptions=spec['ASSUMPTIONS'],
        wall_s=round(_perf() - t0, 2),
        violations=len(viol),
    )
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', f'{prop}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
    os.rename(path + '.tmp', path)
    for mech, what in known_mechanisms(prop).items():
        print(f'KNOWN-FINDING: property={prop} {what}')
    if viol:
        v = min(viol, key=lambda p: (p['case'] if p['case'] is not None else 1 << 60))
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        rp = os.path.join(VERIF, 'replays', f'{prop}-{a.tier}-{a.seed}-{v["case"]}.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, seed=a.seed, tier=a.tier, **v), f, indent=1,
                      default=repr)
        print(f'{prop} case {v["case"]}: {v["mechanism"]}: {v["text"][:1500]}')
        print(f'replay with: python3 run.py {prop} --replay {rp}')
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    if errors:
        for e in errors[:3]:
            print(f'{prop}: error of the check, case {e["case"]}: {e["text"]}')
        return 2
    short = {k: v for k, v in spec['MIN'].items() if m['counters'].get(k, 0) < v}
    if short or len(m['nontrivial']) < spec['MIN_NONTRIVIAL'] or len(incon) * 10 > m['done']:
        print(f'{prop}: inconclusive: observed too little: {short} nontrivial='
              f'{len(m["nontrivial"])} inconclusive={len(incon)}')
        return 2
    c = m['counters']
    print(f'{prop}: held on {m["done"]} cases ({len(m["nontrivial"])} distinct nontrivial), '
          f'{c.get("assertions", 0)} assertions, {c.get("executions", 0)} executions, '
          f'{len(m["sets"].get("distinct interleavings", ()))} interleavings, '
          f'{evidence["wall_s"]} s')
    return 0


def read_spec(prop):
    """The constants of a check module, read without importing the code under test."""
    import ast

    path = os.path.join(VERIF, 'checks', f'{prop.lower()}.py')
    spec = dict(LEVEL='exploration', MIN={}, MIN_NONTRIVIAL=20, RULE='', ASSUMPTIONS=[])
    with open(path) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            name = node.targets[0].id
            if name in ('ID', 'RULE', 'QUICK', 'THOROUGH', 'LEVEL', 'MIN', 'MIN_NONTRIVIAL',
                        'ASSUMPTIONS', 'TECHNIQUE', 'NOTE'):
                spec[name] = ast.literal_eval(node.value)
    assert spec['ID'] == prop
    return spec
