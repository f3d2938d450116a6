"""C30: a stream never keeps its program from ending."""
import json
import os
import signal
import subprocess
import sys
import time

from lib.harness import Inconclusive

ID = 'C30'
TECHNIQUE = 'runtime monitoring: whole programs ended in every way with streams in every state; exit monitored from outside'
RULE = (
    'programs with 1-3 streams (StreamBuffer, stream_buffer, shared source or helper; plain or '
    'derived sources) that were never started, run, were restarted or stopped, whose source '
    'delivers, is idle, failed or is blocked for ever (sleep, event, lock, pipe), with daemon '
    'consumers iterating or blocking, which then return, exit with a status, raise, are '
    'interrupted or drop their streams; observed: end of the process, exit status and fatal '
    'errors; non-trivial: a source or a consumer was active at the end'
)
ASSUMPTIONS = ['threads made by the program itself are daemons',
               'ending takes less than 60 s of real time where the code allows it (about 1 s usual)']
QUICK = 320
THOROUGH = 8000
MIN = {'programs ended': 320, 'sources blocked for ever': 100, 'streams': 400,
       'consumers waiting': 100, 'end return': 20, 'end exit': 20, 'end raise': 20,
       'end interrupt': 20, 'end sigint': 20}
LIMIT = 60
PROG = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib',
                    'exitprog.py')
_perf = time.perf_counter


def case(rng, ctx):
    end = rng.choice(['return', 'exit', 'raise', 'interrupt', 'sigint', 'del'])
    streams = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        way = rng.choice(['reader', 'plain', 'method', 'shared', 'helper', 'reader'])
        how = rng.choice(['none', 'slow', 'fail', 'sleep', 'event', 'pipe', 'lock'])
        auto = rng.random() < 0.7
        streams.append(dict(
            way=way, how=how, maxlen=rng.choice([None, 1, 3, 100]), auto_drop=auto,
            state=rng.choice(['running'] * 4 + ['stopped', 'restarted', 'unstarted']),
            consumers=[rng.choice(['for', 'blocking']) for _ in range(rng.choice([0, 0, 1, 2]))],
            closed=rng.random() < 0.3, keep=rng.random() < 0.8))
    p = dict(end=end, code=rng.choice([0, 1, 3, 77]), streams=streams,
             nap=rng.choice([0, 0, 0.05, 0.3]), atexit=rng.random() < 0.1)
    ctx.describe(**p)
    ctx.count('streams', len(streams))
    for st in streams:
        if st['how'] in ('sleep', 'event', 'pipe', 'lock') and st['state'] != 'unstarted':
            ctx.count('sources blocked for ever')
        ctx.count('consumers waiting', len(st['consumers']))
    want = {'return': 0, 'del': 0, 'exit': p['code'], 'raise': 1,
            'interrupt': 130, 'sigint': 130}[end]
    t0 = _perf()
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    child = subprocess.Popen([sys.executable, '-B', PROG, json.dumps(p)], stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                             start_new_session=True)
    stuck = False
    try:
        out, err = child.communicate(timeout=LIMIT)
    except subprocess.TimeoutExpired:
        stuck = True
        os.kill(child.pid, signal.SIGUSR1)
        try:
            child.communicate(timeout=3)
        except subprocess.TimeoutExpired:
            pass
        os.killpg(child.pid, signal.SIGKILL)
        out, err = child.communicate()
    out, err = out.decode(errors='replace'), err.decode(errors='replace')
    took = _perf() - t0
    ctx.note('out', out, 'err', err[-3000:], 'took', round(took, 2))
    if stuck:
        # decided by where the main thread is, not by the clock alone
        main = err[err.rfind('Current thread'):]
        at = main[:main.find('\n\n')] if '\n\n' in main else main
        where = [x for x in ('_shutdown', '_exit_function', 'stream2py', '_python_exit') if x in at]
        if 'END' in out and not at or where:
            ctx.fail('the program does not end', f'after {took:.0f} s, at {where}: {err[-2500:]}')
        raise Inconclusive(f'no end after {took:.0f} s: {err[-1500:]}')
    ctx.count('programs ended')
    ctx.count('end ' + end)
    ctx.most('milliseconds to the end', int(took * 1000))
    ctx.check('END' in out, 'the program did not reach its end', err[-2000:])
    code = child.returncode
    ctx.check(code == want or want == 130 and code == -signal.SIGINT, 'exit status',
              f'{code}, due {want}: {err[-1500:]}')
    ctx.check('Fatal Python error' not in err, 'fatal error at exit', err[-2000:])
    if any(st['state'] != 'unstarted' for st in streams):
        ctx.interesting(json.dumps(p, sort_keys=True))
