"""A program that ends in some way while streams are in some state (run by checks/c30.py)."""
import faulthandler
import json
import os
import signal
import sys
import threading
import time

faulthandler.register(signal.SIGUSR1, all_threads=True)
# as in a program started from a terminal, however this one was started
signal.signal(signal.SIGINT, signal.default_int_handler)
signal.pthread_sigmask(signal.SIG_UNBLOCK, {signal.SIGINT})
P = json.loads(sys.argv[1])
sys.dont_write_bytecode = True
sys.path.insert(0, '/repo')
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
# a thread that writes while the interpreter ends would be a fault of this program
threading.excepthook = lambda args: None
from stream2py import SourceReader, StreamBuffer, StreamSource  # noqa: E402
from stream2py.simply import mk_stream_buffer  # noqa: E402


def reading(how, state):
    """What a read does."""
    state['n'] = n = state.get('n', -1) + 1
    if n < 3:
        return n
    if how == 'none':
        return None
    if how == 'sleep':
        time.sleep(100_000)
    elif how == 'event':
        threading.Event().wait()
    elif how == 'pipe':
        os.read(PIPE, 1)
    elif how == 'lock':
        HELD.acquire()
    elif how == 'slow':
        time.sleep(0.05)
    elif how == 'fail':
        raise RuntimeError('the source failed')
    return n


PIPE, _write_end = os.pipe()
HELD = threading.Lock()
HELD.acquire()


class Base:
    def __init__(self, how):
        self.how, self.state = how, {}
        if isinstance(self, StreamSource):
            StreamSource.__init__(self)

    def open(self):
        self.state.clear()

    def close(self):
        pass

    def read(self):
        return reading(self.how, self.state)

    def key(self, data):
        return data

    @property
    def info(self):
        return {}


class Reader(Base, SourceReader):
    pass


class Shared(Base, StreamSource):
    pass


class Plain(Base):
    sleep_time_on_read_none_s = 0.01


keep = []


def consume(r, how):
    if how == 'for':
        for _ in r:
            pass
    else:
        while r.read(blocking=True) is not None:
            pass


def make(st):
    """One stream in the state asked for."""
    way, how = st['way'], st['how']
    bound = dict(maxlen=st['maxlen'], auto_drop=st['auto_drop'])
    if way == 'shared':
        src = Shared(how)
        src.configure_buffer(**bound)
        r = src.open_reader()
        keep.append((src, r))
        readers = [r, src.open_reader()]
        stop, start = src.exit, None
        if st['closed']:
            readers[1].close()
    elif way == 'helper':
        state = {}
        cm = mk_stream_buffer(lambda inst: reading(how, state), **bound)
        stream = cm.__enter__()
        if st['keep']:
            keep.append((cm, stream))
        readers = [stream.mk_reader(), stream.mk_reader()]
        stop, start = stream.stop, stream.start
    else:
        src = {'reader': Reader, 'shared': Shared, 'plain': Plain,
               'method': Reader}[way](how)
        stream = src.stream_buffer(**bound) if way == 'method' else StreamBuffer(src, **bound)
        stop, start = stream.stop, stream.start
        readers = []
        if st['keep']:
            keep.append(stream)
        if st['state'] != 'unstarted':
            stream.start()
            readers = [stream.mk_reader(), stream.mk_reader()]
    if st['state'] == 'restarted' and start and how in ('none', 'slow', 'fail'):
        start()
    if readers:
        r = readers[0]
        end = time.time() + 20
        while time.time() < end and r.read(ignore_no_item_found=True) is None:
            time.sleep(0.01)
    for c in st['consumers'] if readers else ():
        threading.Thread(target=consume, args=(readers[1], c), daemon=True).start()
    if st['state'] == 'stopped':
        stop()
    return readers


def main():
    got = [make(st) for st in P['streams']]
    if P['nap']:
        time.sleep(P['nap'])
    end = P['end']
    if end == 'sigint':
        def later():
            time.sleep(0.2)
            os.kill(os.getpid(), signal.SIGINT)

        threading.Thread(target=later, daemon=True).start()
        print('END', flush=True)
        for rs in got:
            for r in rs:
                for _ in r:
                    pass
        time.sleep(100)
    print('END', flush=True)
    if end == 'exit':
        sys.exit(P['code'])
    if end == 'raise':
        raise RuntimeError('the program failed')
    if end == 'interrupt':
        raise KeyboardInterrupt
    if end == 'del':
        keep.clear()


if P['atexit']:
    import atexit

    atexit.register(lambda: [getattr(k, 'stop', lambda: None)() for k in keep])
main()
