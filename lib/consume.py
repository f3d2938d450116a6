"""Consumers that read a stream forward to its end, in every style the library offers."""
import time

from lib.harness import Violation, show
from lib.model import ReaderModel

STYLES = ['for', 'next', 'read', 'blocking', 'stream_for', 'readn', 'mixed']


class Consumer:
    """One forward reader of a stream; run() is its thread."""

    def __init__(self, h, stream, style, rg, naps, who, size=1, reader=None, strict=False,
                 lazy=0.0):
        self.h, self.stream, self.style, self.rg, self.naps = h, stream, style, rg, naps
        self.who, self.size, self.strict, self.lazy = who, size, strict, lazy
        self.reader = reader
        self.got = []
        self.ended = False
        self.end_seq = None
        self.begun_after = None
        self.nones = 0

    def nap(self):
        d = self.rg.choice(self.naps)
        if d:
            time.sleep(d)

    def take(self, out):
        v = out[1]
        if self.size > 1 or isinstance(v, list) and self.many:
            if not isinstance(v, list):
                raise Violation('wrong result', f'{self.who}: {v!r} is not a list of items')
            self.got += v
        else:
            self.got.append(v)
        self.h.ctx.count('items delivered', len(v) if self.many else 1)

    def run(self):
        h, rg = self.h, self.rg
        if self.lazy:
            time.sleep(self.lazy)
        self.begun_after = h.s.tick_seq()
        self.many = self.size > 1
        style = self.style
        if style == 'stream_for':
            self.size, self.many = 1, False
            rd = (None, ReaderModel(ignore=True), self.who)
            it = iter(self.stream)
            self.loop(rd, lambda: next(it), none_ok=False)
            return
        kw = dict(read_size=self.size, ignore_no_item_found=True)
        if self.strict:
            kw['strict_n'] = True
        rd = h.reader(self.stream, self.who, made=None, **kw)
        r = self.reader = rd[0]
        if style == 'for':
            it = iter(r)
            self.loop(rd, lambda: next(it), none_ok=False)
        elif style == 'next':
            self.loop(rd, lambda: next(r), none_ok=True)
        elif style == 'blocking':
            while True:
                out = h.do(rd, 'read', {}, fn=lambda: r.read(blocking=True))
                if out[0] == 'exc':
                    if self.refused(out):
                        continue
                    raise Violation('blocking read failed', f'{self.who}: {show(out)}')
                if out[1] is None:
                    self.forget()
                    self.finish()
                    return
                self.take(out)
                self.nap()
        else:
            self.poll(rd, style)

    def forget(self):
        """Take this consumer's latest query, an end of stream, out of the history."""
        qs = self.h.queries
        for i in range(len(qs) - 1, -1, -1):
            if qs[i].who == self.who:
                del qs[i]
                return

    def refused(self, out):
        """A strict read with too few items; the rest cannot be read strictly after the end."""
        if self.strict and isinstance(out[1], ValueError):
            if self.reader.is_stopped:
                self.strict_tail()
                return False
            time.sleep(0.01)
            return True
        return False

    def poll(self, rd, style):
        h, r, rg = self.h, rd[0], self.rg
        while True:
            stopped = r.is_stopped
            self.many = self.size > 1
            kw = {}
            if style == 'readn' or style == 'mixed' and rg.random() < 0.5:
                n = rg.choice([1, 2, 3, 5, 50])
                kw['n'] = n
                self.many = n > 1
            keep, self.size = self.size, kw.get('n', self.size)
            if style == 'mixed' and not kw and not stopped and rg.random() < 0.5:
                out = h.do(rd, 'next', {})
                if out[0] == 'exc' and isinstance(out[1], StopIteration):
                    self.forget()
                    self.finish()
                    return
            else:
                out = h.do(rd, 'read', kw)
            if out[0] == 'exc':
                raise Violation('read failed', f'{self.who}: {show(out)}')
            if out[1] is None:
                self.size = keep
                if stopped:
                    self.finish()
                    return
                self.nones += 1
                time.sleep(rg.choice([0.003, 0.03]))
                continue
            self.take(out)
            self.size = keep
            self.nap()

    def loop(self, rd, fn, none_ok):
        h = self.h
        while True:
            out = h.do(rd, 'next', {}, fn=fn)
            if out[0] == 'exc':
                if isinstance(out[1], StopIteration):
                    self.forget()
                    self.finish()
                    return
                raise Violation('iteration failed', f'{self.who}: {show(out)}')
            if out[1] is None:
                if not none_ok:
                    raise Violation('a for loop was given None', self.who)
                self.nones += 1
                time.sleep(self.rg.choice([0.003, 0.03]))
                continue
            self.take(out)
            self.nap()

    def finish(self):
        self.ended = True
        self.end_seq = self.h.s.tick_seq()


def check_consumer(ctx, c, items, maxlen, must, keeps_all):
    """Order, once, and completeness of what one consumer received.

    must: number of items that were certainly put in the buffer before the stop.
    keeps_all: nothing ever left the window, so the consumer gets every item.
    """
    index = {id(x): i for i, x in enumerate(items)}

    def idx(x):
        i = index.get(id(x))
        if i is None:
            from lib.harness import same

            i = next((k for k, y in enumerate(items) if same(x, y)), None)
        ctx.check(i is not None, 'foreign item', f'{c.who} received {x!r}')
        return i

    seq = [idx(x) for x in c.got]
    ctx.check(all(a < b for a, b in zip(seq, seq[1:])), 'order or duplicate',
              f'{c.who} ({c.style}) received items number {seq}')
    if not c.ended:
        return seq
    last = seq[-1] if seq else -1
    ctx.check(last >= must - 1, 'lost items at the end',
              f'{c.who} ({c.style}, size {c.size}) ended after item number {last}; items up to '
              f'{must - 1} were in the buffer before the stop')
    if keeps_all:
        ctx.check(seq == list(range(len(seq))), 'skipped items',
                  f'{c.who} ({c.style}) received {seq}')
    return seq
