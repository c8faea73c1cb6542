"""Light-weight structured generation on top of Hypothesis' choice sequence.

@spec turns a function fn(d, ...) into a strategy factory; d offers cheap primitive choices (each one is a node of
the Hypothesis choice sequence, so shrinking works as usual) without building nested strategy objects.
"""
import functools

import hypothesis.strategies as st
from hypothesis.control import current_build_context


class D(object):
    def __init__(self, data, draw):
        self._data = data
        self.draw = draw       # any Hypothesis strategy

    def int(self, lo, hi):
        if lo == hi:
            return lo
        return self._data.draw_integer(lo, hi)

    def bool(self):
        return bool(self._data.draw_integer(0, 1))

    def chance(self, n):
        """true once in n; shrinks to false"""
        return self._data.draw_integer(0, n - 1) == n - 1

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def list(self, lo, hi, f):
        out = []
        for _ in range(self.int(lo, hi)):
            self._data.start_span(1)
            out.append(f())
            self._data.stop_span()
        return out

    def span(self, f, *args):
        self._data.start_span(2)
        r = f(self, *args)
        self._data.stop_span()
        return r

    def subset(self, seq, lo=0):
        out = [x for x in seq if self.bool()]
        while len(out) < lo:
            x = self.pick([y for y in seq if y not in out])
            out.append(x)
        return out

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = self.int(i, len(seq) - 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


def spec(fn):
    @functools.wraps(fn)
    def make(*args, **kw):
        @st.composite
        def strat(draw):
            return fn(D(current_build_context().data, draw), *args, **kw)
        return strat()
    return make
