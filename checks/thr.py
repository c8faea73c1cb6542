"""Shared helpers for checks that compile Python functions into hardware threads."""
import ast
import os
import re
import sys
import tempfile

from vlib.core import Violation
from vlib import sim

import veriloggen as vg
import veriloggen.thread as vthread

_count = [0]


def load(src, env):
    """Execute generated Python source so that inspect.getsource works; returns its namespace."""
    _count[0] += 1
    path = os.path.join(os.getcwd(), 'gen_%d_%d.py' % (os.getpid(), _count[0]))
    with open(path, 'w') as f:
        f.write(src)
    ns = dict(env)
    ns['__name__'] = 'gen_%d' % _count[0]
    ns['__file__'] = path
    try:
        exec(compile(src, path, 'exec'), ns)
    except BaseException:
        os.unlink(path)
        raise
    return ns, path


def unload(path):
    import linecache
    linecache.cache.pop(path, None)
    try:
        os.unlink(path)
    except OSError:
        pass


TB = '''
module tb;
  reg CLK, RST; integer cyc;
  initial begin CLK = 0; forever #5 CLK = !CLK; end
  initial begin RST = 0; #2 RST = 1; #100 RST = 0; end
  initial cyc = 0;
  always @(posedge CLK) begin
    cyc = cyc + 1;
    if(cyc > %d) begin $display("TIMEOUT"); $finish(0); end
  end
  %s
endmodule
'''


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def make_int(width):
    """Python integers of a fixed two's complement width (the reference value domain)."""
    mask = (1 << width) - 1
    half = 1 << (width - 1)

    class I(object):
        __slots__ = ('v',)

        def __init__(self, v):
            v = int(v) & mask
            self.v = v - (mask + 1) if v >= half else v

        def __int__(self): return self.v
        def __index__(self): return self.v
        def __bool__(self): return self.v != 0
        def __hash__(self): return hash(self.v)
        def __repr__(self): return str(self.v)
        def __format__(self, spec): return format(self.v, spec)
        def __neg__(self): return I(-self.v)
        def __pos__(self): return self
        def __invert__(self): return I(~self.v)

    def binop(f):
        def op(self, o):
            return I(f(self.v, int(o)))

        def rop(self, o):
            return I(f(int(o), self.v))
        return op, rop
    for n, f in dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b,
                     floordiv=lambda a, b: a // b, mod=lambda a, b: a % b, pow=lambda a, b: pow(a, b, 1 << 128) if b >= 0 else 0,
                     lshift=lambda a, b: a << b, rshift=lambda a, b: a >> b,
                     and_=lambda a, b: a & b, or_=lambda a, b: a | b, xor=lambda a, b: a ^ b).items():
        o, r = binop(f)
        n = n.rstrip('_')
        setattr(I, '__%s__' % n, o)
        setattr(I, '__r%s__' % n, r)
    for n, f in dict(lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b,
                     ge=lambda a, b: a >= b, eq=lambda a, b: a == b, ne=lambda a, b: a != b).items():
        setattr(I, '__%s__' % n, (lambda f: lambda self, o: f(self.v, int(o)))(f))
    return I
