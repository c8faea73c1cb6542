"""C25: expression optimisation preserves value.

Oracle: metamorphic, both expressions are emitted and simulated on the same valuations.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt
from veriloggen.optimizer import optimize, try_optimize

ARITH = ['Plus', 'Minus', 'Times', 'And', 'Or', 'Xor', 'Xnor', 'Sll', 'Srl', 'Sra', 'Divide', 'Mod', 'Power', 'Plus', 'Minus', 'Times', 'And', 'Or']
CMP = ['LessThan', 'LessEq', 'GreaterThan', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql']
RED = ['Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor']


@spec
def opt_case(d):
    uniform = d.bool()
    vs = [[32, True]] * 3 if uniform else [[d.pick([1, 3, 8, 16, 32, 33]), d.bool()] for _ in range(3)]
    pool = []

    def const():
        k = d.int(0, 9)
        if k < 5:
            return ['c', d.pick([0, 1, 2, 3, 4, 8, 16, 5, 7, 255])]
        if k < 7:
            return ['c', d.int(-20, 20)]
        if k == 7:
            return ['b', d.bool()]
        if k == 8:
            return ['I', d.int(-9, 30)]
        w = d.int(2, 9)
        return ['s', d.int(0, (1 << w) - 1), w, d.bool()]

    def leaf():
        k = d.int(0, 9)
        if k < 5:
            return ['v', d.int(0, 2)]
        if k < 9:
            return const()
        return d.pick([['bit', d.int(0, 2)], ['cat', d.int(0, 2), d.int(0, 2)], ['call', d.int(0, 2)]])

    def boolean(depth):
        k = d.int(0, 9) if depth > 0 else 0
        if k < 4:
            return [d.pick(CMP), num(depth - 1), num(depth - 1)]
        if k < 7:
            x = boolean(depth - 1)
            y = x if d.chance(4) else ['Ulnot', x] if d.chance(4) else ['Unot', x] if d.chance(6) else d.pick([['c', 0], ['c', 1], ['c', 5]]) if d.chance(3) else boolean(depth - 1)
            return [d.pick(['Land', 'Lor'])] + ([x, y] if d.bool() else [y, x])
        if k == 7:
            x = num(depth - 1)
            y = d.pick([['Unot', x], ['Ulnot', x]]) if d.chance(3) else num(depth - 1)
            return [d.pick(['Land', 'Lor'])] + ([x, y] if d.bool() else [y, x])
        if k == 8:
            return ['Ulnot', d.pick([boolean, num])(depth - 1)]
        return [d.pick(RED), ['v', d.int(0, 2)]]

    def num(depth):
        if pool and d.chance(5):
            return d.pick(pool)
        k = d.int(0, 9)
        if depth <= 0 or k == 0:
            return leaf()
        if k < 7:
            op = d.pick(ARITH)
            a, b = num(depth - 1), num(depth - 1)
            if d.chance(5):
                b = a if d.bool() else ['Unot', a]
            if op in ('Sll', 'Srl', 'Sra'):
                b = ['c', d.int(0, 9)] if d.bool() else ['And', b, ['c', 7]]
            elif op in ('Divide', 'Mod'):
                # division of non-negative values: the rounding of negative quotients is a matter of the language
                a, b = ['And', a, ['c', 0x7fff]], ['c', d.pick([1, 2, 3, 4, 7, 8])] if d.bool() else ['Or', ['And', b, ['c', 14]], ['c', 1]]
            elif op == 'Power':
                a, b = num(0), ['c', d.int(0, 3)]
            r = [op, a, b]
        elif k == 7:
            r = [d.pick(['Unot', 'Uminus', 'Uplus']), num(depth - 1)]
        else:
            x = num(depth - 1)
            r = ['Cond', boolean(depth - 1), x, x if d.chance(5) else num(depth - 1)]
        pool.append(r)
        return r
    e = boolean(d.int(1, 4)) if d.chance(4) else num(d.int(1, 4))
    vals = [[d.pick([0, 1, (1 << w) - 1, 1 << (w - 1), d.int(0, (1 << w) - 1), d.int(0, min(20, (1 << w) - 1))]) for w, _ in vs] for _ in range(6)]
    return dict(vs=vs, e=e, vals=vals, again=d.bool())


class Overflow(Exception):
    pass


def cval(e):
    """Value of a constant expression (None if it is not constant); Overflow if it leaves the range of 32-bit numbers."""
    k = e[0]
    if k in 'cbI':
        return int(e[1])
    if k in ('v', 's', 'bit', 'cat', 'call'):
        return None
    a = [cval(x) for x in e[1:]]
    if any(x is None for x in a):
        return None
    f = dict(Plus=lambda x, y: x + y, Minus=lambda x, y: x - y, Times=lambda x, y: x * y, And=lambda x, y: x & y, Or=lambda x, y: x | y,
             Xor=lambda x, y: x ^ y, Xnor=lambda x, y: ~(x ^ y), Sll=lambda x, y: x << y, Srl=lambda x, y: (x & 0xffffffff) >> y, Sra=lambda x, y: x >> y,
             Divide=lambda x, y: x // y if y else 0, Mod=lambda x, y: x % y if y else 0, Power=lambda x, y: x ** y, Unot=lambda x: ~x,
             Uminus=lambda x: -x, Uplus=lambda x: x, Cond=lambda c, x, y: x if c else y).get(k, lambda *x: 1)
    r = f(*a)
    if not -(1 << 31) < r < 1 << 31:
        raise Overflow()
    return r


def size(e):
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, list))


def opt_run(s):
    try:
        cval(s['e'])
        for x in subtrees(s['e']):
            cval(x)
    except Overflow:
        return dict(nontrivial=False, labels=['overflow'])
    m = Module('dut')
    vs = [m.Input('x%d' % i, w, signed=sg) for i, (w, sg) in enumerate(s['vs'])]
    memo = {}

    def build(e):
        key = repr(e)
        if key in memo:
            return memo[key]
        k = e[0]
        if k == 'v':
            r = vs[e[1]]
        elif k == 'c':
            r = e[1]
        elif k == 'b':
            r = bool(e[1])
        elif k == 'I':
            r = vt.Int(e[1])
        elif k == 's':
            r = vt.Int(e[1], width=e[2], signed=e[3])
        elif k == 'bit':
            r = vs[e[1]][0]
        elif k == 'cat':
            r = vt.Cat(vs[e[1]], vs[e[2]])
        elif k == 'call':
            r = vt.SystemTask('signed', vs[e[1]])
        elif k == 'Cond':
            r = vt.Cond(*[build(x) for x in e[1:]])
        else:
            r = getattr(vt, k)(*[build(x) for x in e[1:]])
        memo[key] = r
        return r
    e = build(s['e'])
    if isinstance(e, (int, bool)):
        return dict(nontrivial=False, labels=['literal'])
    o = optimize(e)
    if s['again']:
        o = try_optimize(o)
    for i, w in enumerate((64, 32, 8)):
        m.Output('y%d' % i, w)
        m.Output('z%d' % i, w)
        m.io_variable['y%d' % i].assign(e)
        m.io_variable['z%d' % i].assign(o)
    text = m.to_verilog()
    t = ['module tb;']
    for i, (w, _) in enumerate(s['vs']):
        t.append('  reg [%d:0] x%d;' % (w - 1, i))
    for i, w in enumerate((64, 32, 8)):
        t.append('  wire [%d:0] y%d, z%d;' % (w - 1, i, i))
    t.append('  dut d(%s);' % ', '.join('.%s(%s)' % (x, x) for x in ['x0', 'x1', 'x2'] + ['%s%d' % (c, i) for c in 'yz' for i in range(3)]))
    t.append('  initial begin')
    for j, v in enumerate(s['vals']):
        t.append('    %s #1; if({y0, y1, y2} !== {z0, z1, z2}) $display("D %d %%h %%h", {y0, y1, y2}, {z0, z1, z2}); else $display("S %%h", y0);' % (
            ' '.join("x%d = %d'd%d;" % (i, w, x) for i, ((w, _), x) in enumerate(zip(s['vs'], v))), j))
    t.append('  end\nendmodule')
    out = sim.compile_and_run(text + '\n'.join(t) + '\n', top='tb')
    lines = out.splitlines()
    if sum(l.startswith('S') or l.startswith('D') for l in lines) != len(s['vals']):
        raise Violation('no result from the simulation\n' + out[:500])
    for l in lines:
        if l.startswith('D'):
            _, j, a, b = l.split()
            raise Violation('valuation %s: the value is %s, after the optimisation %s (64, 32 and 8 bit targets)\n%s' % (
                s['vals'][int(j)], a, b, text))
    a, b = [l for l in text.splitlines() if 'assign y0' in l or 'assign z0' in l]
    changed = a.split('=', 1)[1] != b.split('=', 1)[1]
    return dict(nontrivial=size(s['e']) > 2 and changed, labels=['changed' if changed else 'same'] + sorted(set(x[0] for x in subtrees(s['e']))))


def subtrees(e):
    yield e
    for x in e[1:]:
        if isinstance(x, list):
            for y in subtrees(x):
                yield y


PARTS = [Part('opt', opt_case(), opt_run, quick=3000, thorough=100000)]

if __name__ == '__main__':
    main('C25', PARTS,
         rule='random expressions of depth 1-4 with shared and repeated subexpressions over signed 32-bit variables (the numbers of threads) or '
              'variables of any width and sign, literals of all kinds, all operators, conditional expressions, slices, concatenations and calls, 6 '
              'valuations, 3 target widths; non-trivial = the optimizer changed an expression of more than one operator',
         assumptions=['Icarus Verilog 12 evaluates both expressions', 'constants stay within 32 bits',
                      'quotients of negative numbers are outside (Python and Verilog differ)'])
