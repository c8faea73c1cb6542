"""C23: fixed point values.

Oracle: exact rational arithmetic (fractions), rounded downwards to the point of the result where bits are dropped.
"""
from fractions import Fraction
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

import math
import veriloggen
from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt
import veriloggen.types.fixed as fx

W = 64


# ---------------------------------------------------------------- numbers
@spec
def num(d):
    return [dict(v=d.pick([0, 1, -1, d.int(-4000, 4000)]), q=d.int(0, 9), p=d.pick([0, 1, 4, 8, d.int(0, 20), -1, -3, -d.int(1, 6)]), k=d.pick(['int', 'float'])) for _ in range(8)]


def run_num(cs):
    n = 0
    for c in cs:
        p = c['p']
        scale = Fraction(2) ** p
        exact = Fraction(c['v']) if c['k'] == 'int' else Fraction(c['v'], 1 << c['q'])
        v = c['v'] if c['k'] == 'int' else c['v'] / (1 << c['q'])
        r = fx.to_fixed(v, p)
        # dropped bits: towards zero, as int()
        if r != int(exact * scale) or not isinstance(r, int):
            raise Violation('to_fixed(%r, %d) is %r, expected %d' % (v, p, r, int(exact * scale)))
        raw = c['v']
        i = fx.fixed_to_int(raw, p)
        if i != math.floor(raw / scale) or not isinstance(i, int):
            raise Violation('fixed_to_int(%d, %d) is %r, expected %d' % (raw, p, i, math.floor(raw / scale)))
        low = fx.fixed_to_int_low(raw, p)
        if Fraction(i) + Fraction(low) / scale != Fraction(raw) / scale:
            raise Violation('the parts of %d with point %d are %r and %r' % (raw, p, i, low))
        if p > 0 and fx.fixed_to_real(raw, p) != float(raw / scale):
            raise Violation('fixed_to_real(%d, %d) is %r' % (raw, p, fx.fixed_to_real(raw, p)))
        if p >= 0:
            if c['k'] == 'int' and fx.fixed_to_int(fx.to_fixed(v, p), p) != v:
                raise Violation('%r is not restored with point %d' % (v, p))
            k = fx.FixedConst(v, p)
            if k.value != r or k.point != p or fx.FixedConst(raw, p, raw=True).value != raw:
                raise Violation('FixedConst(%r, %d) is %r' % (v, p, k.value))
        n += bool(r) and p != 0
    return dict(nontrivial=n > 2, labels=sorted(set('negative point' if c['p'] < 0 else c['k'] for c in cs)))


# ---------------------------------------------------------------- hardware
def fmt(d, sg):
    p = d.pick([0, 2, 4, d.int(0, 8)])
    return dict(w=max(p, d.pick([4, 8, 8, 12, d.int(2, 16)])), p=p, s=sg)


ARITH = ['+', '-', '*', 'neg', '<<', '>>', 'const', 'pos']
CMP = ['<', '>', '<=', '>=', '==', '!=']


@spec
def hw(d):
    sg = not d.chance(4)
    ins = [fmt(d, sg) for _ in range(d.int(1, 3))]

    def ex(depth):
        if depth == 0 or d.chance(3):
            if d.chance(4):
                return ['const', d.int(-40 if sg else 0, 40), d.int(0, 4), d.int(0, 8)]
            return ['v', d.int(0, len(ins) - 1)]
        k = d.pick(['+', '-', '*', '+', '-', '*', 'neg', 'pos', '<<', '>>', 'i'])
        if k in ('neg', 'pos'):
            return [k, ex(depth - 1)] if sg else ex(depth - 1)
        if k in ('<<', '>>'):
            return [k, ex(depth - 1), d.int(0, 3)]
        if k == 'i':
            return [d.pick(['+', '-', '*']), ex(depth - 1), ['int', d.int(0, 9)]]
        return [k, ex(depth - 1), ex(depth - 1)]
    outs = [[d.pick(['raw', 'write', 'assign', 'reg']), ex(d.int(0, 2)), d.int(0, 10)] for _ in range(d.int(1, 3))]
    for _ in range(d.int(0, 2)):
        outs.append(['cmp', d.pick(CMP), ['v', d.int(0, len(ins) - 1)], d.pick([['v', d.int(0, len(ins) - 1)], ['v', d.int(0, len(ins) - 1)],
                                                                               ['const', d.int(-40 if sg else 0, 40), d.int(0, 4), d.int(0, 8)]])])
    for _ in range(d.int(0, 2)):
        outs.append(['cmp', d.pick(CMP), ['v', d.int(0, len(ins) - 1)], ['int', d.int(0, 20)]])
    if d.chance(3):
        outs.append(['init', d.int(-40 if sg else 0, 40), d.int(0, 4), d.int(0, 8), d.int(0, 3)])
    if d.chance(3):
        outs.append(['conn', d.pick(['reg', 'wire']), ['v', d.int(0, len(ins) - 1)], d.int(0, 10)])
    if d.chance(4):
        outs.append(['div', ['v', d.int(0, len(ins) - 1)], d.pick([['v', d.int(0, len(ins) - 1)], ['const', d.int(1, 5), 0, d.int(0, 6)]]), 'whole'])
    for _ in range(d.int(0, 2)):
        outs.append([d.pick(['int', 'dec', 'real', 'toint', 'low', 'cast', 'rawbits', 'toreal']), ['v', d.int(0, len(ins) - 1)], d.int(0, 8)])
    return dict(s=sg, ins=ins, outs=outs, rows=[[d.int(0, 65535) for _ in ins] for _ in range(d.int(3, 8))])


def val(raw, f):
    raw &= (1 << f['w']) - 1
    if f['s'] and raw >> (f['w'] - 1):
        raw -= 1 << f['w']
    return raw


def ev(e, s, row):
    """(raw value, point)"""
    t = e[0]
    if t == 'v':
        f = s['ins'][e[1]]
        return val(row[e[1]], f), f['p']
    if t == 'const':
        return int(Fraction(e[1], 1 << e[2]) * (1 << e[3])), e[3]
    if t == 'int':
        return e[1], 0
    a, p = ev(e[1], s, row)
    if t == 'neg':
        return -a, p
    if t == 'pos':
        return a, p
    if t == '<<':
        return a << e[2], p
    if t == '>>':
        return a >> e[2], p
    b, q = ev(e[2], s, row)
    m = max(p, q)
    if t == '*':
        return (a * b) >> (p + q - m), m
    a, b = a << (m - p), b << (m - q)
    return (a + b if t == '+' else a - b), m


def run_hw(s):
    veriloggen.reset()
    m = Module('m')
    clk = m.Input('CLK')
    xs = [fx.FixedInput(m, 'x%d' % i, f['w'], f['p'], signed=f['s']) for i, f in enumerate(s['ins'])]

    def tr(e):
        t = e[0]
        if t == 'v':
            return xs[e[1]]
        if t == 'const':
            return fx.FixedConst(e[1] / (1 << e[2]) if e[2] else e[1], e[3], signed=s['s'])
        if t == 'int':
            return vt.Int(e[1], signed=True) if s['s'] else e[1]
        a = tr(e[1])
        if t == 'neg':
            return -a
        if t == 'pos':
            return +a
        if t == '<<':
            return a << e[2]
        if t == '>>':
            return a >> e[2] if s['s'] else fx._FixedSrl(a, e[2])
        b = tr(e[2])
        return a + b if t == '+' else a - b if t == '-' else a * b
    want, shows, setup = [], [], []
    for i, o in enumerate(s['outs']):
        t = o[0]
        n = 'o%d' % i
        if t in ('raw', 'write', 'assign', 'reg'):
            e = tr(o[1])
            if not isinstance(e, fx._FixedBase):
                want.append(None)
                continue
            p = o[2] if t != 'raw' else ev(o[1], s, [0] * 9)[1]
            if e.point != ev(o[1], s, [0] * 9)[1]:
                raise Violation('the point of %s is %s' % (o[1], e.point))
            if t == 'reg':
                y = fx.FixedOutputReg(m, n, W, p, signed=s['s'])
                m.Always(vt.Posedge(clk))(y(e))
            else:
                y = fx.FixedOutput(m, n, W, p, signed=s['s'])
                if t == 'raw':
                    y.assign_raw(e)
                elif t == 'write':
                    m.Assign(y.write(e))
                else:
                    y.assign(e)
            want.append((o[1], p))
            shows.append((n, '%0d'))
        elif t == 'init':
            y = fx.FixedOutputReg(m, n, W, o[3], signed=s['s'], initval=o[1] / (1 << o[2]))
            m.Always(vt.Posedge(clk))(y.reset())
            want.append(o)
            shows.append((n, '%0d'))
        elif t == 'conn':
            x = tr(o[2])
            y = (fx.FixedOutputReg if o[1] == 'reg' else fx.FixedOutput)(m, n, W, o[3], signed=s['s'])
            y.connect(x)
            want.append(o)
            shows.append((n, '%0d'))
        elif t == 'div':
            p = max(ev(o[1], s, [0] * 9)[1], ev(o[2], s, [0] * 9)[1])
            y = fx.FixedOutput(m, n, W, p, signed=s['s'])
            y.assign(tr(o[1]) / tr(o[2]))
            want.append(o)
            shows.append((n, '%0d'))
        elif t == 'cmp':
            y = m.Output(n)
            a, b = tr(o[2]), tr(o[3])
            y.assign({'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[o[1]]())
            want.append(o)
            shows.append((n, '%0d'))
        else:
            x = tr(o[1])
            f = s['ins'][o[1][1]]
            want.append(o)
            if t in ('real', 'toreal'):
                r = fx.fixed_to_real(x, x.point)
                m.Always(vt.Negedge(clk))(vt.Systask('display', 'F%d %%f' % i, r))
                continue
            y = m.Output(n, W, signed=s['s'])
            y.assign({'int': lambda: x.int_part if s['s'] else x >> f['p'] if False else fx.fixed_to_int(x, x.point), 'dec': lambda: x.dec_part, 'toint': lambda: fx.fixed_to_int(x, x.point),
                      'low': lambda: fx.fixed_to_int_low(x, x.point), 'rawbits': lambda: x.raw,
                      'cast': lambda: fx.reinterpret_cast_to_fixed(x, o[2], signed=s['s'])}[t]())
            shows.append((n, '%0d'))
    src = m.to_verilog()
    sg = 'signed ' if s['s'] else ''
    t = ['module tb; reg CLK; %s' % ' '.join('reg [%d:0] x%d;' % (f['w'] - 1, i) for i, f in enumerate(s['ins']))]
    for n, _ in shows:
        t.append('  wire %s[%d:0] %s;' % ('' if s['outs'][int(n[1:])][0] == 'cmp' else sg, 0 if s['outs'][int(n[1:])][0] == 'cmp' else W - 1, n))
    t.append('  m u(.CLK(CLK)%s%s);' % (''.join(', .x%d(x%d)' % (i, i) for i in range(len(xs))), ''.join(', .%s(%s)' % (n, n) for n, _ in shows)))
    t.append('  initial begin CLK = 0;')
    for row in s['rows']:
        t.append('    %s #1 CLK = 1; #1 CLK = 0; #1;' % ' '.join('x%d = %d;' % (i, row[i] & ((1 << f['w']) - 1)) for i, f in enumerate(s['ins'])))
        for n, f in shows:
            t.append('    $display("%s %s", %s);' % (n, f, n))
        t.append('    $display("ROW");')
    t.append('  $display("END"); end\nendmodule')
    out = sim.compile_and_run(src + '\n'.join(t) + '\n', top='tb')
    if 'END' not in out:
        raise Violation('simulation failed ' + out[:200])
    blocks = [[l.split() for l in b.splitlines() if l.strip()] for b in out.split('ROW\n')[:len(s['rows'])]]
    for row, b in zip(s['rows'], blocks):
        got = {l[0]: l[1] for l in b}
        for i, (o, w) in enumerate(zip(s['outs'], want)):
            if w is None:
                continue
            t = o[0]
            if t in ('raw', 'write', 'assign', 'reg'):
                v, p = ev(o[1], s, row)
                q = w[1]
                e = v << (q - p) if q >= p else v >> (p - q)
                if not s['s'] and v < 0:
                    continue  # wraps around; how far depends on the width of the context
                if not s['s']:
                    e &= (1 << W) - 1
                g = int(got['o%d' % i])
            elif t == 'init':
                e = int(Fraction(o[1], 1 << o[2]) * (1 << o[3]))
                g = int(got['o%d' % i])
            elif t == 'conn':
                v, p = ev(o[2], s, row)
                e = v << (o[3] - p) if o[3] >= p else v >> (p - o[3])
                g = int(got['o%d' % i])
            elif t == 'div':
                (a, p), (b, q) = ev(o[1], s, row), ev(o[2], s, row)
                if b == 0:
                    continue
                quo = Fraction(a, 1 << p) / Fraction(b, 1 << q) * (1 << max(p, q))
                if o[3] == 'whole' and quo % (1 << max(p, q)):
                    continue  # known finding: the fraction of a quotient is lost
                e, g = int(quo), int(got['o%d' % i])
            elif t == 'cmp':
                (a, p), (c, q) = ev(o[2], s, row), ev(o[3], s, row)
                a, c = Fraction(a, 1 << p), Fraction(c, 1 << q)
                e = int({'<': a < c, '>': a > c, '<=': a <= c, '>=': a >= c, '==': a == c, '!=': a != c}[o[1]])
                g = int(got['o%d' % i])
            else:
                f = s['ins'][o[1][1]]
                raw = val(row[o[1][1]], f)
                if t in ('real', 'toreal'):
                    e = '%f' % (raw / (1 << f['p']))
                    g = got['F%d' % i]
                else:
                    e = {'int': raw >> f['p'], 'toint': raw >> f['p'], 'dec': raw & ((1 << f['p']) - 1), 'low': raw & ((1 << f['p']) - 1),
                         'rawbits': raw & ((1 << f['w']) - 1), 'cast': raw >> o[2]}[t]
                    g = int(got['o%d' % i])
            if g != e:
                raise Violation('%s of %s is %s, expected %s\n%s\n%s' % (o, [(val(r, f), f) for r, f in zip(row, s['ins'])], g, e, src, s))
    return dict(nontrivial=any(any(r) for r in s['rows']), labels=sorted(set(o[0] for o in s['outs'])) + ['signed' if s['s'] else 'unsigned'])


PARTS = [Part('numbers', num(), run_num, quick=3000, thorough=60000), Part('hardware', hw(), run_hw, quick=1500, thorough=40000)]

if __name__ == '__main__':
    main('C23', PARTS,
         rule='numbers: conversions of integers and binary fractions with points from -6 to 20; hardware: expressions of +, -, *, shifts, negation, comparisons over 1-3 '
              'operands with random widths and points, written to results with random points, conversions to integers and reals; non-trivial = not all values are zero',
         assumptions=['results are 64 bits wide, so nothing is lost above', 'all operands are signed or all are unsigned'])
