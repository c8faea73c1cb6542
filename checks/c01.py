"""C01: expressions mean in hardware what they say in Python.

Oracle: an independent, fully parenthesised rendering of the same tree, simulated side by side
with the emitted module on the same stimulus and compared with === on every output.
"""
import json
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

import veriloggen as vg
from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt

BOPS = {  # name -> (class, verilog mark, python operator or None)
    'Power': '**', 'Times': '*', 'Divide': '/', 'Mod': '%', 'Plus': '+', 'Minus': '-',
    'Sll': '<<', 'Srl': '>>', 'Sra': '>>>',
    'LessThan': '<', 'GreaterThan': '>', 'LessEq': '<=', 'GreaterEq': '>=',
    'Eq': '==', 'NotEq': '!=', 'Eql': '===', 'NotEql': '!==',
    'And': '&', 'Xor': '^', 'Xnor': '~^', 'Or': '|', 'Land': '&&', 'Lor': '||'}
PYOP = {'Power': lambda a, b: a ** b, 'Times': lambda a, b: a * b, 'Divide': lambda a, b: a / b,
        'Mod': lambda a, b: a % b, 'Plus': lambda a, b: a + b, 'Minus': lambda a, b: a - b,
        'Sll': lambda a, b: a << b, 'Srl': lambda a, b: a >> b,
        'LessThan': lambda a, b: a < b, 'GreaterThan': lambda a, b: a > b,
        'LessEq': lambda a, b: a <= b, 'GreaterEq': lambda a, b: a >= b,
        'Eq': lambda a, b: a == b, 'NotEq': lambda a, b: a != b,
        'And': lambda a, b: a & b, 'Xor': lambda a, b: a ^ b, 'Or': lambda a, b: a | b}
# int on the left: Python swaps the comparison operands, which denotes the same relation
SWAP = {'LessThan': 'GreaterThan', 'GreaterThan': 'LessThan', 'LessEq': 'GreaterEq',
        'GreaterEq': 'LessEq', 'Eq': 'Eq', 'NotEq': 'NotEq'}
UOPS = {'Uplus': '+', 'Uminus': '-', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&',
        'Uor': '|', 'Unor': '~|', 'Uxor': '^', 'Uxnor': '~^'}

ADIM = 4
AW = 5

# ---------------------------------------------------------------------------------------------


def width(d):
    k = d.int(0, 2)
    return None if k == 0 else d.int(1, 9) if k == 1 else d.pick([16, 31, 32, 33, 64])


def variables(d):
    n = d.int(1, 5)
    vs = []
    for i in range(n):
        w = width(d)
        vs.append([w, d.bool() if w is not None else False])
    return vs


def lit_sized(d):
    w = d.int(1, 36)
    signed = d.bool()
    v = d.int(0, (1 << w) - 1)
    return ['Int', v, w, d.pick([None, 2, 8, 10, 16]), signed]


def expr(d, vs, depth, sized):
    """sized: every leaf has a definite width (operand of a concatenation)."""
    if depth <= 0 or d.int(0, 7) == 0:
        k = d.int(0, 9)
        if k <= 5 or sized:
            if sized and k >= 8:
                return lit_sized(d)
            if k == 5:
                return ['par', d.int(0, 1)] if not sized else ['v', d.int(0, len(vs) - 1)]
            return ['v', d.int(0, len(vs) - 1)]
        if k == 6:
            return lit_sized(d)
        if k == 7:
            return ['bool', d.bool()]
        return ['int', d.int(-9, 40)]
    k = d.int(0, 15)

    def sub():
        return expr(d, vs, depth - 1, sized)
    if k <= 5:
        op = d.pick(sorted(BOPS))
        if op == 'Power':
            return ['bop', op, sub(), ['Int', d.int(0, 3), 2, None, False], d.bool()]
        if op in ('Sll', 'Srl', 'Sra') and d.bool() and not sized:
            return ['bop', op, sub(), ['int', d.int(0, 9)], d.bool()]
        return ['bop', op, sub(), sub(), d.bool()]
    if k <= 7:
        return ['un', d.pick(sorted(UOPS)), sub(), d.bool()]
    vec = [i for i, (w, s) in enumerate(vs) if w is not None and w >= 2]
    if k <= 10 and vec:
        i = d.pick(vec)
        w = vs[i][0]
        kk = d.int(0, 5)
        if kk == 0:
            return ['bit', i, d.int(-w, w - 1)]
        if kk == 1:
            return ['bitv', i, expr(d, vs, min(depth - 1, 1), False)]
        lo = d.int(0, w - 1)
        hi = d.int(lo, w - 1)
        if kk == 2:
            return ['slice', i, hi, lo]
        if kk == 3:   # Python slicing, negative and missing bounds included
            a = d.pick([lo, lo - w] + ([None] if lo == 0 else []))
            b = d.pick([hi + 1] + ([hi + 1 - w] if hi + 1 < w else [None]))
            return ['py', i, a, b, None]
        if kk == 4:
            return ['py', i, lo, hi + 1, d.int(1, 3)]
        return ['slicem', i, hi, lo]
    if k == 11:
        return ['cat', [expr(d, vs, depth - 1, True) for _ in range(d.int(1, 3))]]
    if k == 12:
        return ['rep', expr(d, vs, depth - 1, True), d.int(1, 4), d.bool()]
    if k == 13:
        return [d.pick(['mux', 'cond']), expr(d, vs, depth - 1, False), sub(), sub()]
    if k == 14:
        kk = d.int(0, 5)
        if kk == 0:
            return ['ands', [sub() for _ in range(d.int(1, 3))]]
        if kk == 1:
            return ['ors', [sub() for _ in range(d.int(1, 3))]]
        if kk == 2:
            return ['not', sub()]
        if kk == 3:
            return ['sgn', expr(d, vs, depth - 1, sized)]
        if kk == 4:
            return ['pmux', [[expr(d, vs, depth - 1, False), sub()] for _ in range(d.int(0, 2))], sub()]
        return ['arr', d.int(0, 1), aindex(d, vs)]
    kk = d.int(0, 3)
    if kk == 0:
        return ['arr', d.int(0, 1), aindex(d, vs)]
    if kk == 1:
        return ['arrbit', d.int(0, 1), aindex(d, vs), d.int(-5, 4)]
    if kk == 2 and not sized:
        return ['abs', sub()]
    if d.bool():
        if d.bool():
            a = d.int(0, 2)
            return ['row', d.int(-2, 1), a, d.int(a + 1, 3)]
        return ['arr2', d.int(-2, 1), d.int(-3, 2)]
    return ['call', sub(), sub()]


def aindex(d, vs):
    """array index: a Python int within the array, or something computed from variables"""
    if d.int(0, 3) == 0:
        return ['int', d.int(-ADIM, ADIM - 1)]
    e = ['v', d.int(0, len(vs) - 1)]
    if d.bool():
        return e
    op = d.pick(['Plus', 'And', 'Xor', 'Minus', 'Srl', 'Mod'])
    return ['bop', op, e, d.pick([['int', 3], ['int', 1], ['par', 0], ['v', 0]]), True]


@spec
def case(d):
    vs = variables(d)
    n = d.int(1, 14)
    exprs = []
    for _ in range(n):
        e = expr(d, vs, d.int(1, 4), False)
        exprs.append([d.pick([1, 4, 8, 17, 32, 40, 70]), d.bool(), e,
                      d.pick(['assign', 'assign', 'wire', 'always', 'port'])])
    vals = [[d.int(0, (1 << (w or 1)) - 1) for (w, s) in vs] for _ in range(3)]
    return dict(vars=vs, exprs=exprs, vals=vals, seed=d.int(0, 1 << 20),
                par=[d.int(-5, 9), d.int(0, 200)])


# --------------------------------------------------------------------------- builder (veriloggen)
class B(object):
    def __init__(self, env):
        self.env = env

    def __call__(self, e):
        return getattr(self, 'b_' + e[0])(*e[1:])

    def b_v(self, i): return self.env['v'][i]
    def b_par(self, i): return self.env['p'][i]
    def b_int(self, n): return n
    def b_bool(self, n): return bool(n)
    def b_Int(self, v, w, b, s): return Int(v, w, b, s)

    def b_bop(self, op, a, b, style):
        a, b = self(a), self(b)
        if style and op in PYOP and (isinstance(a, vt._Numeric) or isinstance(b, vt._Numeric)):
            return PYOP[op](a, b)
        if style and op == 'Sra' and isinstance(a, vt._Numeric):
            return a.sra(b)
        return getattr(vt, op)(a, b)

    def b_un(self, op, a, style):
        a = self(a)
        if style and isinstance(a, vt._Numeric):
            if op == 'Uminus':
                return -a
            if op == 'Uplus':
                return +a
            if op == 'Unot':
                return ~a
        return getattr(vt, op)(a)

    def b_bit(self, i, p): return self.env['v'][i][p]
    def b_bitv(self, i, e): return self.env['v'][i][self(e)]
    def b_slice(self, i, m, l): return Slice(self.env['v'][i], m, l)
    def b_slicem(self, i, m, l): return self.env['v'][i].slice(m, l)
    def b_py(self, i, a, b, s): return self.env['v'][i][slice(a, b, s)]
    def b_cat(self, es): return Cat(*[self(e) for e in es])

    def b_rep(self, e, n, style):
        x = self(e)
        return x.repeat(n) if style and isinstance(x, vt._Numeric) else Repeat(x, n)

    def b_mux(self, c, t, f): return Mux(self(c), self(t), self(f))
    def b_cond(self, c, t, f): return Cond(self(c), self(t), self(f))
    def b_ands(self, es): return Ands(*[self(e) for e in es])
    def b_ors(self, es): return Ors(*[self(e) for e in es])
    def b_not(self, e): return Not(self(e))
    def b_sgn(self, e): return vt.Signed(self(e))

    def b_pmux(self, ps, d):
        pats = [(self(c), self(x)) for c, x in ps] + [(None, self(d))]
        return vt.PatternMux(pats) if len(ps) != 1 else vt.PatternMux(*pats)

    def b_arr(self, k, e): return self.env['a'][k][self(e)]
    def b_arrbit(self, k, e, p): return self.env['a'][k][self(e)][p]

    def b_arr2(self, i, j): return self.env['b2'][i][j]

    def b_row(self, i, a, b):   # iterate over a row of a two-dimensional array
        return Cat(*reversed([x for x in self.env['b2'][i]][a:b]))

    def b_abs(self, e):
        x = self(e)
        return abs(x) if isinstance(x, vt._Numeric) else vt.Abs(x)

    def b_call(self, a, b): return self.env['f'](self(a), self(b))


# --------------------------------------------------------------------------- oracle (own printer)
def pr_int(n):
    return str(n) if n >= 0 else '(-%d)' % -n


def fold(e):
    """the Python number a subtree already is before any hardware is built (else None)"""
    if e[0] in ('int', 'bool'):
        return int(e[1])
    if e[0] in ('ands', 'ors') and len(e[1]) == 1:
        return fold(e[1][0])
    if e[0] == 'mux' and fold(e[1]) is not None:
        return fold(e[2] if fold(e[1]) else e[3])
    if e[0] == 'pmux':
        for c, x in e[1]:
            if fold(c) is None:
                return None
            if fold(c):
                return fold(x)
        return fold(e[2])
    if e[0] == 'abs' and fold(e[1]) is not None:
        return abs(fold(e[1]))
    return None


class R(object):
    def __init__(self, vs):
        self.vs = vs

    def __call__(self, e):
        return getattr(self, 'r_' + e[0])(*e[1:])

    def r_v(self, i): return 'v%d' % i
    def r_par(self, i): return 'P%d' % i
    def r_int(self, n): return pr_int(n)
    def r_bool(self, n): return '1' if n else '0'

    def r_Int(self, v, w, b, s):
        return "%d'%sh%x" % (w, 's' if s else '', v)

    def r_bop(self, op, a, b, style): return '(%s %s %s)' % (self(a), BOPS[op], self(b))
    def r_un(self, op, a, style): return '(%s(%s))' % (UOPS[op], self(a))
    def r_bit(self, i, p): return 'v%d[%d]' % (i, p if p >= 0 else self.vs[i][0] + p)
    def r_bitv(self, i, e):
        n = fold(e)
        return 'v%d[%s]' % (i, str(self.vs[i][0] + n) if n is not None and n < 0 else self(e))

    def r_slice(self, i, m, l): return 'v%d[%d:%d]' % (i, m, l)
    r_slicem = r_slice

    def r_py(self, i, a, b, s):
        w = self.vs[i][0]
        if s is None:
            lo, hi = slice(a, b).indices(w)[:2]
            return 'v%d[%d:%d]' % (i, hi - 1, lo)
        idx = list(range(w))[slice(a, b, s)]
        return '{%s}' % ', '.join('v%d[%d]' % (i, k) for k in reversed(idx))

    def r_cat(self, es): return '{%s}' % ', '.join(self(e) for e in es)
    def r_rep(self, e, n, style): return '{%d{%s}}' % (n, self(e))
    def r_cond(self, c, t, f): return '((%s) ? (%s) : (%s))' % (self(c), self(t), self(f))

    def r_mux(self, c, t, f):
        if fold(c) is not None:
            return self(t) if fold(c) else self(f)
        return self.r_cond(c, t, f)

    def r_ands(self, es): return '(%s)' % ' && '.join('(%s)' % self(e) for e in es)
    def r_ors(self, es): return '(%s)' % ' || '.join('(%s)' % self(e) for e in es)
    def r_not(self, e): return '(!(%s))' % self(e)
    def r_sgn(self, e): return '$signed(%s)' % self(e)

    def r_pmux(self, ps, d):
        out = self(d)
        for c, x in reversed(ps):
            if fold(c) is not None:
                out = self(x) if fold(c) else out
            else:
                out = '((%s) ? (%s) : (%s))' % (self(c), self(x), out)
        return out

    def aidx(self, e):   # Python-style negative indices count from the end of the array
        n = fold(e)
        return str(ADIM + n) if n is not None and n < 0 else self(e)

    def r_arr(self, k, e): return 'a%d[%s]' % (k, self.aidx(e))
    def r_arrbit(self, k, e, p): return 'a%d[%s][%d]' % (k, self.aidx(e), p if p >= 0 else AW + p)
    def r_arr2(self, i, j): return 'b2[%d][%d]' % (i if i >= 0 else 2 + i, j if j >= 0 else 3 + j)
    def r_row(self, i, a, b): return '{%s}' % ', '.join(
        'b2[%d][%d]' % (i if i >= 0 else 2 + i, k) for k in reversed(list(range(3))[a:b]))

    def r_abs(self, e):
        if fold(e) is not None:
            return pr_int(abs(fold(e)))
        x = self(e)
        return "(((%s) < 32'sd0) ? (~(%s) + 1) : (%s))" % (x, x, x)

    def r_call(self, a, b): return 'fn(%s, %s)' % (self(a), self(b))


def nontriv(e):
    """two or more operator levels"""
    def depth(x):
        if isinstance(x, list) and x and isinstance(x[0], str):
            return (0 if x[0] in ('v', 'int', 'Int', 'bool', 'par') else 1) + max(
                [depth(y) for y in x[1:]] or [0])
        if isinstance(x, list):
            return max([depth(y) for y in x] or [0])
        return 0
    return depth(e) >= 2


def ops_in(e, acc):
    if isinstance(e, list):
        if e and isinstance(e[0], str):
            acc.add(e[0] if e[0] not in ('bop', 'un') else e[1])
        for x in e[1:] if e and isinstance(e[0], str) else e:
            ops_in(x, acc)
    return acc




def run(spec):
    vs = spec['vars']
    m = Module('dut')
    p0 = m.Parameter('P0', spec['par'][0])
    p1 = m.Localparam('P1', spec['par'][1])
    vv = [m.Input('v%d' % i, w, signed=s) if w is not None else m.Input('v%d' % i)
          for i, (w, s) in enumerate(vs)]
    sub = Module('pass')
    sub.Parameter('W', 8)
    subi = sub.Input('i', sub.get_params()['W'])
    subo = sub.Output('o', sub.get_params()['W'])
    sub.Assign(subo(subi))
    arrs = [m.Reg('a%d' % k, AW, ADIM, signed=bool(k)) for k in range(2)]
    m.Initial(*[arrs[k][j](Int((7 * j + 11 * k + 3) % 32, AW)) for k in range(2) for j in range(ADIM)])
    b2 = m.Reg('b2', AW, (2, 3))
    m.Initial(*[b2[j][k](Int((5 * j + 9 * k + 1) % 32, AW)) for j in range(2) for k in range(3)])
    fn = m.Function('fn', 12)
    fa = fn.Input('fa', 6)
    fb = fn.Input('fb', 9)
    fn.Body(fn(fa + fb))
    b = B(dict(v=vv, p=[p0, p1], a=arrs, b2=b2, f=fn.call))
    r = R(vs)
    ref = []
    outs = []
    for k, (w, s, e, ctx) in enumerate(spec['exprs']):
        x = b(e)
        t = r(e)
        sg = ' signed' if s else ''
        if ctx == 'assign':
            y = m.Output('y%d' % k, w, signed=s)
            m.Assign(y(x))
            ref.append('assign y%d = %s;' % (k, t))
        elif ctx == 'wire':
            y = m.Output('y%d' % k, w, signed=s)
            z = m.Wire('z%d' % k, w, signed=s)
            z.assign(x)
            y.assign(z)
            ref.append('wire%s [%d:0] z%d; assign z%d = %s; assign y%d = z%d;' % (sg, w - 1, k, k, t, k, k))
        elif ctx == 'always':
            y = m.OutputReg('y%d' % k, w, signed=s)
            m.Always()(y(x, blk=True))
            ref.append('always @* begin y%d = %s; end' % (k, t))
        else:
            y = m.Output('y%d' % k, w, signed=s)
            m.Instance(sub, 'u%d' % k, params=[('W', w)], ports=[('i', x), ('o', y)])
            ref.append('pass #(.W(%d)) u%d (.i(%s), .o(y%d));' % (w, k, t, k))
        outs.append((k, w, sg, ctx))
    text = m.to_verilog()
    decl = ['input%s %s v%d' % (' signed' if s else '', '[%d:0]' % (w - 1) if w is not None else '', i)
            for i, (w, s) in enumerate(vs)]
    decl += ['output%s%s [%d:0] y%d' % (' reg' if ctx == 'always' else '', sg, w - 1, k) for k, w, sg, ctx in outs]
    body = ['module refm #(parameter P0 = %s) (%s);' % (pr_int(spec['par'][0]), ',\n'.join(decl)),
            'localparam P1 = %s;' % pr_int(spec['par'][1])]
    for k in range(2):
        body.append('reg%s [%d:0] a%d [0:%d];' % (' signed' if k else '', AW - 1, k, ADIM - 1))
    body.append('initial begin %s end' % ' '.join(
        "a%d[%d] = 5'd%d;" % (k, j, (7 * j + 11 * k + 3) % 32) for k in range(2) for j in range(ADIM)))
    body.append('reg [%d:0] b2 [0:1][0:2];' % (AW - 1))
    body.append('initial begin %s end' % ' '.join(
        "b2[%d][%d] = 5'd%d;" % (j, k, (5 * j + 9 * k + 1) % 32) for j in range(2) for k in range(3)))
    body.append('function [11:0] fn; input [5:0] fa; input [8:0] fb; begin fn = fa + fb; end endfunction')
    body += ref + ['endmodule']
    tb = ['module tb;', 'integer seed; integer n;']
    for i, (w, s) in enumerate(vs):
        tb.append('reg%s %s v%d;' % (' signed' if s else '', '[%d:0]' % (w - 1) if w is not None else '', i))
    for k, w, sg, ctx in outs:
        tb.append('wire [%d:0] yd%d, yr%d;' % (w - 1, k, k))
    vc = ', '.join('.v%d(v%d)' % (i, i) for i in range(len(vs)))
    tb.append('dut d(%s);' % ', '.join([vc] + ['.y%d(yd%d)' % (k, k) for k, _, _, _ in outs]))
    tb.append('refm r(%s);' % ', '.join([vc] + ['.y%d(yr%d)' % (k, k) for k, _, _, _ in outs]))
    tb.append('task chk; begin #1;')
    for k, _, _, _ in outs:
        tb.append('if (yd%d !== yr%d) $display("BAD %d got %%h want %%h  inputs %s", yd%d, yr%d, %s);' % (
            k, k, k, ' '.join('%h' for _ in vs), k, k, ', '.join('v%d' % i for i in range(len(vs)))))
    tb.append('end endtask')
    tb.append('initial begin seed = %d;' % spec['seed'])
    for row in spec['vals']:
        tb.append(' '.join("v%d = %d'h%x;" % (i, vs[i][0] or 1, x) for i, x in enumerate(row)) + ' chk;')
    tb.append('for (n = 0; n < 24; n = n + 1) begin')
    for i, (w, s) in enumerate(vs):
        tb.append('v%d = {$random(seed), $random(seed), $random(seed)} >> ((n %% 4 == 3) ? 90 : 0);' % i)
    tb.append('chk; end $display("DONE"); $finish; end endmodule')
    out = sim.compile_and_run('\n'.join([text] + body + tb), top='tb')
    if 'DONE' not in out:
        raise Violation('simulation did not complete: %s' % out[:500])
    bad = [l for l in out.splitlines() if l.startswith('BAD')]
    if bad:
        k = int(bad[0].split()[1])
        raise Violation('expression %d differs from its meaning: %s\nreference: %s\nemitted:\n%s' % (
            k, bad[0], ref[k], '\n'.join(l for l in text.splitlines() if 'y%d' % k in l or 'z%d' % k in l)[:1500]))
    acc = set()
    ops_in([e for _, _, e, _ in spec['exprs']], acc)
    return dict(nontrivial=any(nontriv(e) for _, _, e, _ in spec['exprs']), labels=sorted(acc))


PARTS = [Part('expr', case(), run, quick=5000, thorough=120000)]

if __name__ == '__main__':
    main('C01', PARTS,
         rule='1-14 random operator trees (depth<=4) over 1-5 variables of random width/sign, in four '
              'contexts, 27 stimulus vectors each; non-trivial = some tree nests >=2 operators',
         assumptions=['Icarus Verilog 12 evaluates expressions per IEEE 1364-2005 (both sides use it)',
                      'the ** exponent is limited to 0..3'])
