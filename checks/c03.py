"""C03: procedural code executes exactly as described.

Oracle: an independent rendering of the same statement trees with every branch and body in its own begin/end,
simulated side by side with the emitted module; every register, array element and $display line is compared.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt
from checks import c01
from checks.c01 import pr_int, ADIM, AW

MDIM = 4
MW = 5


# --------------------------------------------------------------------------- strategies
def ex(d, vs, nms, depth=None):
    depth = d.int(0, 2) if depth is None else depth
    k = d.int(0, 9)
    if nms and k <= 3:
        nm = ['nm', d.pick(nms)]
        if k == 0:
            return nm
        return ['bop', d.pick(['Plus', 'Minus', 'And', 'Or', 'Xor', 'LessThan', 'Eq', 'NotEq']), nm,
                c01.expr(d, vs, max(depth - 1, 0), False), True]
    return c01.expr(d, vs, depth, False)


def target(d, regs, arrs, vs, nms, cat=True):
    """regs: [(name, width or None)] assignable; arrs: [name]"""
    k = d.int(0, 9)
    if arrs and k == 0:
        idx = (['int', d.int(-MDIM, MDIM - 1)] if d.bool() else
               ['bop', 'And', ['v', d.int(0, len(vs) - 1)], ['int', 3], True])
        return ['ael', d.pick(arrs), idx]
    if cat and k == 1:
        return ['tcat', [target(d, regs, arrs, vs, nms, False) for _ in range(d.int(2, 3))]]
    name, w = d.pick(regs)
    if w is None or k <= 5:
        return ['t', name]
    if k == 6:
        return ['tbit', name, d.int(-w, w - 1)]
    if k == 7:
        return ['tbitv', name, d.int(0, len(vs) - 1), w]
    lo = d.int(0, w - 1)
    hi = d.int(lo, w - 1)
    return ['tsl', name, hi, lo, d.int(0, 2)]


class Ctx(object):
    def __init__(self, vs, nb, blk, arrs, nms, kind, loops, labels):
        self.vs, self.nb, self.blk, self.arrs = vs, nb, blk, arrs
        self.nms, self.kind, self.loops, self.labels = nms, kind, loops, labels


def stmts(d, c, depth, loops, lo=0, hi=3):
    n = d.int(lo, hi)
    return [stmt(d, c, depth, loops) for _ in range(n)]


def assign(d, c):
    """kind: sync (nb and blk targets), comb/init/func/task (blocking)"""
    blk = bool(c.blk) and (not c.nb or d.int(0, 2) == 0)
    t = target(d, c.blk if blk else c.nb, c.arrs if (not blk or not c.nb) else [], c.vs, c.nms,
                    c.kind != 'func')
    dl = [0, 0]
    if c.kind == 'sync' and d.int(0, 11) == 0:
        dl = [0, 1]
    if c.kind == 'init' and d.int(0, 3) == 0:
        dl = d.pick([[10, 0], [0, 10], [20, 10]])
    return ['as', t, ex(d, c.vs, c.nms), blk, dl, d.int(0, 2)]


def stmt(d, c, depth, loops):
    k = d.int(0, 13)
    if depth <= 0 or k <= 4:
        return assign(d, c)

    def sub():
        return stmts(d, c, depth - 1, loops)

    if k <= 8:
        br = [[ex(d, c.vs, c.nms), sub()] for _ in range(d.int(1, 3))]
        el = (None if d.bool() else sub())
        return ['if', br, el, d.int(0, 4)]
    if k <= 10:
        x = d.bool()
        labels = []
        for _ in range(d.int(1, 4)):
            cs = []
            for _ in range(d.int(1, 2)):
                if x and d.bool():
                    w = d.int(1, 5)
                    cs.append(['pat', w, ''.join(d.pick('01x') for _ in range(w))])
                else:
                    cs.append(['int', d.int(0, 9)] if d.bool() else ex(d, c.vs, c.nms, 1))
            labels.append([cs, sub()])
        return ['case', x, ex(d, c.vs, c.nms, 1), labels, (None if d.bool() else sub()), d.int(0, 2)]
    if k == 11 and loops:
        lv = loops[0]
        return ['for', lv, d.int(-1, 1), d.int(0, 4),
                stmts(d, Ctx(c.vs, c.nb, c.blk, c.arrs, c.nms + [lv], c.kind, c.loops, c.labels), depth - 1, loops[1:]),
                d.int(0, 2)]
    if k == 12 and loops:
        lv = loops[0]
        return ['while', lv, d.int(0, 4),
                stmts(d, Ctx(c.vs, c.nb, c.blk, c.arrs, c.nms + [lv], c.kind, c.loops, c.labels), depth - 1, loops[1:]),
                d.bool()]
    if k == 13 and c.kind in ('sync', 'init'):
        return ['disp', d.bool(), [ex(d, c.vs, c.nms, 1) for _ in range(d.int(0, 2))]]
    return assign(d, c)


def initial(d, c):
    out = []
    waits = 0
    for _ in range(d.int(1, 6)):
        k = d.int(0, 9)
        if k <= 4:
            out.append(stmt(d, c, 2, ['li0', 'li1']))
        elif k <= 6:
            out.append(['delay', 10 * d.int(1, 3)])
        elif waits < 2:
            waits += 1
            i = d.int(0, len(c.vs) - 1)
            if k == 7:
                out.append(['wait', ['bop', 'NotEq', ['v', i], ['int', 0], True],
                            None if d.bool() else stmts(d, c, 1, [])])
            else:
                out.append(['event', d.pick(['pos', 'neg', 'any', 'clk', 'two']), i])
    if d.bool():
        out.append(['forever', stmts(d, c, 1, [], 1, 2), 10])
    return out


@spec
def case(d):
    ni = d.int(1, 3)
    nsh = 4

    def var():
        w = c01.width(d)
        return [w, d.bool() if w is not None else False]
    vs = [var() for _ in range(ni + nsh)]
    priv = {n: d.pick([3, 8, 12]) for n in ('k0', 'k1', 'c0', 'c1', 'd0', 't0', 't1', 'u0')}
    ins = vs[:ni]
    sh = [('v%d' % i, vs[i][0]) for i in range(ni, ni + nsh)]
    special = ['rst', 'first']

    def C(ivs, nb, blk, arrs, kind, more=()):
        return Ctx(ivs, nb, [(n, priv[n]) for n in blk], arrs, list(blk) + special + list(more), kind, [], None)
    A = C(vs, sh[:2], ['k0'], ['m0'], 'sync')
    Bc = C(vs, sh[2:], ['k1'], ['m1'], 'sync')
    Cc = C(vs, [], ['c0', 'c1'], [], 'comb')
    Dc = C(ins, [], ['d0'], [], 'comb')
    Ic = C(ins, [], ['t0', 't1'], ['mi'], 'init')
    Tc = C(ins, [], ['u0'], [], 'task', ['ta', 'tb'])
    Fc = Ctx(ins, [], [('fr', 8), ('fnb', None)], [], ['ga', 'gb', 'fr'], 'func', [], None)
    blocks = dict(
        A=stmts(d, A, 3, ['la0', 'la1'], 1, 4),
        B=stmts(d, Bc, 3, ['lb0', 'lb1'], 0, 4),
        C=stmts(d, Cc, 3, ['lc0', 'lc1'], 0, 4),
        D=stmts(d, Dc, 2, [], 0, 3),
        I=initial(d, Ic),
        T=stmts(d, Tc, 2, ['lt0'], 0, 3),
        F=stmts(d, Fc, 2, ['lf0'], 1, 3))
    return dict(ni=ni, vs=vs, priv=priv, blocks=blocks,
                edge=[d.pick(['pos', 'neg', 'posrst', 'both']) for _ in range(2)],
                sens=[d.pick(['none', 'all']), d.subset(range(ni), 1)],
                call=[ex(d, ins, [], 1), ex(d, ins, [], 1), d.int(0, 2)],
                fcall=[ex(d, vs, [], 1), ex(d, vs, [], 1)],
                seed=d.int(0, 1 << 20))


# --------------------------------------------------------------------------- builder (veriloggen)
class B(c01.B):
    def b_nm(self, n): return self.env['nm'][n]


class SB(object):
    """statement builder"""

    def __init__(self, env, side, block):
        self.e = B(env)
        self.env = env
        self.side, self.block = side, block
        self.kind = 'sync'

    def many(self, l): return [self(s) for s in l]
    def __call__(self, s): return getattr(self, 's_' + s[0])(*s[1:])

    def tgt(self, t):
        nm = self.env['nm']
        k = t[0]
        if k == 't':
            return nm[t[1]]
        if k == 'tbit':
            return nm[t[1]][t[2]]
        if k == 'tbitv':
            return nm[t[1]][self.env['v'][t[2]] % t[3]]
        if k == 'tsl':
            if t[4] == 0:
                return nm[t[1]][t[3]:t[2] + 1]
            return Slice(nm[t[1]], t[2], t[3]) if t[4] == 1 else nm[t[1]].slice(t[2], t[3])
        if k == 'ael':
            return nm[t[1]][self.e(t[2])]
        return Cat(*[self.tgt(x) for x in t[1]])

    def s_as(self, t, e, blk, d, style):
        t, e = self.tgt(t), self.e(e)
        kw = {}
        if d[0]:
            kw['ldelay'] = d[0]
        if d[1]:
            kw['rdelay'] = d[1]
        if style == 2 and not kw:
            return t.write(e, blk=blk) if hasattr(t, 'write') and isinstance(t, vt._Numeric) else t(e)
        if not isinstance(t, vt._Numeric):   # function result
            return t(e)
        if style == 1:
            return Subst(t, e, blk=blk, **kw)
        return t(e, blk=blk, **kw)

    def s_if(self, br, el, style):
        br = [(self.e(c), self.many(b)) for c, b in br]
        el = self.many(el) if el is not None else None
        if style == 2:
            pats = br + ([(None, el)] if el is not None else [])
            return PatternIf(pats) if len(pats) == 1 or len(pats[0][1]) == 1 else PatternIf(*pats)
        if style == 1:      # nested Else(If)
            out = el
            for c, b in reversed(br):
                x = If(c)(*b)
                if out is not None:
                    x.Else(*out)
                out = [x]
            return out[0]
        if style == 3:      # two-call form with a list
            out = el
            for c, b in reversed(br):
                x = If(c)(b)
                if out is not None:
                    x(out)
                out = [x]
            return out[0]
        x = If(br[0][0])(*br[0][1])
        for c, b in br[1:]:
            x = x.Elif(c)(*b)
        if el is not None:
            x = x.Else(*el) if style == 0 else x.Else(el)
        return x

    def lab(self, c):
        if c[0] == 'pat':
            return Int("%d'b%s" % (c[1], c[2]))
        return self.e(c)

    def s_case(self, x, comp, labels, default, style):
        whens = []
        for cs, b in labels:
            w = When(*[self.lab(c) for c in cs])
            b = self.many(b)
            whens.append(w(*b) if style != 1 else w.add(*b))
        if default is not None:
            b = self.many(default)
            whens.append(When()(*b) if style else When(None)(*b))
        c = (Casex if x else Case)(self.e(comp))
        if style == 2:
            for w in whens:
                c.add(w)
            return c
        return c(*whens)

    def s_for(self, lv, start, n, body, style):
        i = self.env['nm'][lv]
        post = [i(i + 1), i.inc(), i.write(i + 1)][style]
        f = For(i(start), i < n, post)
        b = self.many(body)
        return f(*b) if style else f.add(*b)

    def s_while(self, lv, n, body, style):
        i = self.env['nm'][lv]
        b = self.many(body) + [i(i + 1, blk=True)]
        w = While(i < n)
        return [i(0, blk=True), w(*b) if style else w.add(*b)]

    def s_disp(self, w, args):
        fmt = '%s%s' % (self.side, self.block) + ' %x' * len(args)
        args = [self.e(a) for a in args]
        return Systask('write', fmt + '\\n', *args) if w else Display(fmt, *args)

    def s_delay(self, n): return Delay(n)

    def s_wait(self, c, body):
        w = Wait(self.e(c))
        return [w, Delay(2)] if body is None else [w(Delay(2), *self.many(body))]

    def s_event(self, k, i):
        v = self.env['v'][i]
        clk = self.env['nm']['CLK']
        e = dict(pos=lambda: Event(Posedge(v)), neg=lambda: Event(Negedge(v)), any=lambda: Event(v),
                 clk=lambda: Event(Posedge(clk)), two=lambda: Event(Posedge(clk), v))[k]()
        return [e, Delay(2)]

    def s_forever(self, body, d): return Forever(*(self.many(body) + [Delay(d)]))


# --------------------------------------------------------------------------- oracle (own printer)
class R(c01.R):
    def r_nm(self, n): return n


class SR(object):
    def __init__(self, vs, side, block):
        self.e = R(vs)
        self.side, self.block = side, block

    def many(self, l): return 'begin %s end\n' % ' '.join(self(s) for s in l)
    def __call__(self, s): return getattr(self, 's_' + s[0])(*s[1:])

    def tgt(self, t):
        k = t[0]
        if k == 't':
            return t[1]
        if k == 'tbit':
            return '%s[%d]' % (t[1], t[2] if t[2] >= 0 else self.w[t[1]] + t[2])
        if k == 'tbitv':
            return '%s[(v%d %% %d)]' % (t[1], t[2], t[3])
        if k == 'tsl':
            return '%s[%d:%d]' % (t[1], t[2], t[3])
        if k == 'ael':
            n = c01.fold(t[2])
            return '%s[%s]' % (t[1], str(MDIM + n) if n is not None and n < 0 else self.e(t[2]))
        return '{%s}' % ', '.join(self.tgt(x) for x in t[1])

    def s_as(self, t, e, blk, d, style):
        return '%s%s %s %s%s;' % ('#%d ' % d[0] if d[0] else '', self.tgt(t), '=' if blk else '<=',
                                  '#%d ' % d[1] if d[1] else '', self.e(e))

    def s_if(self, br, el, style):
        out = ' else ' + self.many(el) if el is not None else ''
        for c, b in reversed(br):
            s = 'if (%s) %s%s' % (self.e(c), self.many(b), out)
            out = ' else begin %s end\n' % s
        return s

    def lab(self, c):
        return "%d'b%s" % (c[1], c[2]) if c[0] == 'pat' else self.e(c)

    def s_case(self, x, comp, labels, default, style):
        return '%s (%s) %s %s endcase\n' % (
            'casex' if x else 'case', self.e(comp),
            ' '.join('%s: %s' % (', '.join(self.lab(c) for c in cs), self.many(b)) for cs, b in labels),
            'default: ' + self.many(default) if default is not None else '')

    def s_for(self, lv, start, n, body, style):
        return 'for (%s = %d; %s < %d; %s = %s + 1) %s' % (lv, start, lv, n, lv, lv, self.many(body))

    def s_while(self, lv, n, body, style):
        return '%s = 0; while (%s < %d) begin %s %s = %s + 1; end' % (lv, lv, n, self.many(body), lv, lv)

    def s_disp(self, w, args):
        fmt = '%s%s' % (self.side, self.block) + ' %x' * len(args)
        return '$display("%s"%s);' % (fmt, ''.join(', ' + self.e(a) for a in args))

    def s_delay(self, n): return '#%d;' % n

    def s_wait(self, c, body):
        return 'wait (%s) begin #2; %s end' % (self.e(c), self.many(body or []))

    def s_event(self, k, i):
        return '@(%s); #2;' % dict(pos='posedge v%d' % i, neg='negedge v%d' % i, any='v%d' % i,
                                   clk='posedge CLK', two='posedge CLK or v%d' % i)[k]

    def s_forever(self, body, d): return 'forever begin %s #%d; end' % (self.many(body), d)


def size(x):
    if isinstance(x, list):
        return (1 if x and x[0] in ('if', 'case', 'for', 'while') else 0) + sum(size(y) for y in x)
    return 0


def nested(x, d=0):
    if isinstance(x, list):
        here = d + 1 if x and x[0] in ('if', 'case', 'for', 'while') else d
        return max([here] + [nested(y, here) for y in x])
    return d


def kinds(x, acc):
    if isinstance(x, list):
        if x and isinstance(x[0], str) and x[0] in ('if', 'case', 'for', 'while', 'as', 'disp', 'wait', 'event', 'forever',
                                                    'tbit', 'tbitv', 'tsl', 'ael', 'tcat', 'delay'):
            acc.add(x[0])
        for y in x:
            kinds(y, acc)


def run(spec):
    vs, ni, pw, bl = spec['vs'], spec['ni'], spec['priv'], spec['blocks']
    loops = ['la0', 'la1', 'lb0', 'lb1', 'lc0', 'lc1', 'li0', 'li1']
    m = Module('dut')
    nm = {}
    nm['CLK'] = m.Input('CLK')
    nm['rst'] = m.Input('rst')
    nm['first'] = m.Input('first')
    p0 = m.Parameter('P0', 3)
    p1 = m.Localparam('P1', 6)
    vv = []
    for i, (w, s) in enumerate(vs):
        vv.append((m.Input if i < ni else m.OutputReg)('v%d' % i, w, signed=s))
        nm['v%d' % i] = vv[-1]
    for n in sorted(pw):
        nm[n] = m.OutputReg(n, pw[n])
    for n in ('m0', 'm1', 'mi'):
        nm[n] = m.Reg(n, MW, MDIM)
    for n in loops:
        nm[n] = m.Integer(n)
    arrs = [m.Reg('a%d' % k, AW, ADIM, signed=bool(k)) for k in range(2)]
    b2 = m.Reg('b2', AW, (2, 3))
    m.Initial(*([arrs[k][j](Int((7 * j + 11 * k + 3) % 32, AW)) for k in range(2) for j in range(ADIM)] +
                [b2[j][k](Int((5 * j + 9 * k + 1) % 32, AW)) for j in range(2) for k in range(3)]))
    fn = m.Function('fn', 12)
    fa = fn.Input('fa', 6)
    fb = fn.Input('fb', 9)
    fn.Body(fn(fa + fb))
    # function and task with generated bodies
    env = dict(v=vv, p=[p0, p1], a=arrs, b2=b2, f=fn.call, nm=nm)
    fnb = m.Function('fnb', 10)
    fnm = dict(nm)
    fnm.update(ga=fnb.Input('ga', 6), gb=fnb.Input('gb', 9, signed=True), fr=fnb.Reg('fr', 8), lf0=fnb.Integer('lf0'),
               fnb=fnb)
    fb_env = dict(env, nm=fnm)
    fnb.Body(fnb(0), fnm['fr'](fnm['ga']), *SB(fb_env, 'D', 'F').many(bl['F']))
    tk = m.Task('tk')
    tnm = dict(nm)
    tnm.update(ta=tk.Input('ta', 5), tb=tk.Input('tb', 8, signed=True), lt0=tk.Integer('lt0'))
    tk.Body(nm['u0'](tnm['ta'] + tnm['tb']), *SB(dict(env, nm=tnm), 'D', 'T').many(bl['T']))

    def sens(kind):
        return dict(pos=[Posedge(nm['CLK'])], neg=[Negedge(nm['CLK'])], posrst=[Posedge(nm['CLK']), Posedge(nm['rst'])],
                    both=[Posedge(nm['CLK']), Negedge(nm['rst'])])[kind]
    e = B(env)
    tcall = tk.call(e(spec['call'][0]), e(spec['call'][1]))
    style = spec['call'][2]
    A = SB(env, 'D', 'A').many(bl['A'])
    A = [tcall] + A if style == 0 else [SingleStatement(tcall)] + A if style == 1 else [If(nm['rst'])(tcall)] + A
    m.Always(*sens(spec['edge'][0]))(*A)
    m.Always(*sens(spec['edge'][1]))(*SB(env, 'D', 'B').many(bl['B']))
    cc = [nm['c0'](fnb.call(e(spec['fcall'][0]), e(spec['fcall'][1])), blk=True), nm['c1'](0, blk=True)]
    if spec['sens'][0] == 'none':
        m.Always()(*(cc + SB(env, 'D', 'C').many(bl['C'])))
    else:
        m.Always(SensitiveAll())(*(cc + SB(env, 'D', 'C').many(bl['C'])))
    m.Always(*[vv[i] for i in spec['sens'][1]])(nm['d0'](1, blk=True), *SB(env, 'D', 'D').many(bl['D']))
    ini = [nm['t0'](1), nm['t1'](2), Delay(1)]
    ib = SB(env, 'D', 'I').many(bl['I'])
    m.Initial(*(ini + ib))
    for n in ('m0', 'm1', 'mi'):
        o = m.Output(n + 'o', MW * MDIM)
        o.assign(Cat(*[nm[n][k] for k in range(MDIM)]))
    text = m.to_verilog()

    # reference
    widths = dict(pw)
    widths.update({'v%d' % i: w for i, (w, s) in enumerate(vs)})
    widths['fr'] = 8

    def S(block):
        s = SR(vs, 'R', block)
        s.w = widths
        return s
    rng = lambda w: '[%d:0]' % (w - 1) if w is not None else ''
    ports = ['input CLK', 'input rst', 'input first']
    for i, (w, s) in enumerate(vs):
        ports.append('%s%s %s v%d' % ('input' if i < ni else 'output reg', ' signed' if s else '', rng(w), i))
    ports += ['output reg %s %s' % (rng(pw[n]), n) for n in sorted(pw)]
    ports += ['output [%d:0] %so' % (MW * MDIM - 1, n) for n in ('m0', 'm1', 'mi')]
    r = R(vs)
    body = ['module refm #(parameter P0 = 3) (%s);' % ', '.join(ports), 'localparam P1 = 6;']
    body += ['reg [%d:0] %s [0:%d];' % (MW - 1, n, MDIM - 1) for n in ('m0', 'm1', 'mi')]
    body += ['integer %s;' % n for n in loops]
    for k in range(2):
        body.append('reg%s [%d:0] a%d [0:%d];' % (' signed' if k else '', AW - 1, k, ADIM - 1))
    body.append('reg [%d:0] b2 [0:1][0:2];' % (AW - 1))
    body.append('initial begin %s %s end' % (' '.join(
        "a%d[%d] = 5'd%d;" % (k, j, (7 * j + 11 * k + 3) % 32) for k in range(2) for j in range(ADIM)), ' '.join(
        "b2[%d][%d] = 5'd%d;" % (j, k, (5 * j + 9 * k + 1) % 32) for j in range(2) for k in range(3))))
    body.append('function [11:0] fn; input [5:0] fa; input [8:0] fb; begin fn = fa + fb; end endfunction')
    body.append('function [9:0] fnb; input [5:0] ga; input signed [8:0] gb; reg [7:0] fr; integer lf0; begin '
                'fnb = 0; fr = ga; %s end endfunction' % S('F').many(bl['F']))
    body.append('task tk; input [4:0] ta; input signed [7:0] tb; integer lt0; begin u0 = ta + tb; %s end endtask' %
                S('T').many(bl['T']))
    se = dict(pos='posedge CLK', neg='negedge CLK', posrst='posedge CLK or posedge rst',
              both='posedge CLK or negedge rst')
    call = 'tk(%s, %s);' % (r(spec['call'][0]), r(spec['call'][1]))
    if style == 2:
        call = 'if (rst) begin %s end' % call
    body.append('always @(%s) begin %s %s end' % (se[spec['edge'][0]], call, S('A').many(bl['A'])))
    body.append('always @(%s) %s' % (se[spec['edge'][1]], S('B').many(bl['B'])))
    body.append('always @* begin c0 = fnb(%s, %s); c1 = 0; %s end' % (
        r(spec['fcall'][0]), r(spec['fcall'][1]), S('C').many(bl['C'])))
    body.append('always @(%s) begin d0 = 1; %s end' % (
        ' or '.join('v%d' % i for i in spec['sens'][1]), S('D').many(bl['D'])))
    body.append('initial begin t0 = 1; t1 = 2; #1; %s end' % S('I').many(bl['I']))
    for n in ('m0', 'm1', 'mi'):
        body.append('assign %so = {%s};' % (n, ', '.join('%s[%d]' % (n, k) for k in range(MDIM))))
    body.append('endmodule')

    outs = [('v%d' % i, vs[i][0]) for i in range(ni, len(vs))] + [(n, pw[n]) for n in sorted(pw)] + \
           [(n + 'o', MW * MDIM) for n in ('m0', 'm1', 'mi')]
    tb = ['module tb; integer seed, n; reg CLK, rst, first;']
    for i in range(ni):
        tb.append('reg%s %s v%d;' % (' signed' if vs[i][1] else '', rng(vs[i][0]), i))
    for o, w in outs:
        tb.append('wire %s %s_d, %s_r;' % (rng(w), o, o))
    common = ['.CLK(CLK)', '.rst(rst)', '.first(first)'] + ['.v%d(v%d)' % (i, i) for i in range(ni)]
    for x, name in (('d', 'dut'), ('r', 'refm')):
        tb.append('%s i_%s(%s);' % (name, x, ', '.join(common + ['.%s(%s_%s)' % (o, o, x) for o, w in outs])))
    tb.append('initial begin seed = %d; CLK = 0; rst = 0; first = 0;' % spec['seed'])
    for i in range(ni):
        tb.append('v%d = 0;' % i)
    tb.append('for (n = 0; n < 40; n = n + 1) begin #5; CLK = 1; #4; chk; #1; CLK = 0; rst = ($random(seed) & 7) == 0;'
              ' first = $random(seed); #4;')
    tb.append('chk; #6;')
    for i in range(ni):
        tb.append('v%d = $random(seed) >> ((n %% 3 == 0) ? 28 : 0);' % i)
    tb.append('end $display("DONE"); $finish; end')
    tb.append('task chk; begin')
    for o, w in outs:
        tb.append('if (%s_d !== %s_r) $display("BAD %s t=%%0d got %%h want %%h", $time, %s_d, %s_r);' % (o, o, o, o, o))
    tb.append('end endtask endmodule')
    out = sim.compile_and_run('\n'.join([text] + body + tb), top='tb')
    if 'DONE' not in out:
        raise Violation('simulation did not complete: %s' % out[:500])
    bad = [l for l in out.splitlines() if l.startswith('BAD')]
    if bad:
        raise Violation('behaviour differs from the description: %s\n%s' % (bad[:3], text[-6000:]))
    for b in 'ABI':
        d = [l[2:] for l in out.splitlines() if l.startswith('D' + b)]
        rr = [l[2:] for l in out.splitlines() if l.startswith('R' + b)]
        if d != rr:
            raise Violation('display sequence of block %s differs: %d lines %s / %d lines %s' % (
                b, len(d), d[:5], len(rr), rr[:5]))
    acc = set()
    kinds(list(bl.values()), acc)
    return dict(nontrivial=nested(list(bl.values())) >= 2, labels=sorted(acc))


PARTS = [Part('stmt', case(), run, quick=1800, thorough=50000)]

if __name__ == '__main__':
    main('C03', PARTS,
         rule='modules with 4 always blocks (edge, combinational and level sensitive), an initial block, a function and '
              'a task with random statement trees (depth<=3), 40 clock cycles of random stimulus; non-trivial = '
              'compound statements nest >=2 deep',
         assumptions=['Icarus Verilog 12 executes procedural code per IEEE 1364-2005 (both sides use it)',
                      'loops have constant bounds; blocking variables are private to one block (no races)'])
