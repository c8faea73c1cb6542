"""C24: saturating arithmetic clamps and never wraps.

Oracle: exact Python integers, clamped after every saturating operation.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt
import veriloggen.types.saturate as saturate

NV = 3


def rng(w, s):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def near(d, lo, hi):
    k = d.int(0, 5)
    if k == 0:
        return max(lo, min(hi, lo + d.int(0, 3)))
    if k == 1:
        return max(lo, min(hi, hi - d.int(0, 3)))
    if k == 2:
        return max(lo, min(hi, d.int(-3, 3)))
    return d.int(lo, hi)


@spec
def sat_case(d):
    S = d.bool()
    W = d.pick([1, 2, 3, 4, 5, 8, 8, 8, 12, 16, 31, 32, 33, 40]) + (1 if S else 0)
    lo, hi = rng(W, S)
    wid = [max(1, d.pick([W, W, W, W, W - 1, W + 1, W + 3, W - 3, 2])) for _ in range(NV)]

    def leaf():
        k = d.int(0, 7)
        if k < 5:
            return ['v', d.int(0, NV - 1)]
        v = near(d, *(rng(W, S)))
        return ['i', v] if k < 7 else ['I', v]

    def tree(depth):
        if depth == 0 or d.chance(5):
            return leaf()
        return [d.pick(['+', '-']), tree(depth - 1), tree(depth - 1)]

    def bounds():
        b = [None, None]
        if d.chance(3):
            x, y = sorted((near(d, lo, hi), near(d, lo, hi)))
            b = d.pick([[x, y], [None, y], [x, None]])
        return b

    exprs = []
    for _ in range(d.int(1, 5)):
        k = d.pick(['add', 'sub', 'add', 'sub', 'chain', 'to', 'to', 'write', 'write', 'tow'])
        if k in ('add', 'sub'):
            exprs.append([k, ['v', d.int(0, NV - 1)], leaf()][:1] + d.shuffle([['v', d.int(0, NV - 1)], leaf()]) + [bounds(), d.chance(6) and W <= 16])
        elif k == 'chain':
            exprs.append([k, d.pick(['add', 'sub']), d.pick(['add', 'sub']), d.int(0, NV - 1), leaf(), leaf(), bounds(), d.bool()])
        elif k == 'to':
            exprs.append([k, tree(d.int(0, 3)), bounds(), d.chance(6) and W <= 16])
        elif k == 'tow':
            exprs.append([k, d.pick(['add', 'sub']), d.int(0, NV - 1), leaf()])
        else:
            exprs.append([k, tree(d.int(0, 3))])
    rows = [[near(d, *rng(w, S)) for w in wid] for _ in range(d.int(2, 12))]
    return dict(S=S, W=W, wid=wid, exprs=exprs, rows=rows, wide=d.chance(3))


def sat_run(s):
    S, W = s['S'], s['W']
    lo0, hi0 = rng(W, S)
    m = Module('dut')
    clk = m.Input('CLK')
    vs = [m.Input('x%d' % i, w, signed=S) for i, w in enumerate(s['wid'])]
    pw = m.Parameter('PW', W)

    def leaf(e):
        if e[0] == 'v':
            return vs[e[1]]
        return e[1] if e[0] == 'i' else vt.Int(e[1], signed=True) if S else vt.Int(e[1])

    def build(e):
        if e[0] in '+-':
            a, b = build(e[1]), build(e[2])
            if isinstance(a, int) and isinstance(b, int):
                a = vt.Int(a, signed=True) if S else vt.Int(a)
            return a + b if e[0] == '+' else a - b
        return leaf(e)

    def clamp(v, b):
        lo, hi = b
        return min(max(v, lo0 if lo is None else lo), hi0 if hi is None else hi)

    def ev(e, env, b):
        if e[0] in '+-':
            x, y = ev(e[1], env, b), ev(e[2], env, b)
            return clamp(x + y if e[0] == '+' else x - y, b)
        return env[e[1]] if e[0] == 'v' else e[1]
    par = {}
    model = []
    seq = Seq(m, 'seq', clk)
    OW = W + 7 if s['wide'] else W
    for k, e in enumerate(s['exprs']):
        kind = e[0]
        f = dict(add=lambda x, y: x + y, sub=lambda x, y: x - y)
        if kind in ('add', 'sub'):
            _, l, r, b, p = e
            L, R = leaf(l), leaf(r)
            if isinstance(L, int) and isinstance(R, int):
                L = vt.Int(L, signed=True) if S else vt.Int(L)
            v = getattr(saturate, kind)(L, R, width=pw if p else W, min=b[0], max=b[1])
            model.append(lambda env, e=e, l=l, r=r, b=b: clamp(f[e[0]](ev(l, env, b), ev(r, env, b)), b))
        elif kind == 'chain':
            _, o1, o2, i, r1, r2, b, left = e
            t = getattr(saturate, o1)(vs[i], leaf(r1), width=W, min=b[0], max=b[1])
            args = (t, leaf(r2)) if left else (leaf(r2), t)
            v = getattr(saturate, o2)(*args, width=W, min=b[0], max=b[1])

            def mod(env, o1=o1, o2=o2, i=i, r1=r1, r2=r2, b=b, left=left):
                t = clamp(f[o1](env[i], ev(r1, env, b)), b)
                q = ev(r2, env, b)
                return clamp(f[o2](t, q) if left else f[o2](q, t), b)
            model.append(mod)
        elif kind == 'to':
            _, t, b, p = e
            v = saturate.to_saturate(build(t), width=pw if p else W, min=b[0], max=b[1], signed=S)
            model.append(lambda env, t=t, b=b: clamp(ev(t, env, b), b))
        elif kind == 'tow':
            y = m.OutputReg('y%d' % k, W, signed=S)
            seq(saturate.write(y, getattr(saturate, e[1])(vs[e[2]], leaf(e[3]), width=W)))
            model.append(lambda env, e=e: clamp(f[e[1]](env[e[2]], ev(e[3], env, (None, None))), (None, None)))
            continue
        else:
            y = m.OutputReg('y%d' % k, W, signed=S)
            seq(saturate.write(y, build(e[1])))
            model.append(lambda env, t=e[1]: clamp(ev(t, env, (None, None)), (None, None)))
            continue
        y = m.OutputReg('y%d' % k, OW, signed=S)
        seq(y(v))
    seq.make_always()
    text = m.to_verilog()
    sg = 'signed ' if S else ''
    t = ['module tb;', ' reg CLK;']
    for i, w in enumerate(s['wid']):
        t.append(' reg %s[%d:0] x%d;' % (sg, w - 1, i))
    ws = [W if e[0] in ('write', 'tow') else OW for e in s['exprs']]
    for k, w in enumerate(ws):
        t.append(' wire %s[%d:0] y%d;' % (sg, w - 1, k))
    t.append(' dut d(%s);' % ', '.join('.%s(%s)' % (p, p) for p in ['CLK'] + ['x%d' % i for i in range(NV)] + ['y%d' % k for k in range(len(ws))]))
    t.append(' initial begin CLK = 0;')
    for row in s['rows']:
        for i, w in enumerate(s['wid']):
            t.append("  x%d = %d'h%x;" % (i, w, row[i] & ((1 << w) - 1)))
        t.append('  #5 CLK = 1; #5 CLK = 0; $display("R %s", %s);' % (' '.join(['%0d'] * len(ws)), ', '.join('y%d' % k for k in range(len(ws)))))
    t.append('  $finish(0); end\nendmodule')
    out = sim.compile_and_run(text + '\n'.join(t) + '\n', top='tb')
    lines = [l.split()[1:] for l in out.splitlines() if l.startswith('R ')]
    if len(lines) != len(s['rows']):
        raise Violation('simulation failed\n' + out[:500])
    hits = 0
    for row, got in zip(s['rows'], lines):
        for k, g in enumerate(got):
            want = model[k](row)
            if g != str(want):
                raise Violation('%s %d bits: %s with %s gives %s, expected %d\n%s' % ('signed' if S else 'unsigned', W, s['exprs'][k], row, g, want, text))
            hits += want in (lo0, hi0)
    return dict(nontrivial=hits > 0 and any(e[0] != 'to' or e[1][0] in '+-' for e in s['exprs']), labels=[e[0] for e in s['exprs']] + ['signed' if S else 'unsigned', 'w%d' % W])


PARTS = [Part('sat', sat_case(), sat_run, quick=2500, thorough=80000)]

if __name__ == '__main__':
    main('C24', PARTS,
         rule='1-5 saturating operations (add, sub, chains of them, to_saturate of a tree of sums and differences, write) of 1..41 bits, signed '
              'or unsigned, over registers of equal, smaller and larger width, integers and literals, with default or explicit bounds, on 2-12 '
              'rows of values biased to the bounds; non-trivial = some expected value is a bound of the format',
         assumptions=['operands of one operation are all signed or all unsigned (integers adapt)', 'a width given as a parameter is at most 16 (its powers are 32 bit values in Verilog)'])
