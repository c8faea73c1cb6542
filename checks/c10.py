"""C10: outlining control logic into a separate module changes nothing.

Oracle: differential.  The same design is built twice, with and without as_module, and both are simulated side by side.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt
from checks import c01, c08, c09, ctl
from checks.ctl import Ctx, SB, mods, stmts, W

MW, MD = 5, 4          # one-dimensional array
M2W, M2D = 6, (2, 3)   # two-dimensional array


def ex(d, c, depth=2):
    if d.int(0, 5) == 0:
        k = d.int(0, 6)
        if k == 0:
            return ['lp', d.int(0, 1)]
        if k == 1:
            return ['m1', ['int', d.int(0, MD - 1)] if d.bool() else ['bop', 'And', ['v', 0], ['int', 3], True]]
        if k == 2:
            return ['m2', ['int', d.int(0, 1)] if d.bool() else ['bop', 'And', ['v', 0], ['int', 1], True],
                    ['int', d.int(0, 2)]]
        if k == 3:
            return ['par', d.int(0, 1)]
        if k == 4:
            return ['rep', ['v', d.int(0, len(c.vs) - 1)], d.int(1, 3), True]
        if k == 5:
            return ['sgn', ex(d, c, 0)]
        return ['bop', d.pick(['Divide', 'Mod', 'Sra', 'Eql']), ex(d, c, 0), ex(d, c, 0), False]
    return c01_ex(d, c, depth)


def c01_ex(d, c, depth):
    x = ctl.ex(d, c, depth)
    return x


def stm(d, c, depth=2):
    k = d.int(0, 9)
    if k <= 5 or depth <= 0:
        return ['as', ['t', d.pick(c.regs)], ex(d, c, d.int(0, 2)), d.bool()]
    sub = lambda: [stm(d, c, depth - 1) for _ in range(d.int(0, 2))]
    if k <= 7:
        return ['if', ex(d, c, 1), sub(), sub() if d.bool() else None]
    if k == 8:
        return ['case', ex(d, c, 1), [[d.int(0, 5), sub()] for _ in range(d.int(1, 2))], sub() if d.bool() else None, d.bool()]
    return ['disp', [ex(d, c, 1) for _ in range(d.int(0, 2))]]


def grp(d, c, timing=True):
    def body():
        return [stm(d, c) for _ in range(d.int(1, 2))]

    def mm(b):
        m = mods(d) if timing and d.bool() else c09.NOMOD
        if any(s[0] != 'as' for s in b):
            m = dict(m, eager=False)
        return m
    if d.int(0, 3) == 0:
        b = body()
        return ['plain', mm(b), b]
    links = []
    for k in ['if'] + ['elif'] * d.int(0, 2) + ['else'] * d.int(0, 1):
        b = body()
        links.append([k, [ex(d, c, 1)] if k != 'else' else [], mm(b), b])
    return ['chain', links, 0]


@spec
def case(d):
    ni = d.int(1, 2)
    vs = [[d.pick([None, 'P'] + W), d.bool(), None] for _ in range(ni)]
    nb = d.int(1, 3)       # blocks
    own = []
    for b in range(nb):
        own.append([])
        for _ in range(d.int(1, 2)):
            own[-1].append(len(vs))
            vs.append([d.pick([None, 'P'] + W), d.bool(), d.pick([0, 1, 3, ['P', 0], ['P', 1], -1, None])])
    vs = [[w, s if w else False, i if i != -1 or s else 2] for w, s, i in vs]
    view = [[8 if w == 'P' else w, s, i] for w, s, i in vs]
    npv = d.int(0, 2)
    blocks = []
    for b in range(nb):
        c = Ctx(view, ni, [], 0)
        c.regs = own[b]
        prevs = []
        for _ in range(d.int(0, 2)):
            prevs.append([['v', d.int(0, len(vs) - 1)] if d.bool() else ['bop', 'Plus', ['v', 0], ['v', d.int(0, len(vs) - 1)], True],
                          d.int(1, 3), d.int(0, 2), ex(d, c, 1) if d.chance(3) else None])
        c.npv = len(prevs)
        if d.bool():
            ops = [['g', grp(d, c)] for _ in range(d.int(1, 4))]
            blocks.append(dict(kind='seq', ops=ops, prevs=prevs, asm=True))
        else:
            ns = d.int(2, 5)
            ops = []
            for _ in range(d.int(2, 7)):
                k = d.int(0, 9)
                if k <= 4:
                    ops.append(['g', grp(d, c)])
                elif k <= 7:
                    ops.append(['next', ex(d, c, 1) if d.bool() else None])
                elif k == 8:
                    ops.append(['goto', d.int(0, ns - 1), ex(d, c, 1) if d.bool() else None, d.int(0, ns - 1) if d.bool() else None])
                else:
                    ops.append(['par', grp(d, c)])
            blocks.append(dict(kind='fsm', ops=ops, prevs=prevs, width=d.pick([32, 8, 'P'])))
    return dict(ni=ni, vs=vs, blocks=blocks, rst=d.int(0, 5) > 0, par=[d.int(3, 9), d.int(0, 9)], over=d.bool(),
                seed=d.int(0, 1 << 20))


class B(ctl.B):
    def b_lp(self, k): return self.env['lp'][k]
    def b_m1(self, e): return self.env['m1'][self(e)]
    def b_m2(self, i, j): return self.env['m2'][self(i)][self(j)]


class S(SB):
    def __init__(self, env, tag):
        SB.__init__(self, env)
        self.e = B(env)
        self.tag = tag

    def s_disp(self, args):
        return Systask('display', self.tag + ' %x' * len(args), *[self.e(a) for a in args])


def build(s, name, asm):
    m = Module(name)
    P = [m.Parameter('P%d' % k, s['par'][k]) for k in range(2)]
    clk = m.Input('CLK')
    rst = m.Input('RST')
    if not s['rst']:
        rst = None
    lp = [m.Localparam('L0', P[0] + 2), m.Localparam('L1', 5)]
    v = []
    for i, (w, sg, init) in enumerate(s['vs']):
        w = P[0] + 1 if w == 'P' else w
        iv = P[init[1]] if isinstance(init, list) else init
        if i < s['ni']:
            v.append(m.Input('v%d' % i, w, signed=sg))
        elif i % 2:
            v.append(m.OutputReg('v%d' % i, w, signed=sg, initval=iv))
        else:
            v.append(m.Reg('v%d' % i, w, signed=sg, initval=iv))
            m.Output('o%d' % i, 40).assign(v[-1])
    m1 = m.Reg('m1', MW, MD)
    m2 = m.Reg('m2', M2W, M2D)
    m.Always(Posedge(clk))(m1[v[0] & 3](v[-1] + 1), m2[1][v[0] % 3](v[0] + 3), m2[0][2](v[-1]), m2[0][0](9), m2[0][1](7))
    states = []
    for k, b in enumerate(s['blocks']):
        nm = '%s%d' % (b['kind'], k)
        if b['kind'] == 'seq':
            o = Seq(m, nm, clk, rst, as_module=asm)
        else:
            o = FSM(m, nm, clk, rst, width=P[0] + 5 if b['width'] == 'P' else b['width'], as_module=asm)
            states.append(o.state)
        cache = {}
        env = dict(v=v, p=P, lp=lp, m1=m1, m2=m2)

        def pv(j, b=b, cache=cache, env=env, o=o, k=k):
            if j not in cache:
                src, n, iv, cond = b['prevs'][j]
                e = B(env)
                cache[j] = o.Prev(e(src), n, iv, cond=e(cond) if cond is not None else None, prefix='_b%d_' % k)
            return cache[j]
        env['pv'] = pv
        sb = S(env, 'A' if asm else 'B')
        sb.tag += '%d' % k
        for op in b['ops']:
            if op[0] == 'g':
                sb.group(o, op[1])
            elif op[0] == 'par':
                sb.group(o.Always, op[1])
            elif op[0] == 'next':
                (o if op[1] is None else o.If(sb.e(op[1]))).goto_next()
            else:
                o.goto(op[1], cond=sb.e(op[2]) if op[2] is not None else None, else_dst=op[3])
    for k, st in enumerate(states):
        m.Output('s%d' % k, 32).assign(st)
    if not s['rst']:
        if not asm:
            m.Initial(*[st(0) for st in states])
    return m, len(states)


def run(s):
    if not s['rst'] and any(b['kind'] == 'fsm' for b in s['blocks']):
        s = dict(s, rst=True)     # the state register of an outlined machine is only set by reset
    a, n = build(s, 'duta', True)
    b, n2 = build(s, 'dutb', False)
    ta, tb_ = a.to_verilog(), b.to_verilog()
    vs, ni = s['vs'], s['ni']
    par = [p + 2 if s['over'] else p for p in s['par']]
    wid = lambda w: par[0] + 1 if w == 'P' else w
    outs = [('v%d' % i, wid(vs[i][0])) if i % 2 else ('o%d' % i, 40) for i in range(ni, len(vs))]
    outs += [('s%d' % k, 32) for k in range(n)]
    tb = c08.ctl_tb(s, [[wid(w), sg, i] for w, sg, i in vs], ni, outs, ('duta', 'dutb'), 60,
                    par='#(.P0(%d), .P1(%d))' % tuple(par) if s['over'] else '')
    out = sim.compile_and_run('\n'.join([ta, tb_] + tb), top='tb')
    c08.judge(out, ta, tb_)
    for k in range(len(s['blocks'])):
        x = [l[2:] for l in out.splitlines() if l.startswith('A%d' % k)]
        y = [l[2:] for l in out.splitlines() if l.startswith('B%d' % k)]
        if x != y:
            raise Violation('displayed lines differ: outlined %d %s, inlined %d %s\n%s' % (len(x), x[:4], len(y), y[:4], ta[:5000]))
    labels = set(b['kind'] for b in s['blocks']) | {op[0] for b in s['blocks'] for op in b['ops']}

    def walk(x):
        if isinstance(x, list):
            if x and x[0] in ('lp', 'm1', 'm2', 'pv', 'if', 'case', 'disp', 'par', 'elif', 'else'):
                labels.add(x[0])
            for y in x:
                walk(y)
    for b in s['blocks']:
        walk(b['ops'])
    return dict(nontrivial=bool(labels & {'m1', 'm2', 'pv', 'lp', 'par'}), labels=sorted(labels))


PARTS = [Part('outline', case(), run, quick=2000, thorough=60000)]

if __name__ == '__main__':
    main('C10', PARTS,
         rule='1-3 synchronous blocks and state machines per module reading inputs, registers of each other, parameters, '
              'localparams, one- and two-dimensional arrays and previous values; 60 cycles, random resets, parameter '
              'overrides; non-trivial = some non-scalar or constant source is read',
         assumptions=['Icarus Verilog 12 executes both sides'])
