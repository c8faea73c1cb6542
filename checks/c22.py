"""C22: manual pipelines keep data and handshakes aligned.

Oracle: the composed expressions evaluated over the sequences (or, without ready, over the cycles) of the input values.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt

BIN = ['Plus', 'Minus', 'Times', 'And', 'Or', 'Xor']
CMP = ['LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq']
ACC = ['and', 'nand', 'or', 'xor', 'xnor', 'nor', 'add', 'sub', 'mul', 'max', 'min', 'custom', 'div', 'mod']


@spec
def pipe_case(d):
    mode = d.pick(['none', 'valid', 'valid', 'ready', 'ready', 'ready', 'ready'])
    W = d.pick([8, 16, 32, 32])
    nin = d.pick([1, 1, 2, 2, 3])
    nodes = [['in', i] for i in range(nin)]       # every node is a pipeline variable
    deep = [False] * nin

    def expr(depth, shallow=False):
        k = d.int(0, 11) if depth > 0 else d.int(0, 1)
        def var():
            c = [i for i in range(len(nodes)) if not (shallow and deep[i])]
            return ['v', d.pick(c)]
        if k == 0 or k == 6:
            return var()
        if k == 1:
            return var() if d.int(0, 2) else d.pick([['c', d.int(0, 20)], ['p']])
        if k < 6:
            return [d.pick(BIN), var(), expr(depth - 1, shallow)] if d.bool() else [d.pick(BIN), [d.pick(BIN), var(), var()], expr(depth - 1, shallow)]
        if k == 7:
            return ['Unot', [d.pick(BIN), var(), expr(depth - 1, shallow)] if d.bool() else var()]      # of a value of full width
        if k == 8:
            return [d.pick(CMP), var(), d.pick([var, lambda: ['c', d.int(0, 200)]])()]
        if k == 9:
            return ['Cond', [d.pick(CMP), var(), var()] if d.bool() else ['Uxor', var()], expr(depth - 1, shallow), expr(depth - 1, shallow)]
        if k == 10:
            return d.pick([['cat', var(), var()], ['rep', var(), d.int(1, 4)], ['Xnor', var(), var()], ['Uxnor', var()]])
        return d.pick([['Uor', var()], ['Uand', var()], ['Uxor', var()], ['Ulnot', var()], ['Land', var(), var()], ['Lor', var(), var()],
                       ['Srl', var(), ['c', d.int(0, 9)]], ['Sll', expr(depth - 1, shallow), ['c', d.int(0, 9)]], ['Uminus', [d.pick(BIN), var(), expr(depth - 1, shallow)]]])
    for _ in range(d.int(1, 6)):
        k = d.int(0, 9)
        if k < 6:
            if d.chance(5):
                w = d.int(0, len(nodes) - 1)
                nodes.append(['stage', d.pick([['cat', ['v', w], ['v', d.int(0, w)]], ['rep', ['v', w], 2]]), 0, 2 * W])
            else:
                nodes.append(['stage', expr(d.int(0, 3)), d.int(0, 1), d.pick([None, None, W, 1, 5])])
            deep.append(True)
        elif k < 8:
            i = d.int(0, len(nodes) - 1)
            nodes.append(['prev', i, d.int(1, 4)])
            deep.append(deep[i])
        else:
            acc = d.pick(ACC)
            nodes.append(['acc', acc, expr(0 if acc in ('max', 'min', 'div', 'mod') else d.int(0, 2), mode == 'none'), d.pick([0, 0, 1, d.int(0, 255)]), d.bool() and (mode == 'valid' or mode == 'ready' and nin == 1)])
            deep.append(True)
    cand = list(range(len(nodes)))
    outs = sorted(set([len(nodes) - 1] + d.subset(cand)))[-4:]
    n = d.int(8, 30)
    rows = []
    pv, pr = d.int(1, 4), d.int(1, 4)
    for _ in range(n):
        rows.append([[d.pick([0, 1, (1 << W) - 1, d.int(0, (1 << W) - 1), d.int(0, 20), d.int(0, 20)]) for _ in range(nin)],
                     [d.int(0, 3) < pv for _ in range(nin)], [d.int(0, 3) < pr for _ in range(4)]])
    return dict(mode=mode, W=W, nin=nin, nodes=nodes, outs=outs, rows=rows, param=d.int(0, 50), together=d.chance(3), call=d.bool(),
                form=d.bool(), order=d.chance(3), rstep=d.int(3, 12))


def pyeval(e, env, W, param):
    M = (1 << W) - 1
    k = e[0]
    r = lambda x: pyeval(x, env, W, param)
    if k == 'v':
        return env[e[1]]
    if k == 'c':
        return e[1]
    if k == 'p':
        return param
    if k == 'cat':
        return r(e[1]) << W | r(e[2])
    if k == 'rep':
        return sum(r(e[1]) << (W * i) for i in range(e[2]))
    if k == 'Cond':
        return r(e[2]) if r(e[1]) else r(e[3])
    a = r(e[1])
    b = r(e[2]) if len(e) > 2 else None
    return {'Plus': lambda: a + b, 'Minus': lambda: a - b, 'Times': lambda: a * b, 'And': lambda: a & b, 'Or': lambda: a | b, 'Xor': lambda: a ^ b,
            'Unot': lambda: ~a & M, 'Uminus': lambda: -a & M, 'LessThan': lambda: int(a < b), 'GreaterThan': lambda: int(a > b),
            'LessEq': lambda: int(a <= b), 'GreaterEq': lambda: int(a >= b), 'Eq': lambda: int(a == b), 'NotEq': lambda: int(a != b),
            'Uor': lambda: int(a != 0), 'Uand': lambda: int(a == M), 'Uxor': lambda: bin(a).count('1') & 1, 'Ulnot': lambda: int(a == 0),
            'Xnor': lambda: ~(a ^ b) & M, 'Uxnor': lambda: 1 ^ bin(a).count('1') & 1, 'Land': lambda: int(a != 0 and b != 0), 'Lor': lambda: int(a != 0 or b != 0), 'Srl': lambda: a >> b, 'Sll': lambda: a << b}[k]() & M


def accum(op, acc, x, W):
    M = (1 << W) - 1
    if op in ('div', 'mod'):
        x |= 1
        return acc // x if op == 'div' else acc % x
    return {'and': acc & x, 'nand': ~(acc & x), 'or': acc | x, 'xor': acc ^ x, 'xnor': ~(acc ^ x), 'nor': ~(acc | x), 'add': acc + x,
            'sub': acc - x, 'mul': acc * x, 'max': max(acc, x), 'min': min(acc, x), 'custom': (acc << 1) + x}[op] & M


def uses(e):
    if e[0] == 'v':
        return [e[1]]
    return [y for x in e[1:] if isinstance(x, list) for y in uses(x)]


def pipe_run(s):
    W, mode, nin = s['W'], s['mode'], s['nin']
    M = (1 << W) - 1
    # accumulators of a constant have no beats; nodes must depend on an input
    for nd in s['nodes']:
        if nd[0] in ('stage', 'acc') and not uses(nd[1 if nd[0] == 'stage' else 2]):
            return dict(nontrivial=False, labels=['constant'])
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    par = m.Input('par', W)
    arst = m.Input('arst')
    df = Pipeline(m, 'df', clk, rst, width=W)
    tv = []
    ports = ['CLK', 'RST', 'par', 'arst']
    ops = dict(custom=lambda l, r: (l << 1) + r)
    width = []
    for nd in s['nodes']:
        if nd[0] == 'in':
            i = nd[1]
            x = m.Input('x%d' % i, W)
            ports.append('x%d' % i)
            kw = {}
            if mode != 'none':
                kw['valid'] = m.Input('xv%d' % i)
                ports.append('xv%d' % i)
            if mode == 'ready':
                kw['ready'] = m.Output('xr%d' % i)
                ports.append('xr%d' % i)
            tv.append(df.input(x, **kw))
            width.append(W)
            continue

        def build(e):
            k = e[0]
            if k == 'v':
                return tv[e[1]]
            if k == 'c':
                return e[1] if s['form'] else vt.Int(e[1])
            if k == 'p':
                return par
            if k == 'cat':
                return vt.Cat(build(e[1]), build(e[2]))
            if k == 'rep':
                return vt.Repeat(build(e[1]), e[2])
            if k == 'Cond':
                return vt.Mux(*[build(x) for x in e[1:]])
            a = [build(x) for x in e[1:]]
            if k == 'Unot' and not isinstance(a[0], int):
                return ~a[0]
            if k in BIN + CMP and not isinstance(a[0], int) and s['form']:
                return {'Plus': lambda x, y: x + y, 'Minus': lambda x, y: x - y, 'Times': lambda x, y: x * y, 'And': lambda x, y: x & y,
                        'Or': lambda x, y: x | y, 'Xor': lambda x, y: x ^ y, 'LessThan': lambda x, y: x < y, 'GreaterThan': lambda x, y: x > y,
                        'LessEq': lambda x, y: x <= y, 'GreaterEq': lambda x, y: x >= y, 'Eq': lambda x, y: x == y,
                        'NotEq': lambda x, y: x != y}[k](*a)
            return getattr(vt, k)(*a)

        def narrow(e):
            """operands that are compared, shifted right or selected must be as wide as the model says"""
            return all(width[e2] == W for e2 in uses(e))
        if nd[0] == 'stage':
            if not narrow(nd[1]):
                return dict(nontrivial=False, labels=['narrow'])
            e = build(nd[1])
            w = nd[3]
            tv.append(df(e, initval=nd[2], width=w) if s['call'] else df.stage(e, initval=nd[2], width=w))
            width.append(w or W)
        elif nd[0] == 'prev':
            tv.append(tv[nd[1]].prev(nd[2]))
            width.append(width[nd[1]])
        else:
            if not narrow(nd[2]):
                return dict(nontrivial=False, labels=['narrow'])
            e = build(nd[2])
            if nd[1] in ('div', 'mod'):
                e = e | 1
            kw = dict(initval=nd[3] & M)
            if nd[4]:
                kw['resetcond'] = arst
            if nd[1] == 'custom':
                tv.append(df.acc_custom(e, ops['custom'], label='custom', **kw))
            else:
                tv.append(getattr(df, 'acc_' + nd[1])(e, **kw))
            width.append(W)
    outl = []
    order = s['outs'][::-1] if s['order'] else s['outs']
    for j, i in enumerate(order):
        if nd_same(outl, tv[i]):
            continue
        y = m.Output('y%d' % j, 2 * W)
        kw = {}
        if mode != 'none':
            kw['valid'] = m.Output('yv%d' % j)
        if mode == 'ready':
            kw['ready'] = m.Input('yr%d' % j)
        tv[i].output(y, **kw)
        outl.append((tv[i], i, j))
    df.make_always()
    text = m.to_verilog()
    for _, _, j in outl:
        ports += ['y%d' % j] + (['yv%d' % j] if mode != 'none' else []) + (['yr%d' % j] if mode == 'ready' else [])

    # testbench
    t = ['module tb;', '  reg CLK, RST, arst; reg [%d:0] par;' % (W - 1), '  initial begin CLK = 0; forever #5 CLK = !CLK; end']
    for i in range(nin):
        t.append('  reg [%d:0] x%d; reg xv%d; wire xr%d;' % (W - 1, i, i, i))
    for _, _, j in outl:
        t.append('  wire [%d:0] y%d; wire yv%d; reg yr%d;' % (2 * W - 1, j, j, j))
    t.append('  dut d(%s);' % ', '.join('.%s(%s)' % (x, x) for x in ports))
    t.append('  task step; begin #4 $display("R %s", %s); @(negedge CLK); end endtask' % (
        ' '.join(['%b %b %h'] * nin + ['%b %b %h'] * len(outl)),
        ', '.join(['xv%d, xr%d, x%d' % (i, i, i) for i in range(nin)] + ['yv%d, yr%d, y%d' % (j, j, j) for _, _, j in outl])))
    t.append('  initial begin RST = 1; arst = 0; par = %d;' % s['param'] + ''.join(' x%d = 0; xv%d = 0;' % (i, i) for i in range(nin)) +
             ''.join(' yr%d = 0;' % j for _, _, j in outl))
    t.append('    repeat(4) @(negedge CLK); RST = 0;' + ('' if mode == 'none' else ' repeat(2) @(negedge CLK);'))
    has_rst = any(nd[0] == 'acc' and nd[4] for nd in s['nodes'])
    drain = 40
    cut = len(s['rows']) // 2 if has_rst else None
    script = []
    for k, (xs, vs, rs) in enumerate(s['rows']):
        if k == cut:
            script += [None] * drain + ['arst', None]
        script.append((xs, vs, rs))
    script += [None] * drain
    for row in script:
        if row is None or row == 'arst':
            t.append('    arst = %d;' % (row == 'arst'))
            for i in range(nin):
                # a pending beat stays until it is accepted
                t.append('    if(!(%d && xv%d && !took%d)) xv%d = 0;' % (mode == 'ready', i, i, i))
            for _, _, j in outl:
                t.append('    yr%d = 1;' % j)
        else:
            xs, vs, rs = row
            t.append('    arst = 0;')
            for i in range(nin):
                v = 1 if mode == 'none' else vs[0] if s['together'] else vs[i]
                t.append("    if(!(%d && xv%d && !took%d)) begin xv%d = %d; x%d = %d'd%d; end" % (mode == 'ready', i, i, i, v, i, W, xs[i]))
            for _, _, j in outl:
                t.append('    yr%d = %d;' % (j, rs[j]))
        t.append('    step;')
    t.append('    $display("END"); $finish(0); end')
    for i in range(nin):
        t.append('  reg took%d; always @(posedge CLK) took%d <= xv%d && xr%d;' % (i, i, i, i))
    t.append('endmodule')
    out = sim.compile_and_run(text + '\n'.join(t) + '\n', top='tb')
    lines = [l.split()[1:] for l in out.splitlines() if l.startswith('R ')]
    if len(lines) != len(script) or 'END' not in out:
        raise Violation('simulation ended early\n' + out[:500])
    # observed input beats: lists of (cycle, value)
    obs_in = []
    for i in range(nin):
        q = []
        for c, l in enumerate(lines):
            v, r, x = l[3 * i:3 * i + 3]
            if mode == 'none' or v == '1' and (mode == 'valid' or r == '1'):
                q.append((c, int(x, 16)))
            if mode == 'ready' and r not in '01':
                raise Violation('ready of input %d is %s in cycle %d\n%s' % (i, r, c, text))
        obs_in.append(q)
    arc = [c for c, r in enumerate(script) if r == 'arst']
    arc = arc[0] if arc else None
    # model: every variable is a list of (position, value); with ready the position is the index of the beat, otherwise the cycle
    vals = []
    split = None
    for nd in s['nodes']:
        if nd[0] == 'in':
            q = obs_in[nd[1]]
            vals.append([(n if mode == 'ready' else c, x, arc is not None and c > arc) for n, (c, x) in enumerate(q)])
            continue
        if nd[0] == 'prev':
            q = vals[nd[1]]
            vals.append([(p, 0 if n < nd[2] else q[n - nd[2]][1], f) for n, (p, _, f) in enumerate(q)])
            # previous values of a register with an initial value start with the initial value of prev (0)
            continue
        e = nd[1] if nd[0] == 'stage' else nd[2]
        us = sorted(set(uses(e)))
        pos = None
        for u in us:
            ps = set(p for p, _, _ in vals[u])
            pos = ps if pos is None else pos & ps
        maps = {u: {p: (x, f) for p, x, f in vals[u]} for u in us}
        q = []
        for p in sorted(pos):
            env = {u: maps[u][p][0] for u in us}
            q.append((p, pyeval(e, env, W, s['param']), any(maps[u][p][1] for u in us)))
        if nd[0] == 'stage':
            mw = (1 << (nd[3] or W)) - 1
            vals.append([(p, x & mw, f) for p, x, f in q])
        else:
            acc = nd[3] & M
            r = []
            was = False
            for p, x, f in q:
                if f and not was and nd[4]:
                    acc = nd[3] & M
                was = f
                acc = accum(nd[1], acc, x & M, W)
                r.append((p, acc, f))
            vals.append(r)
    total = 0
    for k, (_, i, j) in enumerate(outl):
        off = 3 * (nin + k)
        want = [x for _, x, _ in vals[i]]
        name = 'output %d (node %d %s): ' % (j, i, s['nodes'][i][:2])
        if mode == 'none':
            got = [l[off + 2] for l in lines]
            skip = 16       # transients of the registers after the reset
            ok = False
            for lat in range(0, 40):
                if all(not set(g) & set('xz') and int(g, 16) == w for g, w in list(zip(got[lat:], want))[skip if deepn(s, i) else 0:len(s['rows'])]):
                    ok = True
                    break
            if not ok:
                raise Violation(name + 'no constant latency explains the values %s, expected %s\n%s' % (got[:30], ['%x' % w for w in want[:30]], text))
            total += max(0, len(s['rows']) - skip)
            continue
        got = []
        hold = None
        for c, l in enumerate(lines):
            v, r, y = l[off:off + 3]
            if v not in '01':
                raise Violation(name + 'valid is %s in cycle %d\n%s' % (v, c, text))
            if hold is not None and (v, y) != hold:
                raise Violation(name + 'cycle %d: the beat changed before it was accepted\n%s' % (c, text))
            hold = (v, y) if mode == 'ready' and v == '1' and r == '0' else None
            if v == '1' and (mode == 'valid' or r == '1'):
                got.append(y)
        # values that are used together are accepted together: a beat may wait for another input
        least = min(len(q) for q in obs_in) if mode == 'ready' else len(want)
        if len(got) > len(want) or len(got) < min(least, len(want)) or any(set(g) & set('xz') or int(g, 16) != w for g, w in zip(got, want)):
            raise Violation(name + 'delivered %s, expected %s\n%s' % (got, ['%x' % w for w in want], text))
        total += len(got)
    return dict(nontrivial=total > 5, labels=[mode] + sorted(set(nd[0] if nd[0] != 'acc' else 'acc_' + nd[1] for nd in s['nodes'])))


def deepn(s, i):
    return True


def nd_same(outl, v):
    return any(v is o[0] for o in outl)


PARTS = [Part('pipe', pipe_case(), pipe_run, quick=1500, thorough=50000)]

if __name__ == '__main__':
    main('C22', PARTS,
         rule='1-3 inputs (no handshake, valid, valid/ready), 1-6 stages / previous values / accumulators (all kinds, with reset conditions after '
              'draining) over random expressions, 1-4 outputs, random valid/ready per cycle; every output sequence is compared with the composed '
              'expressions; non-trivial = more than 5 output beats compared',
         assumptions=['operands that are compared, shifted right or selected are variables (the width of intermediate sums is a matter of Verilog)',
                      'all inputs of a pipeline use the same kind of handshake',
              'a reset condition is applied when no beat waits for another input'])
