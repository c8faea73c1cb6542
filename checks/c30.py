"""C30: pipelined multipliers and dividers are exact.

Oracle: Python integers, delayed by the stated number of enabled cycles.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt
import veriloggen.types.mul as tmul
import veriloggen.stream.mul as smul
import veriloggen.stream.madd as smadd
import veriloggen.stream.div as sdiv
import veriloggen.dataflow.mul as dmul
import veriloggen.dataflow.div as ddiv

KINDS = ['class', 'class', 'def', 'smul', 'smul', 'madd', 'madd', 'sdiv', 'sdiv', 'sdiv', 'dmul', 'dmul', 'ddiv', 'ddiv']


def edge(d, w):
    return d.pick([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, d.int(0, (1 << w) - 1), d.int(0, (1 << w) - 1),
                   d.int(0, min(7, (1 << w) - 1))]) & ((1 << w) - 1)


@spec
def arith_case(d):
    units = []
    for _ in range(d.pick([1, 2, 3])):
        k = d.pick(KINDS)
        div = k in ('sdiv', 'ddiv')
        ws = [d.pick([1, 2, 3, 5, 8, 8, 16, 17, 32, 33]) for _ in range(3)]
        if div:
            ws = [d.pick([2, 3, 4, 8, 8, 13, 16, 32])] * 2 + [1]
        u = dict(kind=k, ws=ws, sg=[True] * 3 if k == 'ddiv' else [d.bool() for _ in range(3)], depth=d.pick([2, 2, 3, 4, 6, 6, 9]),
                 enable=d.bool(), update=d.bool(), explicit=d.bool())
        if div and k == 'sdiv':
            u['sg'] = [d.bool()] * 3
        units.append(u)
    stall = d.int(0, 2)
    rows = []
    for _ in range(d.int(10, 50)):
        rows.append(dict(up=d.int(0, 3) >= stall, en=d.int(0, 2) > 0, rst=d.chance(40),
                         x=[[edge(d, w) for w in u['ws']] for u in units]))
    return dict(units=units, rows=rows, again=d.chance(4))


def sgn(x, w, s):
    return x - (1 << w) if s and x >> (w - 1) else x


def expected(u, x):
    """Results as (name, width, value or None)."""
    ws, sg = u['ws'], u['sg']
    a, b, c = [sgn(v, w, s) for v, w, s in zip(x, ws, sg)]
    if u['kind'] in ('sdiv', 'ddiv'):
        w = ws[0]
        if b == 0:
            return [None, None]
        q = abs(a) // abs(b)
        r = abs(a) % abs(b)
        if (a < 0) != (b < 0):
            q = -q
        if a < 0:
            r = -r
        return [q & ((1 << w) - 1), r & ((1 << w) - 1)]
    if u['kind'] == 'madd':
        w = max(ws[0] + ws[1], ws[2])
        return [(a * b + c) & ((1 << w) - 1)]
    return [(a * b) & ((1 << (ws[0] + ws[1])) - 1)]


def arith_run(s):
    smul.reset()
    smadd.reset()
    dmul.reset() if hasattr(dmul, 'reset') else None
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    update = m.Input('update')
    enable = m.Input('enable')
    tbp, outs, lat = [], [], []
    for i, u in enumerate(s['units']):
        k, ws, sg, depth = u['kind'], u['ws'], u['sg'], u['depth']
        names = ['a', 'b'] + (['c'] if k == 'madd' else [])
        ins = [m.Input('%s%d' % (n, i), w, signed=g and u['explicit']) for n, w, g in zip(names, ws, sg)]
        tbp.append([('%s%d' % (n, i), w) for n, w in zip(names, ws)])
        rw = max(ws[0] + ws[1], ws[2]) if k == 'madd' else ws[0] if 'div' in k else ws[0] + ws[1]
        y = m.Output('y%d' % i, rw)
        mine = [('y%d' % i, rw)]
        vld = None
        upd = True
        a, b = ins[0], ins[1]
        if k == 'class':
            r = tmul.Multiplier(m, 'mul%d' % i, clk, rst, a, b, enable=enable if u['enable'] else None, update=update if u['update'] else None,
                                lwidth=ws[0] if u['explicit'] else None, rwidth=ws[1] if u['explicit'] else None,
                                lsigned=sg[0], rsigned=sg[1], depth=depth)
            y.assign(r.value)
            upd = u['update']
            if u['enable']:
                vld = r.valid
        elif k == 'def':
            df = tmul.mkMultiplier('mul%d' % i, sg[0], sg[1], depth, with_update=u['update'], with_enable=u['enable'])
            ports = [('CLK', clk), ('RST', rst), ('a', a), ('b', b), ('c', y)]
            upd = u['update']
            if upd:
                ports.append(('update', update))
            if u['enable']:
                vld = m.Wire('vld%d' % i)
                ports += [('enable', enable), ('valid', vld)]
            m.Instance(df, 'inst%d' % i, params=[('lwidth', ws[0]), ('rwidth', ws[1])], ports=ports)
        elif k == 'smul':
            df = smul.get_mul(ws[0], ws[1], sg[0], sg[1], depth)
            m.Instance(df, 'inst%d' % i, ports=[('CLK', clk), ('update', update), ('a', a), ('b', b), ('c', y)])
        elif k == 'madd':
            df = smadd.get_madd(ws[0], ws[1], ws[2], sg[0], sg[1], sg[2], depth)
            m.Instance(df, 'inst%d' % i, ports=[('CLK', clk), ('update', update), ('a', a), ('b', b), ('c', ins[2]), ('d', y)])
        elif k == 'dmul':
            df = dmul.get_mul(ws[0], ws[1], sg[0], sg[1], depth)
            vld = m.Wire('vld%d' % i)
            m.Instance(df, 'inst%d' % i, ports=[('CLK', clk), ('RST', rst), ('update', update), ('enable', enable), ('valid', vld),
                                                ('a', a), ('b', b), ('c', y)])
        else:
            depth = ws[0] + 2
            vld = m.Wire('vld%d' % i)
            z = m.Output('z%d' % i, rw)
            mine.append(('z%d' % i, rw))
            params = [('W_D', ws[0])]
            if k == 'sdiv':
                df = sdiv.get_div()
                params += [('A_SIGNED', int(sg[0])), ('B_SIGNED', int(sg[1])), ('O_SIGNED', int(sg[2]))]
            else:
                df = ddiv.get_div()
            m.Instance(df, 'inst%d' % i, params=params, ports=[('CLK', clk), ('RST', rst), ('in_a', a), ('in_b', b), ('update', update),
                                                               ('enable', enable), ('rslt', y), ('mod', z), ('valid', vld)])
        if vld is not None:
            v = m.Output('v%d' % i)
            v.assign(vld)
            mine.append(('v%d' % i, 1))
        outs.append((mine, vld is not None, upd, depth))
    if s['again']:
        m.to_verilog()
    text = m.to_verilog()
    t = ['module tb;', '  reg CLK, RST, update, enable;', '  initial begin CLK = 0; forever #5 CLK = !CLK; end']
    ports = ['CLK', 'RST', 'update', 'enable']
    for p in tbp:
        for n, w in p:
            t.append('  reg [%d:0] %s;' % (w - 1, n))
            ports.append(n)
    allo = []
    for mine, _, _, _ in outs:
        for n, w in mine:
            t.append('  wire [%d:0] %s;' % (w - 1, n))
            ports.append(n)
            allo.append(n)
    t.append('  dut d(%s);' % ', '.join('.%s(%s)' % (x, x) for x in ports))
    t.append('  initial begin RST = 1; update = 0; enable = 0;' + ''.join(' %s = 0;' % n for p in tbp for n, w in p))
    t.append('    repeat(3) @(negedge CLK); RST = 0; @(negedge CLK);')
    rows = list(s['rows'])
    tail = max(o[3] for o in outs) + 3
    rows += [dict(rows[-1], up=True, en=False, rst=False)] * tail
    for r in rows:
        t.append('    RST = %d; update = %d; enable = %d;%s' % (r['rst'], r['up'], r['en'], ''.join(
            " %s = %d'd%d;" % (n, w, x) for p, xs in zip(tbp, r['x']) for (n, w), x in zip(p, xs))))
        t.append('    @(negedge CLK); $display("R %s", %s);' % (' '.join(['%h'] * len(allo)), ', '.join(allo)))
    t.append('    $finish(0); end\nendmodule')
    out = sim.compile_and_run(text + '\n'.join(t) + '\n', top='tb')
    lines = [l.split()[1:] for l in out.splitlines() if l.startswith('R ')]
    if len(lines) != len(rows):
        raise Violation('simulation ended early\n' + out[:500])
    checked = stalls = 0
    pos = 0
    for i, (u, (mine, has_v, upd, depth)) in enumerate(zip(s['units'], outs)):
        pipe = [None] * depth         # operand tuples
        vp = [False] * depth
        known = False
        for k, (r, l) in enumerate(zip(rows, lines)):
            go = r['up'] or not upd
            if go:
                pipe = [r['x'][i]] + pipe[:-1]
            if r['rst'] and 'div' in u['kind']:
                pipe = [None] * depth       # a reset drops the divisions in flight
            if r['rst']:
                vp = [False] * depth
                known = True
            elif go:
                vp = [r['en']] + vp[:-1]
            else:
                stalls += 1
            got = l[pos:pos + len(mine)]
            if pipe[-1] is not None:
                for (n, w), g, e in zip(mine, got, expected(u, pipe[-1])):
                    if e is None:
                        continue
                    if set(g) & set('xz') or int(g, 16) != e:
                        raise Violation('cycle %d, unit %d %s: operands %s give %s = %s instead of %x after %d updates\n%s' % (
                            k, i, {x: u[x] for x in ('kind', 'ws', 'sg', 'depth')}, pipe[-1], n, g, e, depth, text))
                    checked += 1
            if has_v and (got[-1] not in '01' or bool(int(got[-1])) != vp[-1]):
                raise Violation('cycle %d, unit %d %s: valid is %s\n%s' % (k, i, {x: u[x] for x in ('kind', 'ws', 'sg', 'depth')}, got[-1], text))
        pos += len(mine)
    return dict(nontrivial=checked > 10, labels=[u['kind'] for u in s['units']] + (['stalled'] if stalls else []))


PARTS = [Part('arith', arith_case(), arith_run, quick=1500, thorough=50000)]

if __name__ == '__main__':
    main('C30', PARTS,
         rule='1-3 cores per module: types.mul Multiplier/mkMultiplier (with/without update/enable), stream get_mul/get_madd/get_div, dataflow '
              'get_mul/get_div; widths 1-33, signs, depths 2-9, edge and random operands every cycle, random stalls, resets and enables; checked per '
              'cycle: exact result after the stated number of updates, held while stalled, valid; non-trivial = more than 10 results compared',
         assumptions=['division by zero has no value', 'the three signedness parameters of the divider agree (mixed ones are never generated by '
                      'the library without an adjusting cast)'])
