"""C26: resolving parameters to constants preserves behaviour.

Oracle: the unresolved module, instantiated with the same parameter values, driven with the same inputs in the same simulation.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

import veriloggen
from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt
import veriloggen.resolver.resolver as resolver

LIM = 1 << 20
BIN = ['+', '-', '*', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '<<', '>>', '&&', '||']


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def ceval(e, env):
    """value of a constant expression; None where it leaves the range of the check"""
    t = e[0]
    if t == 'i':
        return e[1]
    if t == 'c':
        return env[e[1]]
    if t == 'mux':
        a, b, c = [ceval(x, env) for x in e[1:]]
        r = None if None in (a, b, c) else b if a else c
    elif t == 'un':
        a = ceval(e[2], env)
        r = None if a is None else {'-': -a, '!': int(not a), '+': a, '~': ~a}[e[1]]
    else:
        op = e[1]
        a, b = ceval(e[2], env), ceval(e[3], env)
        if a is None or b is None:
            return None
        if op in ('/', '%') and b == 0 or op in ('<<', '>>', 'sra', '**') and not 0 <= b < 12:
            return None
        if op == '>>' and a < 0:
            return None
        r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: tdiv(a, b), '%': lambda: a - b * tdiv(a, b), '&': lambda: a & b,
             '|': lambda: a | b, '^': lambda: a ^ b, '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b), '>=': lambda: int(a >= b),
             '==': lambda: int(a == b), '!=': lambda: int(a != b), '<<': lambda: a << b, '>>': lambda: a >> b, 'sra': lambda: a >> b,
             '**': lambda: a ** b, '&&': lambda: int(bool(a) and bool(b)), '||': lambda: int(bool(a) or bool(b))}[op]()
    return None if r is None or abs(r) > LIM else r


CMP = ['<', '>', '<=', '>=', '==', '!=', '&&', '||']


def cexpr(d, names, depth):
    if depth == 0 or d.chance(3):
        return ['c', d.pick(names)] if names and d.bool() else ['i', d.pick([0, 1, 2, 3, d.int(0, 40), -d.int(1, 9)])]
    k = d.int(0, 6)
    # a logical value is unsigned: with a selection all the values are signed numbers of 32 bits
    if k == 0:
        return ['mux'] + [cexpr(d, names, depth - 1) for _ in range(3)]
    if k == 1:
        return ['un', d.pick(['-', '+', '~']), cexpr(d, names, depth - 1)]
    if k == 2:
        return ['mux', ['b', d.pick(CMP), cexpr(d, names, depth - 1), cexpr(d, names, depth - 1)], cexpr(d, names, depth - 1), ['i', d.int(0, 3)]]
    if k == 3:
        return ['mux', ['un', '!', cexpr(d, names, depth - 1)], cexpr(d, names, depth - 1), ['i', d.int(0, 3)]]
    return ['b', d.pick([x for x in BIN if x not in CMP] + ['+', '-', '*', '/', '%', 'sra']), cexpr(d, names, depth - 1), cexpr(d, names, depth - 1)]


class G(object):
    pass


def mod_case(d, children, level):
    consts = []
    nparam = d.int(1, 3)
    env = {}
    for i in range(nparam + d.int(0, 3)):
        names = [c['n'] for c in consts if not c['w']]
        e = cexpr(d, names, d.int(0, 2))
        v = ceval(e, env)
        if v is None:
            e, v = ['i', 3], 3
        local = i >= nparam
        c = dict(n='%s%d' % ('L' if local else 'P', i), local=local, e=e, w=None, s=False)
        if d.chance(5) and v >= 0:
            c['w'] = max(v.bit_length() + 1, 4) if d.bool() else 32
            c['s'] = d.bool()
        env[c['n']] = v
        consts.append(c)
    names = [c['n'] for c in consts]

    untyped = [c['n'] for c in consts if not c['w']]

    def size(lo, hi):
        """a constant expression with a value in the range for any value of the parameters: low bits of a constant, plus lo"""
        if d.bool() or not names:
            return ['i', d.int(lo, hi)]
        k = 1
        while 2 * k - 1 <= hi - lo:
            k *= 2
        return ['b', '+', ['b', '&', ['c', d.pick(names)], ['i', k - 1]], ['i', lo]]
    g = G()
    vs = []
    for i in range(d.int(1, 3)):
        vs.append(dict(n='i%d' % i, k='in', w=size(1, 12), s=d.chance(4)))
    for i in range(d.int(1, 2)):
        vs.append(dict(n='r%d' % i, k='reg', w=size(1, 12), s=d.chance(4)))
    ni = len(vs)
    mems = [dict(n='m0', w=size(1, 12), d=size(1, 7))] if d.chance(3) else []
    outs = []

    def leaf():
        if d.bool():
            return ['v', d.pick(vs)['n']]
        return d.pick([['c', d.pick(names)], ['b', d.pick(['+', '-', '&', '|', '^']), ['c', d.pick(untyped)] if untyped else ['i', 3], ['i', d.int(0, 9)]], ['i', d.int(0, 40)]])

    def isconst(e):
        return e[0] in ('i', 'c', 'sz') or e[0] in ('b', 'un', 'mux', 'cat') and all(isconst(x) for x in e[1:] if isinstance(x, list))

    def hasconst(e):
        return e[0] in ('i', 'c') or e[0] in ('b', 'un', 'mux', 'cat') and any(hasconst(x) for x in e[1:] if isinstance(x, list))

    def narrow(e):
        # the simulator computes unsized constants with more than 32 bits, which shows where the upper bits take part
        return var() if hasconst(e) and e[0] not in ('i', 'c') else e

    def var():
        return ['v', d.pick(vs)['n']]

    def ex(depth):
        if depth == 0 or d.chance(4):
            return leaf()
        k = d.int(0, 11)
        if k <= 4:
            op, l, r = d.pick(BIN + ['+', '-', '*', 'sra']), ex(depth - 1), ex(depth - 1)
            if op in ('<<', '>>', 'sra'):
                r = size(0, 7) if isconst(r) else narrow(r)
            if op in CMP or op in ('>>', 'sra'):
                l, r = narrow(l), r if op in ('>>', 'sra') else narrow(r)
            return ['b', op, var() if isconst(l) and isconst(r) or op in ('>>', 'sra') and isconst(l) else l, r]
        if k == 5:
            e = narrow(ex(depth - 1))
            return ['un', d.pick(['-', '!', '+', '~', 'r&', 'r|', 'r^']), var() if isconst(e) else e]
        if k == 6:
            e = [narrow(ex(depth - 1)), ex(depth - 1), ex(depth - 1)]
            return ['mux'] + ([e[0], var(), e[2]] if all(isconst(x) for x in e) else e)
        if k == 7:
            return ['ptr', d.pick(vs)['n'], size(0, 3)]
        if k == 8:
            return ['slice', d.pick(vs)['n'], size(0, 3), size(0, 3)]
        if k == 9:
            return ['cat'] + [['v', d.pick(vs)['n']] if d.bool() else ['sz', d.int(0, 15), d.int(4, 6)] for _ in range(d.int(1, 3))]
        if k == 10:
            return ['rep', d.pick(vs)['n'], size(1, 4)]
        if mems:
            return ['mem', 'm0', d.pick([size(0, 3), ['v', d.pick(vs)['n']]])]
        return leaf()

    def stm(depth, loop):
        k = d.int(0, 6) if depth else 0
        regs = [v['n'] for v in vs if v['k'] == 'reg']
        if k == 1:
            return ['if', d.pick([narrow(ex(1)), ['b', d.pick(CMP), ['c', d.pick(names)], ['i', d.int(0, 9)]]]), stms(depth - 1, loop), stms(depth - 1, loop) if d.bool() else None]
        if k == 2:
            return ['case', narrow(ex(1)), [[d.pick([['i', i], ['c', d.pick(untyped)] if untyped else ['i', 3]]), stms(depth - 1, loop)] for i in range(d.int(1, 3))], d.bool()]
        if k == 3 and not loop:
            var = 'k'
            return ['for', size(0, 2), size(1, 6), d.int(1, 2), stms(depth - 1, True)]
        if k == 4 and mems:
            return ['memset', 'm0', ['k'] if loop and d.bool() else size(0, 3), ['b', '+', ex(1), ['k']] if loop and d.bool() else ex(1)]
        if k == 5:
            return ['bit', d.pick(regs), ['k'] if loop and d.bool() else size(0, 3), ex(1)]
        return ['set', d.pick(regs), ['b', d.pick(['+', '^']), ex(1), ['k']] if loop and d.bool() else ex(2)]

    def stms(depth, loop):
        return [stm(depth, loop) for _ in range(d.int(1, 2))]
    wires = []
    for i in range(d.int(1, 3)):
        wires.append(dict(n='w%d' % i, w=size(1, 12), s=d.chance(4), e=ex(2)))
        vs.append(dict(n='w%d' % i, k='wire'))
    insts = []
    for ch in range(d.int(0, 2) if children and level else 0):
        c = d.int(0, len(children) - 1)
        insts.append(dict(c=c, par=[[i, cexpr(d, untyped, 1)] for i in range(len([x for x in children[c]['consts'] if not x['local']])) if d.bool()],
                          ins=[ex(1) for v in children[c]['vs'] if v['k'] == 'in'], pos=d.chance(4)))
        # a constant as a port value needs no special form
    always = [[d.pick(['clk', 'clk', 'clk', 'top']), stms(2, False)]]
    del vs[ni:]  # a wire may not have followed the register assigned before
    if d.bool():
        always.append(['init', stms(1, False)])
    elif always[0][0] == 'top':
        always.append(['init', []])
    return dict(consts=consts, vs=vs[:ni], mems=mems, wires=wires, insts=insts, always=always)


@spec
def case(d):
    mods = []
    for i in range(d.int(1, 3)):
        mods.append(mod_case(d, mods, i))
    top = mods[-1]
    over = [[c['n'], d.pick([0, 1, 2, 5, d.int(0, 60)])] for c in top['consts'] if not c['local'] and d.bool()]
    return dict(mods=mods, over=over, rows=[[d.int(0, 4095) for _ in range(3)] for _ in range(d.int(3, 8))], twice=d.chance(4))


def values(m, over):
    env = {}
    for c in m['consts']:
        v = ceval(c['e'], env)
        if v is None:
            return None
        if not c['local'] and c['n'] in over:
            v = over[c['n']]
        if c['w']:
            w = c['w']
            v &= (1 << w) - 1
            if c['s'] and v >> (w - 1):
                v -= 1 << w
        env[c['n']] = v
    return env


def valid(mods, m, over):
    """no division by 0 and no overflow for these parameter values"""
    env = values(m, over)
    if env is None:
        return False
    for i in m['insts']:
        ch = mods[i['c']]
        ps = [c['n'] for c in ch['consts'] if not c['local']]
        o = {ps[k]: ceval(e, env) for k, e in i['par']}
        if None in o.values() or not valid(mods, ch, o):
            return False
    return True


def build(s, prefix):
    built = []
    for mi, c in enumerate(s['mods']):
        m = Module('%s%d' % (prefix, mi))
        clk, rst = m.Input('CLK'), m.Input('RST')
        ns = {}

        def ct(e):
            return ns[e[1]] if e[0] == 'c' else tr(e)

        def tr(e):
            t = e[0]
            if t == 'i':
                return vt.Int(e[1])
            if t == 'sz':
                return vt.Int(e[1], width=e[2])
            if t in ('c', 'v'):
                return ns[e[1]]
            if t == 'k':
                return ns['k']
            if t == 'mux':
                return vt.Mux(*[tr(x) for x in e[1:]])
            if t == 'un':
                return {'-': vt.Uminus, '!': vt.Ulnot, '+': vt.Uplus, '~': vt.Unot, 'r&': vt.Uand, 'r|': vt.Uor, 'r^': vt.Uxor}[e[1]](tr(e[2]))
            if t == 'b':
                return {'+': vt.Plus, '-': vt.Minus, '*': vt.Times, '/': vt.Divide, '%': vt.Mod, '&': vt.And, '|': vt.Or, '^': vt.Xor, '<': vt.LessThan,
                        '>': vt.GreaterThan, '<=': vt.LessEq, '>=': vt.GreaterEq, '==': vt.Eq, '!=': vt.NotEq, '<<': vt.Sll, '>>': vt.Srl, 'sra': vt.Sra,
                        '**': vt.Power, '&&': vt.Land, '||': vt.Lor}[e[1]](tr(e[2]), tr(e[3]))
            if t == 'ptr':
                return vt.Pointer(ns[e[1]], tr(e[2]))
            if t == 'slice':
                return vt.Slice(ns[e[1]], vt.Plus(tr(e[2]), tr(e[3])), tr(e[3]))
            if t == 'cat':
                return vt.Cat(*[tr(x) for x in e[1:]])
            if t == 'rep':
                return vt.Repeat(ns[e[1]], tr(e[2]))
            if t == 'mem':
                return ns[e[1]][tr(e[2])]
            raise ValueError(t)
        for x in c['consts']:
            ns[x['n']] = (m.Localparam if x['local'] else m.Parameter)(x['n'], tr(x['e']), x['w'], x['s'])
        for x in c['vs']:
            ns[x['n']] = (m.Input if x['k'] == 'in' else m.OutputReg)(x['n'], tr(x['w']), signed=x['s'], **({} if x['k'] == 'in' else {'initval': 0}))
        for x in c['mems']:
            ns[x['n']] = m.Reg(x['n'], tr(x['w']), dims=[tr(x['d'])])
        ns['k'] = m.Integer('k')
        for x in c['wires']:
            ns[x['n']] = m.Output(x['n'], tr(x['w']), signed=x['s'])
            m.Assign(ns[x['n']](tr(x['e'])))

        def st(x):
            t = x[0]
            if t == 'if':
                r = vt.If(tr(x[1]))(*[st(y) for y in x[2]])
                return r.Else(*[st(y) for y in x[3]]) if x[3] else r
            if t == 'case':
                ws = [vt.When(tr(a))(*[st(y) for y in b]) for a, b in x[2]]
                if x[3]:
                    ws.append(vt.When()(regs[0](regs[0] ^ 1)))
                return vt.Case(tr(x[1]))(*ws)
            if t == 'for':
                return vt.For(ns['k'](tr(x[1])), ns['k'] < tr(x[2]), ns['k'](ns['k'] + x[3]))(*[st(y) for y in x[4]])
            if t == 'memset':
                return ns[x[1]][tr(x[2])](tr(x[3]))
            if t == 'bit':
                return vt.Pointer(ns[x[1]], tr(x[2]))(tr(x[3]))
            return ns[x[1]](tr(x[2]))
        regs = [ns[x['n']] for x in c['vs'] if x['k'] == 'reg']
        for mode, body in c['always']:
            if mode == 'init':
                m.Initial(*([r(0, blk=True) for r in regs] + [vt.Delay(1)] + [st(y) for y in body]))
            else:
                if mode == 'top':
                    m.Always(vt.Posedge(clk))(*[st(y) for y in body])
                    continue
                m.Always(vt.Posedge(clk))(vt.If(rst)(*[r(0) for r in regs]).Else(*[st(y) for y in body]))
        for j, x in enumerate(c['insts']):
            ch, info = built[x['c']], s['mods'][x['c']]
            ps = [y['n'] for y in info['consts'] if not y['local']]
            ports = [('CLK', clk), ('RST', rst)]
            it = iter(x['ins'])
            for y in info['vs']:
                if y['k'] == 'in':
                    e = tr(next(it))
                    w = m.Wire('n%d_%s' % (j, y['n']), 16)
                    w.assign(e)
                    ports.append((y['n'], w))
                else:
                    ports.append((y['n'], m.Output('n%d_%s' % (j, y['n']), 16)))
            for y in info['wires']:
                ports.append((y['n'], m.Output('n%d_%s' % (j, y['n']), 16)))
            m.Instance(ch, 'u%d' % j, [(ps[k], tr(e)) for k, e in x['par']], [p for _, p in ports] if x['pos'] and False else ports)
        built.append(m)
    return built[-1]


def run(s):
    veriloggen.reset()
    top = s['mods'][-1]
    over = dict((a, b) for a, b in s['over'])
    if not valid(s['mods'], top, over) or not all(valid(s['mods'], m, {}) for m in s['mods']):
        return dict(nontrivial=False, labels=['range'])
    env = values(top, over)
    orig = build(s, 'o')
    src = build(s, 'r')
    before = src.to_verilog()
    res = resolver.resolve(src, dict(over))
    if s['twice']:
        res = resolver.resolve(res)
    if src.to_verilog() != before:
        raise Violation('resolving changes the source module')
    a, b = orig.to_verilog(), res.to_verilog()
    outs = [n for n in orig.io_variable if n not in ('CLK', 'RST') and not isinstance(orig.io_variable[n], vt.Input)]
    ins = [x['n'] for x in top['vs'] if x['k'] == 'in']
    k = len(s['mods']) - 1
    t = ['module tb; reg CLK, RST; initial begin CLK = 0; forever #5 CLK = !CLK; end']
    t += ['  reg [15:0] %s;' % i for i in ins]
    t += ['  wire [31:0] a_%s, b_%s;' % (o, o) for o in outs]
    # the width of the ports takes part in the comparison: the unused bits are z
    for p, q in (('a', 'o%d %s' % (k, '#(%s)' % ', '.join('.%s(%d)' % x for x in over.items()) if over else '')), ('b', 'r%d' % k)):
        t.append('  %s %s(.CLK(CLK), .RST(RST)%s);' % (q, p, ''.join(', .%s(%s)' % (i, i) for i in ins) + ''.join(', .%s(%s_%s)' % (o, p, o) for o in outs)))
    t.append('  task show; $display("R%s", %s); endtask' % (' %b %b' * len(outs), ', '.join('a_%s, b_%s' % (o, o) for o in outs)))
    t.append('  initial begin RST = 0; %s #3 show; RST = 1; @(negedge CLK); @(negedge CLK); show; RST = 0;' % ' '.join('%s = 0;' % i for i in ins))
    for row in s['rows']:
        t.append('    %s #1 show; @(negedge CLK); show;' % ' '.join('%s = %d;' % x for x in zip(ins, row)))
    t.append('    $display("END"); $finish(0); end\nendmodule')
    out = sim.compile_and_run(a + b + '\n'.join(t) + '\n', top='tb')
    rows = [l.split()[1:] for l in out.splitlines() if l.startswith('R')]
    if 'END' not in out or len(rows) != 2 + 2 * len(s['rows']):
        raise Violation('simulation failed ' + out[:300])
    for c, r in enumerate(rows):
        for o, x, y in zip(outs, r[::2], r[1::2]):
            if x != y:
                raise Violation('sample %d: %s is %s, resolved %s; parameters %s\n%s\n%s' % (c, o, x, y, env, a, b))
    kinds = set()

    def walk(x):
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                kinds.add(x[0])
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    walk(s['mods'])
    return dict(nontrivial=len(rows) > 4, labels=sorted(kinds & {'mux', 'un', 'b', 'ptr', 'slice', 'cat', 'rep', 'mem', 'if', 'case', 'for', 'memset', 'bit'})
                + (['override'] if over else []) + (['instances'] if top['insts'] else []) + (['typed'] if any(c['w'] for c in top['consts']) else []))


PARTS = [Part('resolve', case(), run, quick=1500, thorough=40000)]

if __name__ == '__main__':
    main('C26', PARTS,
         rule='1-3 modules with up to 6 parameters and localparams (constant expressions of each other, some with a type), ports, registers and memories whose '
              'sizes are constant expressions, assignments, clocked and initial blocks with if/case/for, instances with parameter expressions; resolved with '
              'random overrides; every output (value and width) is compared in each half cycle with the original; non-trivial = the comparison ran',
         assumptions=['constant expressions stay within 21 bits and do not divide by 0'])
