"""C21: dataflow pipelines are latency-insensitive.

Oracle: the graph evaluated element by element (plain integers) on the sequences of values that were accepted.
"""
import functools

import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

import veriloggen
from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt
import veriloggen.dataflow as dataflow

ARITH = ['Plus', 'Minus']
CMP = ['LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq']
BITS = ['And', 'Or', 'Xor', 'Xnor']
RED = ['Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor', 'Ulnot']
CUSTOM = {'max': lambda a, b: vt.Mux(a > b, a, b), 'xor': lambda a, b: a ^ b, 'shl': lambda a, b: (a << 1) + b}
PYCUSTOM = {'max': max, 'xor': lambda a, b: a ^ b, 'shl': lambda a, b: 2 * a + b}
CAP = 40


def cw(v):
    return v.bit_length() + 1


@spec
def flow_case(d):
    hs = d.pick(['none', 'valid', 'ready', 'ready', 'ready', 'ready'])
    api = d.pick(['module', 'manager', 'manager', 'rw'])
    if hs == 'none' and api == 'rw':
        api = 'manager'
    S = d.bool()                        # inputs are signed
    W = d.pick([4, 8, 8, 16, 32])
    ins = [[d.pick([W, W, d.int(1, W)]), S] for _ in range(d.pick([1, 1, 2, 2, 3]))]
    par = [[d.pick(['param', 'port', 'raw'] if S else ['param', 'port', 'int', 'raw']), d.int(1, (1 << (W - 1)) - 1)] for _ in range(d.int(0, 2))]
    nodes = [['in', i] for i in range(len(ins))]
    att = [tuple(x) for x in ins]       # width, signed
    acc = [False] * len(ins)            # has a history
    inf = [False] * len(ins)            # does not depend on any input

    fresh = hs == 'ready' and d.int(0, 3) > 0

    def pick(f=lambda w, s: True, hist=True):
        c = [i for i in range(len(nodes)) if f(*att[i]) and (hist or not acc[i])]
        if fresh:
            used = set(o[1] for nd in nodes for o in operands(nd) if o[0] == 'n')
            c = [i for i in c if i not in used] or c
        return d.pick(c) if c else None

    def operand(like=None, const=True):
        """an operand of the same signedness as node 'like' """
        k = d.int(0, 5)
        if k == 0 and const:
            hi = (1 << max(1, att[like][0] - 1)) - 1 if like is not None else 100
            return ['c', d.int(-hi if att[like][1] else 0, hi)]
        if k == 1 and par:
            j = d.int(0, len(par) - 1)
            return ['p', j]
        i = pick(lambda w, s: like is None or s == att[like][1])
        return ['n', like if i is None else i]

    def oatt(o):
        if o[0] == 'n':
            return att[o[1]]
        if o[0] == 'c':
            return cw(o[1]), True
        return (W, S) if par[o[1]][0] != 'int' else (W, S)

    def add(node, w, s, hist=False):
        refs = [o[1] for o in operands(node)if o[0] == 'n']
        nodes.append(node)
        att.append((w, s))
        acc.append(hist or any(acc[r] for r in refs))
        inf.append(all(inf[r] for r in refs))
    n = d.int(1, 8)
    for _ in range(n):
        k = d.int(0, 21)
        a = pick()
        wa, sa = att[a]
        A = ['n', a]
        if k <= 2:
            b = operand(a)
            if oatt(b)[1] != sa and b[0] == 'p':
                b = A
            w = max(wa, oatt(b)[0])
            if b[0] == 'c' and d.chance(4):
                add(['bin', 'Minus' if d.bool() else 'Plus', b, A], w, sa and oatt(b)[1])
            else:
                add(['bin', d.pick(ARITH), A, b], w, sa and oatt(b)[1])
        elif k == 3:
            b = operand(a) if d.bool() else operand(pick(), const=False)
            w = max(wa, oatt(b)[0])
            add(['bin', 'Times', A, b], w, sa and oatt(b)[1])
        elif k == 4:
            if wa > 16 or hs == 'none':
                continue
            op = 'Divide' if sa else d.pick(['Divide', 'Mod'])
            b = ['c', d.pick([1, 2, 3, -1, -3, 5]) if sa else d.int(1, 9)]
            j = pick(lambda w, s: s == sa and w <= 16)
            if d.bool():
                b = ['nz', j]
            w = max(wa, att[j][0] if b[0] == 'nz' else oatt(b)[0])
            if b[0] == 'nz':
                w = max(w, 2)
                add(['bin', 'Sra' if sa else 'Srl', ['n', j], ['c', 1]], att[j][0], sa)
                j = len(nodes) - 1
                add(['bin', 'Cond0', ['n', j], ['n', j]], max(att[j][0], 2), sa)
                b = ['n', len(nodes) - 1]
            # half of the range: see the known findings
            h = 'Sra' if sa else 'Srl'
            add(['bin', h, A, ['c', 1]], wa, sa)
            A = ['n', len(nodes) - 1]
            if b[0] == 'n':
                b = ['n', b[1]]
            add(['bin', op, A, b], w, sa)
        elif k == 5:
            b = operand(a)
            if oatt(b)[1] != sa and b[0] == 'p':
                b = A
            add(['bin', d.pick(CMP), A, b], 1, False)
        elif k == 6:
            j = pick(lambda w, s: s == sa)
            b = d.pick([['n', j], ['c', d.int(0, 9)]])
            add(['bin', d.pick(BITS), A, b], max(wa, oatt(b)[0]), False)
        elif k == 7:
            op = d.pick(['Sll', 'Srl', 'Sra'])
            j = pick(lambda w, s: w <= 3 and not s)
            if j is not None and d.bool():
                b, v = ['n', j], 1 << att[j][0]
            else:
                v = d.int(0, 6)
                b = ['c', v]
            w = wa + v if op == 'Sll' else wa
            if w > CAP:
                continue
            add(['bin', op, A, b], w, sa and op != 'Srl')
        elif k == 8:
            add(['bin', d.pick(['Land', 'Lor']), A, d.pick([['n', pick()], ['c', d.int(0, 1)]])], 1, False)
        elif k == 9:
            op = d.pick(['Uplus', 'Uminus', 'Unot'])
            add(['un', op, A], wa, sa and op != 'Unot')
        elif k == 10:
            add(['un', d.pick(RED), A], 1, False)
        elif k == 11:
            j = d.int(0, 3)
            if j == 0:
                add(['ptr', A, ['c', d.int(0, wa - 1)]], 1, False)
            elif j == 1:
                i = pick(lambda w, s: not s and (1 << w) <= wa)
                if i is None:
                    continue
                add(['ptr', A, ['n', i]], 1, False)
            else:
                lo = d.int(0, wa - 1)
                hi = d.int(lo, wa - 1)
                form = d.pick(['getitem', 'slice', 'Slice', 'step', 'neg'])
                add(['slice', A, hi, lo, form], (hi - lo) // 2 + 1 if form == 'step' else hi - lo + 1, False)
        elif k == 12:
            xs = [A] + [d.pick([['n', pick()], ['n', pick()], A]) for _ in range(d.int(0, 2))]
            w = sum(oatt(x)[0] for x in xs)
            if w > CAP:
                continue
            add(['cat', xs], w, False)
        elif k == 13:
            t = d.int(1, 3)
            if wa * t > CAP:
                continue
            add(['rep', A, t], wa * t, False)
        elif k == 14:
            b = operand(a)
            if oatt(b)[1] != sa:
                b = A       # the selection of a constant (signed) or an unsigned value is signed
            add(['cond', ['n', pick()], A, b] if d.bool() else ['cond', ['n', pick()], b, A], max(wa, oatt(b)[0]), sa)
        elif k == 15:
            if not sa:
                continue
            op = d.pick(['Abs', 'Sign'])
            add(['un', op, A], wa if op == 'Abs' else 1, op == 'Abs')
        elif k == 16:
            j = pick(lambda w, s: s == sa and w == wa)
            op = d.pick(sorted(CUSTOM))
            add(['custom', op, A, ['n', j]], wa, sa)
        elif k == 17:
            size = d.int(1, 9)
            aw = d.int(1, 8)
            s2 = d.bool()
            vals = [d.int(-(1 << (aw - 1)) if s2 else 0, (1 << (aw - 1 if s2 else aw)) - 1) for _ in range(size)]
            j = pick(lambda w, s: not s)
            if j is None:
                continue
            add(['lut', ['n', j], vals], aw, s2)
        elif k == 18:
            if hs == 'none':
                continue
            add(['prev', A, d.int(1, 3)], wa, sa, True)
        elif k in (19, 20):
            if hs == 'none':
                continue
            kind = d.pick(['ReduceAdd', 'ReduceSub', 'ReduceMul', 'ReduceCustom', 'Pulse', 'Counter', 'ReduceAddValid'])
            kw = {}
            if d.bool() or kind in ('Pulse', 'ReduceAddValid'):
                kw['size'] = ['c', d.int(1, 6)]
                if par and d.chance(4):
                    kw['size'] = ['p', 0]
            if kind != 'Pulse':
                kw['initval'] = d.pick([0, 0, 1, d.int(0, 5)])
                if d.chance(3) and kind == 'Counter' or kind != 'Counter' and d.chance(4):
                    kw['width'] = d.int(max(wa, 4), 40)
                if kind == 'Counter':
                    kw['step'] = d.pick([1, 1, 2, 3])
            for c in ('enable', 'reset'):
                if d.chance(3) and (c == 'enable' or 'size' not in kw):
                    kw[c] = ['n', pick(lambda w, s: w == 1) if d.bool() and pick(lambda w, s: w == 1) is not None else pick()]
            ctl = A
            w, s = wa, sa
            if kind.startswith('Reduce'):
                kw['initval'] = min(kw['initval'], (1 << (kw.get('width', wa) - sa)) - 1)
            if kind == 'Counter':
                w, s = kw.get('width', 32), False
            elif kind == 'Pulse':
                w, s = 1, False
            else:
                w = kw.get('width', wa)
            add(['acc', kind, ctl, kw, d.pick(sorted(CUSTOM))], w, s, True)
            if kind == 'ReduceAddValid':
                add(['second', len(nodes) - 1], 1, False, True)
        else:
            if d.bool():
                add(['alias', A], wa, sa)
            elif hs != 'none':
                add(['count', d.int(0, 4), d.pick([1, 2, 3]), d.pick([None, d.int(1, 5)])], 32, False, True)
    if any(x > 60 for x, _ in att):
        pass
    outs = sorted(set([len(nodes) - 1] + d.subset(range(len(nodes)))))
    outs = [o for o in outs if not inf[o]][-4:]
    if not outs:
        outs = [0]
    if hs == 'ready' and conflict(nodes, outs):
        used = set(root(nodes, o[1]) for nd in nodes for o in operands(nd) if o[0] == 'n' and nd[0] not in ('alias', 'prev'))
        outs = [o for o in outs if root(nodes, o) not in used] or outs[-1:]
        outs = list({root(nodes, o): o for o in outs}.values())
        if conflict(nodes, outs):
            hs = 'valid'
    rows = []
    pv, pr = d.int(1, 4), d.int(1, 4)
    for _ in range(d.int(10, 30)):
        rows.append([[d.pick([0, 1, (1 << w) - 1, 1 << (w - 1), d.int(0, (1 << w) - 1), d.int(0, min(20, (1 << w) - 1))]) for w, _ in ins],
                     [d.int(0, 3) < pv for _ in ins], [d.int(0, 3) < pr for _ in range(4)]])
    return dict(hs=hs, api=api, W=W, S=S, ins=ins, par=par, nodes=nodes, att=att, outs=outs, rows=rows, together=hs == 'valid' or d.chance(3), form=d.bool(),
                order=d.chance(3), named=d.bool())


def operands(nd):
    k = nd[0]
    if k in ('in', 'count'):
        return []
    if k == 'second':
        return [['n', nd[1]]]
    if k == 'cat':
        return nd[1]
    if k == 'acc':
        return [nd[2]] + [nd[3][c] for c in ('enable', 'reset') if c in nd[3]]
    return [x for x in nd[1:] if isinstance(x, list) and x and x[0] in ('n', 'c', 'p')]


def root(nodes, i):
    """the node that node i shares its handshake with"""
    while nodes[i][0] in ('alias', 'prev'):
        i = nodes[i][1][1]
    return i


def conflict(nodes, outs):
    """the two handshake defects of the known findings: an operator takes operands of which one has other destinations, or two outputs share a handshake"""
    roots = [root(nodes, o) for o in outs]
    if len(set(roots)) < len(roots):
        return True
    uses = {}
    need = set(roots)
    todo = list(need)
    while todo:                 # nodes that reach no output are not part of the design
        i = todo.pop()
        rs = set(root(nodes, o[1]) for o in operands(nodes[i]) if o[0] == 'n')
        for r in rs:
            uses.setdefault(r, []).append(i)
            if r not in need:
                need.add(r)
                todo.append(r)
    for r in roots:
        uses.setdefault(r, []).append('out')
    for i in need:
        nd = nodes[i]
        rs = set(root(nodes, o[1]) for o in operands(nd) if o[0] == 'n')
        simple = nd[0] in ('in', 'count', 'slice', 'rep', 'second', 'acc') or nd[:2] in [['bin', o] for o in ARITH + CMP + BITS] or nd[:2] in [
            ['un', o] for o in RED + ['Uplus', 'Uminus', 'Unot']]
        if (len(rs) > 1 or not simple) and any(len(set(uses[r])) > 1 for r in rs):
            return True
    return False


def wrap(v, w, s):
    v &= (1 << w) - 1
    return v - (1 << w) if s and v >> (w - 1) else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def support(s, i):
    """the inputs a node depends on"""
    nd = s['nodes'][i]
    if nd[0] == 'in':
        return {nd[1]}
    return set(x for o in operands(nd) if o[0] == 'n' for x in support(s, o[1]))


class Model(object):
    """values(i, n): the first n values of node i, given the values of the inputs"""

    def __init__(self, s, inputs):
        self.s = s
        self.inputs = inputs
        self.cache = {}
        self.state = {}         # value, count and end of block of the accumulators

    def length(self, i):
        nd = self.s['nodes'][i]
        if nd[0] == 'in':
            return len(self.inputs[nd[1]])
        if nd[0] == 'count':
            return 10 ** 6
        return min([self.length(o[1]) for o in operands(nd) if o[0] == 'n'])

    def value(self, o, k):
        if o[0] == 'c':
            return o[1]
        if o[0] == 'p':
            return self.s['par'][o[1]][1]
        return self.at(o[1], k)

    def at(self, i, k):
        if (i, k) not in self.cache:
            w, s = self.s['att'][i]
            if self.s['nodes'][i][0] == 'acc' and k:
                self.at(i, k - 1)
            self.cache[i, k] = wrap(self.compute(i, k), w, s)
        return self.cache[i, k]

    def compute(self, i, k):
        nd = self.s['nodes'][i]
        att = self.s['att']
        t = nd[0]
        w, s = att[i]
        val = lambda o: self.value(o, k)

        def bits(o, w2=None):
            """the bits of an operand, at its own width"""
            v = val(o)
            ww = att[o[1]][0] if o[0] == 'n' else cw(o[1])
            return v & ((1 << ww) - 1)
        if t == 'in':
            return self.inputs[nd[1]][k]
        if t == 'count':
            size = nd[3]
            return nd[1] + nd[2] * (k % size if size else k)
        if t == 'second':
            self.at(nd[1], k)
            return self.state[nd[1], k][2]
        if t == 'alias':
            return val(nd[1])
        if t == 'prev':
            return self.value(nd[1], k - nd[2]) if k >= nd[2] else 0
        if t == 'cat':
            r = 0
            for o in nd[1]:
                r = r << att[o[1]][0] | bits(o)
            return r
        if t == 'rep':
            return sum(bits(nd[1]) << (att[nd[1][1]][0] * j) for j in range(nd[2]))
        if t == 'ptr':
            p = val(nd[2])
            return bits(nd[1]) >> p & 1
        if t == 'slice':
            hi, lo = nd[2], nd[3]
            if nd[4] == 'step':
                return sum((bits(nd[1]) >> b & 1) << j for j, b in enumerate(range(lo, hi + 1, 2)))
            return bits(nd[1]) >> lo & ((1 << (hi - lo + 1)) - 1)
        if t == 'cond':
            return val(nd[2]) if val(nd[1]) else val(nd[3])
        if t == 'custom':
            return PYCUSTOM[nd[1]](val(nd[2]), val(nd[3]))
        if t == 'lut':
            a = val(nd[1])
            return nd[2][a if a < len(nd[2]) else 0]
        if t == 'un':
            a = val(nd[2])
            op = nd[1]
            wa = att[nd[2][1]][0]
            if op in RED:
                b = bits(nd[2])
                M = (1 << wa) - 1
                return {'Uand': b == M, 'Unand': b != M, 'Uor': b != 0, 'Unor': b == 0, 'Uxor': bin(b).count('1') & 1,
                        'Uxnor': 1 ^ bin(b).count('1') & 1, 'Ulnot': b == 0}[op] & 1
            return {'Uplus': lambda: a, 'Uminus': lambda: -a, 'Unot': lambda: ~a, 'Abs': lambda: abs(a), 'Sign': lambda: int(a >= 0)}[op]()
        if t == 'bin':
            op = nd[1]
            a, b = val(nd[2]), val(nd[3])
            if op in ('Sll', 'Srl', 'Sra'):
                return a << b if op == 'Sll' else bits(nd[2]) >> b if op == 'Srl' else a >> b
            return {'Plus': lambda: a + b, 'Minus': lambda: a - b, 'Times': lambda: a * b, 'Divide': lambda: tdiv(a, b), 'Mod': lambda: a % b,
                    'Cond0': lambda: a | 1 if not s else a if a else 1,
                    'And': lambda: a & b, 'Or': lambda: a | b, 'Xor': lambda: a ^ b, 'Xnor': lambda: ~(a ^ b),
                    'Land': lambda: int(bool(a) and bool(b)), 'Lor': lambda: int(bool(a) or bool(b)),
                    'LessThan': lambda: int(a < b), 'GreaterThan': lambda: int(a > b), 'LessEq': lambda: int(a <= b),
                    'GreaterEq': lambda: int(a >= b), 'Eq': lambda: int(a == b), 'NotEq': lambda: int(a != b)}[op]()
        assert t == 'acc'
        kind, kw = nd[1], nd[3]
        size = self.value(kw['size'], 0) if 'size' in kw else None
        init = kw.get('initval', 0)
        step = kw.get('step', 1)
        if kind == 'Counter':
            init -= step
        cur, cnt, pulse = self.state[i, k - 1] if k else (init, 0, 0)
        en = val(kw['enable']) if 'enable' in kw else 1
        rs = val(kw['reset']) if 'reset' in kw else 0
        if rs:
            cur, cnt = init, 0
            # the output of a counter or sum that is reset shows its initial value
        if en:
            if size is not None and cnt == 0:
                cur = init
            x = val(nd[2])
            op = {'ReduceAdd': lambda a, b: a + b, 'ReduceAddValid': lambda a, b: a + b, 'ReduceSub': lambda a, b: a - b,
                  'ReduceMul': lambda a, b: a * b, 'ReduceCustom': PYCUSTOM[nd[4]], 'Counter': lambda a, b: a + step, 'Pulse': lambda a, b: 0}[kind]
            cur = wrap(op(wrap(cur, w, s), x), w, s)
            if size is not None:
                cnt += 1
                pulse = int(cnt >= size)
                if cnt >= size:
                    cnt = 0
        elif rs:
            pulse = 0
        self.state[i, k] = (cur, cnt, pulse)
        return pulse if kind == 'Pulse' else cur


def construct(s):
    veriloggen.reset()
    hs, api = s['hs'], s['api']
    nin = len(s['ins'])
    outs = s['outs']
    m = None
    if api != 'module':
        m = Module('dut')
        clk, rst = m.Input('CLK'), m.Input('RST')
        flow = dataflow.DataflowManager(m, clk, rst)
        df = flow
    else:
        df = dataflow
    ports = ['CLK', 'RST']
    nv = []
    pars = []
    params = []
    for j, (kind, v) in enumerate(s['par']):
        if kind == 'param' and api == 'module':
            pars.append(df.Parameter('P%d' % j, v, width=s['W'], signed=s['S']))
        elif kind == 'int':
            pars.append(df.ParameterVariable(v, width=s['W'], signed=s['S']))
        elif api == 'module':
            pars.append(df.ParameterVariable('p%d' % j, width=s['W'], signed=s['S']))
            params.append((j, v))
        else:
            p = m.Input('p%d' % j, s['W'], signed=s['S'])
            params.append((j, v))
            pars.append(df.ParameterVariable(p, width=s['W'], signed=s['S']))

    def node(o):
        return o[1] if o[0] == 'c' else pars[o[1]] if o[0] == 'p' else nv[o[1]]
    connects = []
    for nd in s['nodes']:
        t = nd[0]
        if t == 'in':
            i = nd[1]
            w, sg = s['ins'][i]
            x, v, r = 'x%d' % i, 'xv%d' % i if hs != 'none' else None, 'xr%d' % i if hs == 'ready' else None
            if api == 'rw':
                nv.append(df.Variable('in%d_data' % i, 'in%d_valid' % i if v else None, 'in%d_ready' % i if r else None, width=w, signed=sg))
                continue
            if api == 'manager':
                x = m.Input(x, w, signed=sg)
                v = m.Input(v) if v else None
                r = m.Output(r) if r else None
            nv.append(df.Variable(x, v, r, width=w, signed=sg))
        elif t == 'alias':
            o = nd[1]
            w, sg = s['att'][o[1]]
            v = df.Variable(width=w, signed=sg)
            nv.append(v)
            if s['form']:
                v.connect(nv[o[1]])
            else:
                connects.append((v, nv[o[1]]))
        elif t == 'bin':
            a, b = node(nd[2]), node(nd[3])
            if nd[1] == 'Cond0':
                nv.append(df.Mux(a == 0, 1, a) if a.get_signed() else a | 1)
                continue
            f = {'Plus': lambda: a + b, 'Minus': lambda: a - b, 'Times': lambda: a * b, 'Divide': lambda: a / b, 'Mod': lambda: a % b,
                 'And': lambda: a & b, 'Or': lambda: a | b, 'Xor': lambda: a ^ b, 'LessThan': lambda: a < b, 'GreaterThan': lambda: a > b,
                 'LessEq': lambda: a <= b, 'GreaterEq': lambda: a >= b, 'Eq': lambda: a == b, 'NotEq': lambda: a != b,
                 'Sll': lambda: a << b, 'Srl': lambda: a >> b, 'Sra': lambda: a.sra(b)}.get(nd[1])
            if s['form'] and f and (not isinstance(a, int) or nd[1] in ('Plus', 'Minus')):
                nv.append(f())
            else:
                nv.append(getattr(df, nd[1])(a, b))
        elif t == 'un':
            a = node(nd[2])
            if s['form'] and nd[1] in ('Uminus', 'Unot', 'Uplus'):
                nv.append({'Uminus': lambda: -a, 'Unot': lambda: ~a, 'Uplus': lambda: +a}[nd[1]]())
            else:
                nv.append(getattr(df, nd[1])(a))
        elif t == 'ptr':
            a, b = node(nd[1]), node(nd[2])
            nv.append(a[b] if s['form'] else df.Pointer(a, b))
        elif t == 'slice':
            a, hi, lo, form = node(nd[1]), nd[2], nd[3], nd[4]
            w = s['att'][nd[1][1]][0]
            if form == 'getitem':
                nv.append(a[lo:hi + 1])
            elif form == 'step':
                nv.append(a[lo:hi + 1:2])
            elif form == 'neg':
                nv.append(a[lo - w:hi + 1] if hi == w - 1 else a[lo - w:hi + 1 - w])
            elif form == 'slice':
                nv.append(a.slice(hi, lo))
            else:
                nv.append(df.Slice(a, hi, lo))
        elif t == 'cat':
            nv.append(df.Cat(*[node(o) for o in nd[1]]))
        elif t == 'rep':
            nv.append(df.Repeat(node(nd[1]), nd[2]) if s['form'] else node(nd[1]).repeat(nd[2]))
        elif t == 'cond':
            nv.append((df.Mux if s['form'] else df.Cond)(node(nd[1]), node(nd[2]), node(nd[3])))
        elif t == 'custom':
            nv.append(df.CustomOp(CUSTOM[nd[1]], node(nd[2]), node(nd[3])))
        elif t == 'lut':
            i = nd[1][1]
            a = node(nd[1])
            w, sg = s['att'][len(nv)]
            nv.append(df.LUT(a if len(nd[2]) >= 1 << s['att'][i][0] else df.Mux(a < len(nd[2]), a, 0), nd[2], width=w, signed=sg))
        elif t == 'prev':
            nv.append(node(nd[1]).prev(nd[2]))
        elif t == 'count':
            nv.append(df.Counter(step=nd[2], initval=nd[1], size=nd[3]))
        elif t == 'second':
            nv.append(second)
        else:
            kind, kw = nd[1], dict(nd[3])
            for c in ('enable', 'reset', 'size'):
                if c in kw:
                    kw[c] = node(kw[c])
            a = node(nd[2])
            if kind == 'ReduceCustom':
                nv.append(df.ReduceCustom(CUSTOM[nd[4]], a, **kw))
            elif kind == 'Pulse':
                nv.append(df.Pulse(kw.pop('size'), a, **kw))
            elif kind == 'Counter':
                nv.append(df.Counter(control=a, **kw))
            elif kind == 'ReduceAddValid':
                x, second = df.ReduceAddValid(a, kw.pop('size'), **kw)
                nv.append(x)
            else:
                nv.append(getattr(df, kind)(a, **kw))
    for v, x in connects:
        v.connect(x)
    # the declared attributes are what the values are compared at
    for i, v in enumerate(nv):
        w, sg = s['att'][i]
        if v.get_width() != w:
            raise Violation('node %d %s is %d bits wide, expected %d' % (i, s['nodes'][i], v.get_width(), w))
    order = outs[::-1] if s['order'] else outs
    outl = []
    for j, i in enumerate(order):
        base = i
        while s['nodes'][base][0] == 'alias':
            base = s['nodes'][base][1][1]
        if any(nv[base] is nv[o[2]] for o in outl):       # the same node: previous values are shared
            continue
        w, sg = s['att'][i]
        y, v, r = 'y%d' % j, 'yv%d' % j if hs != 'none' else None, 'yr%d' % j if hs == 'ready' else None
        outl.append((i, j, base))
        if api == 'module':
            nv[i].output(y, v, r)
        elif api == 'manager':
            nv[i].output(m.Output(y, w, signed=sg), m.Output(v) if v else None, m.Input(r) if r else None)
        else:
            r = m.Input(r) if r else None
            nv[i].output('out%d_data' % j, 'out%d_valid' % j, 'out%d_ready' % j if r is not None else None)
            data, valid = nv[i].read(r) if r is not None else nv[i].read()
            m.Assign(m.Output(y, w, signed=sg)(data))
            m.Assign(m.Output(v)(valid))
    if api == 'rw':
        for i, (w, sg) in enumerate(s['ins']):
            if not any(i in support(s, o) for o, _, _ in outl):
                m.Input('xv%d' % i), m.Input('x%d' % i), hs == 'ready' and m.Output('xr%d' % i)
                continue
            go = m.Input('xv%d' % i)
            ack = nv[i].write(m.Input('x%d' % i, w, signed=sg), cond=go)
            if hs == 'ready':
                m.Output('xr%d' % i).assign(ack)
    if api == 'module':
        flow = dataflow.Dataflow(*[nv[i] for i, _, _ in outl])
        m = flow.to_module('dut')
    for i in range(nin):
        ports += ['x%d' % i] + (['xv%d' % i] if hs != 'none' else []) + (['xr%d' % i] if hs == 'ready' else [])
    for _, j, _ in outl:
        ports += ['y%d' % j] + (['yv%d' % j] if hs != 'none' else []) + (['yr%d' % j] if hs == 'ready' else [])
    ports += ['p%d' % j for j, v in params]
    text = m.to_verilog()
    if api == 'module':
        # a parameter that is not used by any output does not become a port
        params = [(j, v) for j, v in params if 'p%d' % j in m.io_variable]
        have = set(m.io_variable)
        ports = [p for p in ports if p in have]
    return text, ports, params, outl


def flow_run(s):
    hs, api = s['hs'], s['api']
    nin = len(s['ins'])
    text, ports, params, outl = construct(s)
    t = ['module tb;', '  reg CLK, RST; initial begin CLK = 0; forever #5 CLK = !CLK; end']
    for i, (w, _) in enumerate(s['ins']):
        t.append("  reg [%d:0] x%d; reg xv%d; wire xr%d; wire go%d = xr%d !== 1'b0;" % (w - 1, i, i, i, i, i))
    for j, v in params:
        t.append("  wire [%d:0] p%d = %d'd%d;" % (s['W'] - 1, j, s['W'], v))
    for i, j, _ in outl:
        t.append('  wire [%d:0] y%d; wire yv%d; reg yr%d;' % (s['att'][i][0] - 1, j, j, j))
    t.append('  dut d(%s);' % ', '.join('.%s(%s)' % (x, x) for x in ports))
    t.append('  task step; begin #4 $display("R %s", %s); @(negedge CLK); end endtask' % (
        ' '.join(['%b %b %h'] * nin + ['%b %b %h'] * len(outl)),
        ', '.join(['xv%d, xr%d, x%d' % (i, i, i) for i in range(nin)] + ['yv%d, yr%d, y%d' % (j, j, j) for _, j, _ in outl])))
    t.append('  initial begin RST = 1;' + ''.join(' x%d = 0; xv%d = 0;' % (i, i) for i in range(nin)) + ''.join(' yr%d = 0;' % j for _, j, _ in outl))
    t.append('    repeat(4) @(negedge CLK); RST = 0; repeat(2) @(negedge CLK);')
    lat = 8 + sum(8 if nd[:2] == ['bin', 'Times'] else 30 if nd[:2] in (['bin', 'Divide'], ['bin', 'Mod']) else 3 for nd in s['nodes'])
    drain = min(lat, 400) + len(s['rows'])
    for row in s['rows'] + [None] * drain:
        for i in range(nin):
            if row is None:
                t.append('    if(!(%d && xv%d && !took%d)) xv%d = 0;' % (hs == 'ready', i, i, i))
            else:
                v = 1 if hs == 'none' else row[1][0] if s['together'] else row[1][i]
                t.append("    if(!(%d && xv%d && !took%d)) begin xv%d = %d; x%d = %d'd%d; end" % (hs == 'ready', i, i, i, v, i, s['ins'][i][0], row[0][i]))
        for _, j, _ in outl:
            t.append('    yr%d = %d;' % (j, 1 if row is None else row[2][j]))
        t.append('    step;')
    t.append('    $display("END"); $finish(0); end')
    for i in range(nin):
        t.append('  reg took%d; always @(posedge CLK) took%d <= xv%d && xr%d;' % (i, i, i, i))
    t.append('endmodule')
    out = sim.compile_and_run(text + '\n'.join(t) + '\n', top='tb')
    lines = [l.split()[1:] for l in out.splitlines() if l.startswith('R ')]
    if len(lines) != len(s['rows']) + drain or 'END' not in out:
        raise Violation('simulation ended early\n' + out[:500])
    used = set(x for i, _, _ in outl for x in support(s, i))
    inputs = []
    for i, (w, sg) in enumerate(s['ins']):
        q = []
        for c, l in enumerate(lines):
            v, r, x = l[3 * i:3 * i + 3]
            if i in used:
                if hs == 'ready' and r not in '01':
                    raise Violation('ready of input %d is %s in cycle %d\n%s' % (i, r, c, text))
                if hs == 'none' or v == '1' and (hs == 'valid' or r == '1'):
                    q.append((c, wrap(int(x, 16), w, sg)))
        inputs.append(q)

    total = 0
    for k, (i, j, _) in enumerate(outl):
        off = 3 * (nin + k)
        name = 'output %d (node %d %s): ' % (j, i, s['nodes'][i])
        w, sg = s['att'][i]
        model = Model(s, [[x for _, x in q] for q in inputs])
        n = min(model.length(i), len(lines))
        want = [model.at(i, c) & ((1 << w) - 1) for c in range(n)]
        if hs == 'none':
            got = [l[off + 2] for l in lines]
            ok = False
            for lt in range(0, len(lines) - len(s['rows'])):
                if all(not set(g) & set('xz') and int(g, 16) == x for g, x in list(zip(got[lt:], want))[:len(s['rows'])]):
                    ok = True
                    break
            if not ok:
                raise Violation(name + 'no constant latency explains the values %s, expected %s\n%s' % (got[:60], ['%x' % x for x in want[:30]], text))
            total += len(s['rows'])
            continue
        got = []
        hold = None
        for c, l in enumerate(lines):
            v, r, y = l[off:off + 3]
            if v not in '01':
                raise Violation(name + 'valid is %s in cycle %d\n%s' % (v, c, text))
            if api != 'rw':
                if hold is not None and (v, y) != hold:
                    raise Violation(name + 'cycle %d: the value changed before it was accepted\n%s' % (c, text))
                hold = (v, y) if hs == 'ready' and v == '1' and r == '0' else None
            if v == '1' and (hs == 'valid' or r == '1' or api == 'rw'):
                got.append(y)
        least = min(len(q) for n2, q in enumerate(inputs) if n2 in used)
        if len(got) > len(want) or len(got) < min(least, len(want)) or any(set(g) & set('xz') or int(g, 16) != x for g, x in zip(got, want)):
            raise Violation(name + 'delivered %d values %s, expected %d %s\n%s' % (len(got), got, len(want), ['%x' % x for x in want], text))
        total += len(got)
    return dict(nontrivial=total > 5, labels=[hs, api] + sorted(set(nd[0] if nd[0] not in ('acc', 'bin', 'un') else nd[1] for nd in s['nodes'])))


PARTS = [Part('flow', flow_case(), flow_run, quick=1200, thorough=40000)]

if __name__ == '__main__':
    main('C21', PARTS,
         rule='random graphs (1-3 inputs, 1-8 operators of all kinds, accumulators with size/enable/reset, counters, previous values, aliases, '
              'parameters, 1-4 outputs) built through to_module, a manager on existing signals, or read/write, driven with random valid/ready patterns; '
              'every output sequence is compared with the graph applied to the accepted values; non-trivial = more than 5 output values compared',
         assumptions=['operands of an arithmetic operator, comparison or selection are all signed or all unsigned',
                      'divisors are not 0; the remainder is checked for unsigned operands',
                      'all inputs and outputs of a graph use the same kind of handshake; without ready, the inputs are valid at the same time',
                      'where the known findings apply, the generator avoids them: with backpressure, operands of an operator have no other destination and '
                      'outputs have handshakes of their own; the dividend and divisor use half of their range; accumulators have a size or a reset; '
                      'signed constant parameters are not used'])
