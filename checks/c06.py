"""C06: importing Verilog preserves the behaviour of the source.

Part written: random modules written in the styles people use and the library does not emit (ascending and shifted ranges, headers with and without
declarations, parameters in and outside the header, localparams, signed nets, part-selects, case and casex with several labels, nested loops, functions,
memories, generate loops, positional and named child instances with parameter overrides, both clock edges), with every internal value observable.
Parts core and library: the texts the library emits for the designs of the other checks, with the reference test benches.  Oracle: the source itself; all
or a random subset of its modules is read by the importer and generated again, and the simulation must print the same lines.  Reading the generated text
again must give the same text.
"""
import re

import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, Inconclusive, main
from vlib import sim
from checks import c04

import veriloggen
from veriloggen.core.module import Module, StubModule
from veriloggen.verilog import from_verilog
from pyverilog.vparser.parser import ParseError

MOD = re.compile(r'^[ \t]*module\s+(\w+).*?^[ \t]*endmodule', re.S | re.M)
TASKCALL = re.compile(r'\btk\([^;]*\);')
UNSUPPORTED = re.compile(r'not currently supported|Only generate-for|Unsupported|No such port type')


class Rejected(Exception):
    pass


def modules(text):
    return {x.group(1): x.group(0) for x in MOD.finditer(text)}


def read(text):
    veriloggen.reset()
    try:
        return from_verilog.read_verilog_module_str(text)
    except ParseError as e:
        raise Rejected('parser')
    except (TypeError, ValueError) as e:
        if UNSUPPORTED.search(str(e)):
            raise Rejected('unsupported')
        raise


def generate(mods):
    out = {}
    for name, m in mods.items():
        for n, t in modules(m.to_verilog()).items():
            if out.setdefault(n, t) != t:
                raise Violation('module %s is generated in two ways:\n%s\n---\n%s' % (n, out[n], t))
    return out


def lines(out):
    return [x for x in out.splitlines() if '$finish' not in x]


def again(code, mask):
    """the code in which the modules selected by the mask are read and generated again"""
    mods = modules(code)
    inst = set()
    for n in mods:
        for k, t in mods.items():
            if k != n and re.search(r'^\s*%s\s*(#\s*\(|\w+\s*\[?[^;]*\()' % re.escape(n), t, re.M):
                inst.add(n)
    keep = {n: t for n, t in mods.items() if n not in inst} if inst else {}
    src = {n: t for n, t in mods.items() if n not in keep}
    if not src:
        return None
    some = {n: t for i, (n, t) in enumerate(src.items()) if mask >> (i % 8) & 1}
    src = some or src
    rest = code
    for n in src:
        rest = rest.replace(src[n], '', 1)
    try:
        got = read('\n\n'.join(src.values()) + '\n')
    except Rejected as e:
        return str(e)
    for n in src:
        if n not in got:
            raise Violation('module %s is not read' % n)
    new = generate(got)
    for n in src:
        if n not in new:
            raise Violation('module %s is not generated' % n)
    text = '\n\n'.join(new[n] for n in src) + '\n'
    try:
        new2 = generate(read(text))
    except Rejected as e:
        raise Violation('the generated text is not read again (%s):\n%s' % (e, text[:3000]))
    for n in new:
        if n in src and new2.get(n) != new[n]:
            c04.same('module %s read and generated again' % n, new[n], new2.get(n) or '')
    return text + '\n' + rest, len(src), text


class Done(BaseException):
    pass


def run(s):
    g, n, d = s['a']
    res = {}
    orig = sim.compile_and_run

    def step(text, *a, **k):
        text = TASKCALL.sub(';', text)      # the parser does not know calls of tasks
        r = again(text, s['mask'])
        if r is None or isinstance(r, str):
            res['skip'] = r or 'empty'
            raise Done()
        code, cnt, new = r
        sim.compile_and_run = orig
        want = orig(text, *a, **k)
        got = orig(code, *a, **k)
        if lines(want) != lines(got):
            w, x = lines(want), lines(got)
            i = next((j for j in range(min(len(w), len(x))) if w[j] != x[j]), min(len(w), len(x)))
            raise Violation('the imported modules behave differently: line %d is %s, not %s\n%s' % (i + 1, x[i:i + 1], w[i:i + 1], new[:6000]))
        res['lines'] = len(lines(want))
        res['mods'] = cnt
        raise Done()
    sim.compile_and_run = step
    try:
        c04.parts_of(g)[n].fn(d)
    except Done:
        pass
    finally:
        sim.compile_and_run = orig
    lab = ['%s-%s' % (g, n)]
    if 'lines' not in res:
        return dict(nontrivial=False, labels=lab + ['skipped %s' % res.get('skip', 'no simulation'), lab[0] + ' skipped'])
    return dict(nontrivial=res['lines'] > 0, labels=lab + ['compared'])


@spec
def case(d, groups):
    return dict(a=c04.design(d, groups), mask=255 if d.chance(3) else d.int(1, 255))


# ---------------------------------------------------------------------------------------------- written sources
class Gen(object):
    """writes a module in the styles people use and the library does not"""

    def __init__(self, d):
        self.d = d
        self.vars = []      # (name, left bound or None, right bound, signed)
        self.n = 0

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def rng(self):
        d = self.d
        k = d.int(0, 5)
        w = d.int(1, 12)
        if k == 0:
            return None, None
        if k <= 2:
            return w - 1, 0
        lo = d.int(1, 5)
        if k == 3:
            return lo + w - 1, lo
        if k == 4:
            return 0, w - 1
        return lo, lo + w - 1

    def rtext(self, l, r):
        if l is None:
            return ''
        k = self.d.int(0, 4)
        if k == 0 and 'N' in self.consts and l > r:
            return '[N + %d:%d]' % (l - self.consts['N'], r) if l >= self.consts['N'] else '[%d:%d]' % (l, r)
        if k == 1:
            return "[%d - 1:%d]" % (l + 1, r)
        return '[%d:%d]' % (l, r)

    def lit(self):
        d = self.d
        k = d.int(0, 4)
        w = d.int(1, 12)
        v = d.int(0, (1 << w) - 1)
        return [str(v), "%d'd%d" % (w, v), "%d'h%x" % (w, v), "%d'sb%s" % (w, bin(v)[2:]), "'h%x" % v][k]

    def ref(self, vs):
        d = self.d
        n, l, r, s = d.pick(vs)
        k = d.int(0, 4)
        if l is None or k <= 2:
            return n
        lo, hi = min(l, r), max(l, r)
        a = d.int(lo, hi)
        if k == 3:
            return '%s[%d]' % (n, a)
        b = d.int(lo, a)
        return '%s[%d:%d]' % ((n, a, b) if l >= r else (n, b, a))

    def expr(self, vs, depth=2):
        d = self.d
        k = d.int(0, 11) if depth else d.int(0, 3)
        if k == 0:
            return self.lit()
        if k == 1 and self.consts:
            return d.pick(sorted(self.consts))
        if k <= 3:
            return self.ref(vs) if vs else self.lit()
        e = lambda: self.expr(vs, depth - 1)
        if k <= 6:
            return '(%s %s %s)' % (e(), d.pick(['+', '-', '*', '&', '|', '^', '~^', '&&', '||', '==', '!=', '<', '<=', '>', '>=', '<<', '>>', '>>>']), e())
        if k == 7:
            return '%s %s %s' % (self.expr(vs, 0), d.pick(['+', '-', '&', '|', '<<']), self.expr(vs, 0))
        if k == 8:
            return '(%s%s)' % (d.pick(['~', '!', '-', '&', '|', '^', '~&', '~|', '~^', '+']), self.expr(vs, 0))
        if k == 9:
            return '(%s ? %s : %s)' % (e(), e(), e())
        if k == 10:
            m = [self.ref(vs) if vs else "1'b1" for _ in range(d.int(1, 3))]
            return '{%s}' % ', '.join(m) if d.chance(2) else '{%d{%s}}' % (d.int(1, 3), m[0])
        f = d.pick(['$signed(%s)', '$unsigned(%s)'] + ['%s(%%s)' % f for f in self.funs])
        return f % e()

    def target(self, t):
        n, l, r, s = t
        d = self.d
        k = d.int(0, 5)
        if l is None or k <= 3:
            return n
        lo, hi = min(l, r), max(l, r)
        a = d.int(lo, hi)
        if k == 4:
            return '%s[%d]' % (n, a)
        b = d.int(lo, a)
        return '%s[%d:%d]' % ((n, a, b) if l >= r else (n, b, a))

    def stmts(self, ts, vs, op, depth, ind='    '):
        d = self.d
        out = []
        for _ in range(d.int(1, 3)):
            k = d.int(0, 8) if depth else 0
            if k <= 3:
                e = self.expr(vs)
                if d.chance(2) and vs:
                    e = '(%s %s %s)' % (e, d.pick(['^', '+', '-']), d.pick(vs)[0])
                out.append('%s%s %s %s;' % (ind, self.target(d.pick(ts)), op, e))
            elif k <= 5:
                s = ind + 'if(%s) begin\n%s\n%send' % (self.expr(vs, 1), self.stmts(ts, vs, op, depth - 1, ind + '  '), ind)
                if d.chance(3):
                    s = ind + 'if(%s) %s' % (self.expr(vs, 1), self.stmts(ts, vs, op, 0, '').splitlines()[0])
                if d.chance(2):
                    s += ' else begin\n%s\n%send' % (self.stmts(ts, vs, op, depth - 1, ind + '  '), ind) if s.endswith('end') else ' else ' + \
                        self.stmts(ts, vs, op, 0, '').splitlines()[0]
                out.append(s)
            elif k <= 7:
                sel = self.ref(vs) if vs else self.lit()
                x = d.chance(3)
                lab = [["3'b1x0", "2'b0x", "4'b1xxx"][i % 3] if x and d.chance(2) else self.lit() for i in range(d.int(1, 4))]
                items = ['%s  %s: begin\n%s\n%s  end' % (ind, ', '.join([v] + [self.lit()] * d.chance(4)), self.stmts(ts, vs, op, 0, ind + '    '), ind)
                         for v in lab]
                if d.chance(2):
                    items.append('%s  default: %s' % (ind, self.stmts(ts, vs, op, 0, '').splitlines()[0]))
                out.append('%s%s(%s)\n%s\n%sendcase' % (ind, 'casex' if x else 'case', sel, '\n'.join(items), ind))
            else:
                out.append('%sfor(i = 0; i < %d; i = i + 1) begin\n%s\n%send' % (ind, d.int(1, 3), self.stmts(ts, vs + [('i', None, None, True)], op,
                                                                                                    depth - 1, ind + '  '), ind))
        return '\n'.join(out)

    def child(self):
        d = self.d
        w = d.int(1, 9)
        ins = [('a', ) + self.rng() + (d.chance(3),), ('b',) + self.rng() + (d.chance(3),)]
        sg = lambda s: 'signed ' if s else ''
        if d.chance(2):
            ports = ', '.join('input %s%s %s' % (sg(s), self.rtext(l, r), n) for n, l, r, s in ins) + ', output [K - 1:0] y'
            decl = ''
        else:
            ports = 'a, b, y'
            decl = ''.join('  input %s%s %s;\n' % (sg(s), self.rtext(l, r), n) for n, l, r, s in ins) + '  output [K - 1:0] y;\n'
        head = ' #(parameter K = %d)' % w if d.chance(2) else ''
        if not head:
            decl = '  parameter K = %d;\n' % w + decl
        return 'module child%s(%s);\n%s  assign y = %s;\nendmodule\n' % (head, ports, decl, self.expr(ins + [('K', None, None, True)]))

    def module(self):
        d = self.d
        self.consts, self.funs = {}, []
        child = self.child() if d.chance(2) else None
        body, params = [], []
        nval = d.int(1, 6)
        pdecl = '%sN = %d' % (d.pick(['', 'signed [7:0] ', '[3:0] ', 'integer ']) if d.chance(3) else '', nval)
        pdecl = pdecl.replace('integer ', 'signed ')
        self.consts['N'] = nval
        ansi = d.chance(2)
        ins = [(self.name('x'),) + self.rng() + (d.chance(3),) for _ in range(d.int(1, 3))]
        outs = [(self.name('y'),) + self.rng() + (d.chance(3),) for _ in range(d.int(1, 3))]
        kinds = [d.pick(['wire', 'reg', 'comb']) for _ in outs]
        sg = lambda s: 'signed ' if s else ''
        if d.chance(2):
            self.consts['M'] = 0
            body.append('  localparam %sM = %s;' % (d.pick(['', '[5:0] ', 'signed [5:0] ']), d.pick(['N', 'N + 1', 'N * 2', '3', "4'd9", '-N'])))
        head = []
        if ansi:
            ports = ['input CLK'] + ['input %s%s %s' % (sg(s), self.rtext(l, r), n) for n, l, r, s in ins]
            ports += ['output %s%s%s %s' % ('' if k == 'wire' else 'reg ', sg(s), self.rtext(l, r), n) for (n, l, r, s), k in zip(outs, kinds)]
        else:
            ports = ['CLK'] + [v[0] for v in ins + outs]
            head.append('  input CLK;')
            head += ['  input %s%s %s;' % (sg(s), self.rtext(l, r), n) for n, l, r, s in ins]
            for (n, l, r, s), k in zip(outs, kinds):
                head.append('  output %s%s %s;' % (sg(s), self.rtext(l, r), n))
                if k != 'wire':
                    head.append('  reg %s%s %s;' % (sg(s), self.rtext(l, r), n))
        vs = list(ins)
        if d.chance(2):
            l, r = self.rng()
            fv = [('p',) + self.rng() + (d.chance(3),)]
            f = self.name('f')
            body.append('  function %s%s %s;\n    input %s%s p;\n    integer i;\n    begin\n      %s = 0;\n%s\n    end\n  endfunction' % (
                sg(d.chance(4)), self.rtext(l, r), f, sg(fv[0][3]), self.rtext(fv[0][1], fv[0][2]), f, self.stmts([(f, l, r, False)], fv, '=', 1, '      ')))
            self.funs.append(f)
        body.append('  integer i;')
        for _ in range(d.int(0, 3)):
            v = (self.name('w'),) + self.rng() + (d.chance(3),)
            k = d.int(0, 2)
            e = self.expr(vs)
            if k == 0:
                body.append('  wire %s%s %s;\n  assign %s = %s;' % (sg(v[3]), self.rtext(v[1], v[2]), v[0], v[0], e))
            elif k == 1:
                body.append('  wire %s%s %s = %s;' % (sg(v[3]), self.rtext(v[1], v[2]), v[0], e))
            else:
                body.append('  reg %s%s %s;\n  initial %s = 0;\n  always @(posedge CLK) begin\n%s\n  end' % (
                    sg(v[3]), self.rtext(v[1], v[2]), v[0], v[0], self.stmts([v], vs + [v], '<=', 2).replace('i = i + 1', 'i = i + 1')))
                body[-1] = self.own_i(body[-1])
            vs.append(v)
        if d.chance(3):
            mem = self.name('m')
            w, n2 = d.int(1, 9), 8
            body.append('  reg %s[%d:0] %s [%s];\n  initial for(i = 0; i < 8; i = i + 1) %s[i] = i * %d;\n  always @(posedge CLK) %s[%s & 7] <= %s;' % (
                sg(d.chance(3)), w - 1, mem, d.pick(['0:7', '7:0', '0:8-1']), mem, d.int(1, 40), mem, self.ref(vs), self.expr(vs)))
            body[-1] = self.own_i(body[-1])
            v = (self.name('w'), w - 1, 0, False)
            body.append('  wire [%d:0] %s;\n  assign %s = %s[%s & 7];' % (w - 1, v[0], v[0], mem, self.ref(vs)))
            vs.append(v)
        if child:
            v = (self.name('c'), 8, 0, False)
            a, b = self.expr(vs), self.expr(vs)
            par = d.pick(['', ' #(%d)' % d.int(1, 9), ' #(.K(%s))' % d.pick(['N', '5', 'N + 2'])])
            conn = '%s, %s, %s' % (a, b, v[0]) if d.chance(2) else '.y(%s), .a(%s), .b(%s)' % (v[0], a, b)
            body.append('  wire [8:0] %s;\n  child%s %s(%s);' % (v[0], par, self.name('inst'), conn))
            vs.append(v)
        if d.chance(3):
            v = (self.name('g'), 3, 0, False)
            g, b = self.name('k'), self.name('blk')
            body.append('  wire [3:0] %s;\n  genvar %s;\n  generate for(%s = 0; %s < 4; %s = %s + 1) begin : %s\n    wire t;\n    assign t = %s;\n'
                        '    if(%s > N) begin : hi\n      assign %s[%s] = t;\n    end else begin : lo\n      assign %s[%s] = ~t;\n    end\n  end\n  endgenerate' % (
                            v[0], g, g, g, g, g, b, self.expr(vs + [(g, None, None, True)], 1), g, v[0], g, v[0], g))
            vs.append(v)
        for o, k in zip(outs, kinds):
            if k == 'wire':
                body.append('  assign %s = %s;' % (o[0], self.expr(vs)))
            elif k == 'comb':
                body.append('  always @(%s) begin\n    %s = 0;\n%s\n  end' % ('*', o[0], self.stmts([o], vs, '=', 2)))
                body[-1] = self.own_i(body[-1])
            else:
                body.append('  initial begin\n    %s = %s;\n  end\n  always @(%s CLK)\n  begin\n%s\n  end' % (
                    o[0], self.lit(), d.pick(['posedge', 'negedge']), self.stmts([o], vs + [o], '<=', 2)))
                body[-1] = self.own_i(body[-1])
        inner = vs[len(ins):]
        width = lambda v: 1 if v[1] is None else abs(v[1] - v[2]) + 1
        if inner:
            # everything inside is observable
            z = ('zz', sum(width(v) for v in inner) - 1, 0, False)
            if ansi:
                ports.append('output [%d:0] zz' % z[1])
            else:
                ports.append('zz')
                head.append('  output [%d:0] zz;' % z[1])
            body.append('  assign zz = {%s};' % ', '.join(v[0] for v in inner))
            outs = outs + [z]
        phead = d.chance(2)
        text = 'module dut%s(%s);\n%s%s\n%s\nendmodule\n' % (' #(parameter %s)' % pdecl if phead else '', ', '.join(ports),
                                                        '' if phead else '  parameter %s;\n' % pdecl, '\n'.join(head), '\n'.join(body))
        if not d.chance(3) and child:
            text = child + text
        elif child:
            text = text + child
        seed = d.int(1, 1 << 30)
        ov = '' if d.chance(2) else ' #(.N(%d))' % d.int(nval, 6)
        tb = ['module tb;', '  reg CLK; integer seed;']
        tb += ['  reg [%d:0] %s;' % (width(v) - 1, v[0]) for v in ins] + ['  wire [%d:0] %s;' % (width(v) - 1, v[0]) for v in outs]
        tb.append('  dut%s d(%s);' % (ov, ', '.join('.%s(%s)' % (v, v) for v in ['CLK'] + [v[0] for v in ins + outs])))
        rnd = ' '.join('%s = $random(seed);' % v[0] for v in ins)
        tb.append('  initial begin seed = %d; CLK = 0; %s\n    repeat(24) begin #5 CLK = !CLK; #2 %s #2 $display("%s", %s); end $finish(0); end\nendmodule\n' % (
            seed, rnd, rnd, ' '.join(['%b'] * len(outs)), ', '.join(v[0] for v in outs)))
        return dict(text=text, tb='\n'.join(tb))

    def own_i(self, t):
        """a loop variable of its own (no races)"""
        if not re.search(r'\bi\b', t):
            return t
        n = self.name('i')
        return '  integer %s;\n' % n + re.sub(r'\bi\b', n, t)


@spec
def written(d):
    return Gen(d).module()


def run_written(s):
    code = s['text'] + s['tb']
    want = sim.compile_and_run(code, 'tb', check_compile=False)
    if want is None:
        return dict(nontrivial=False, labels=['illegal source'])
    r = again(code, 255)
    if isinstance(r, str):
        return dict(nontrivial=False, labels=['skipped %s' % r])
    got = sim.compile_and_run(r[0], 'tb')
    if lines(got) != lines(want):
        w, x = lines(want), lines(got)
        i = next((j for j in range(min(len(w), len(x))) if w[j] != x[j]), min(len(w), len(x)))
        raise Violation('the imported module behaves differently: line %d is %s, not %s\n%s\n---\n%s' % (i + 1, x[i:i + 1], w[i:i + 1], s['text'], r[2]))
    return dict(nontrivial=len(set(lines(want))) > 2, labels=['compared'])


PARTS = [Part('written', written(), run_written, quick=160, thorough=16000),
         Part('core', case(['core', 'seq', 'fsm', 'gen', 'outline', 'copy']), run, quick=120, thorough=10000),
         Part('library', case(['thread', 'sync', 'ram', 'fifo', 'regs', 'axi', 'axis', 'stream', 'graph', 'flow', 'pipe', 'arith']), run, quick=50, thorough=5000)]

if __name__ == '__main__':
    main('C06', PARTS,
         rule='random hand-style modules; the designs and reference models of the other checks (statements, sequential blocks, FSMs, generate blocks, submodules, threads, memories, '
              'bus interfaces, streams, dataflow, pipelines, arithmetic cores) are read and generated again; the lines printed by their test benches are '
              'compared; all or some of the modules are replaced; non-trivial = something was printed (more than two different lines for the hand-style modules)',
         assumptions=['a source that the parser (pyverilog) or the importer refuses is outside', 'Icarus Verilog 12 executes both texts'])
