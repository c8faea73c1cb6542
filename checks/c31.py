"""C31: generate blocks elaborate as described.

Oracle: the same block tree unrolled in Python into flat Verilog (one private copy of every signal, process and
instance per selected iteration), simulated side by side with the emitted module for several parameter values.
"""
import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim

from veriloggen import *  # noqa

OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '&': lambda a, b: a & b,
       '^': lambda a, b: a ^ b, '|': lambda a, b: a | b, '<': lambda a, b: a < b, '==': lambda a, b: a == b}


def ex(d, gvs, depth, const):
    k = d.int(0, 5)
    if depth <= 0 or k <= 2:
        leaves = [['n', d.int(0, 6)], ['P']] + [['g', g] for g in gvs] * 2 + ([] if const else [['v'], ['v']])
        return d.pick(leaves)
    return ['op', d.pick([o for o in sorted(OPS) if o != '-' or not const]), ex(d, gvs, depth - 1, const), ex(d, gvs, depth - 1, const)]


def items(d, depth, gvs, cnt, named):
    out = []
    for _ in range(d.int(1, 3 if depth else 2)):
        k = d.int(0, 11)
        if k >= 7 and depth > 0 and cnt[0] < 6:
            cnt[0] += 1
            n = cnt[0]
            scope = ('s%d' % n) if d.int(0, 3) else None
            if k <= 9:
                lo = d.int(0, 2)
                it = ['for', n, lo, d.int(0, 3), d.int(1, 2), d.int(0, 2), scope,
                      items(d, depth - 1, gvs + [n], cnt, named), d.bool()]
            else:
                els = None
                if d.bool():
                    els = [('e%d' % n) if scope else None, items(d, depth - 1, gvs, cnt, named)]
                it = ['if', n, ex(d, gvs, 2, True), scope, items(d, depth - 1, gvs, cnt, named), els]
            out.append(it)
            continue
        cnt[1] += 1
        n = cnt[1]
        kind = d.pick(['assign', 'wire', 'reg', 'seq', 'fsm', 'inst', 'inst', 'lparam', 'init'])
        out.append([kind, n, ex(d, gvs, 2, kind in ('lparam', 'init')), ex(d, gvs, 1, True), d.int(0, 2)])
    return out


@spec
def case(d):
    cnt = [0, 0]
    body = []
    while not any(x[0] in ('for', 'if') for x in body):
        body += items(d, 3, [], cnt, True)
        if len(body) > 12:
            break
    return dict(body=body, P=[d.int(0, 4), d.int(0, 9)], seed=d.int(0, 1 << 20), asm=d.bool())


SL = 8      # slots per item


class Build(object):
    """veriloggen side"""

    def __init__(self, s):
        self.m = m = Module('dut')
        self.P = m.Parameter('P', s['P'][0])
        self.clk = m.Input('CLK')
        self.rst = m.Input('RST')
        self.v = m.Input('v', 8)
        self.n = 0
        self.children = [self.child(k) for k in range(3)]
        self.wires = {}
        self.s = s

    def child(self, k):
        """instantiated only from generate blocks; its logic is made by a hook (k == 1: two levels)"""
        c = Module('child%d' % k)
        K = c.Parameter('K', 1)
        clk, rst = c.Input('CLK'), c.Input('RST')
        i, o = c.Input('i', 16), c.OutputReg('o', 16, initval=k)
        if k == 0:
            Seq(c, 'seq', clk, rst)(o(o + i + K))
        elif k == 1:
            g = Module('grand')
            gc, gr = g.Input('CLK'), g.Input('RST')
            gi, go = g.Input('i', 16), g.OutputReg('o', 16, initval=5)
            Seq(g, 'seq', gc, gr)(go(gi ^ 3))
            w = c.Wire('w', 16)
            x = c.GenerateIf(K >= 0)
            x.Instance(g, 'u', ports=[('CLK', clk), ('RST', rst), ('i', i), ('o', w)])
            Seq(c, 'seq', clk, rst)(o(w + K))
        else:
            f = FSM(c, 'fsm', clk, rst)
            f(o(o + K))
            f.goto_next()
            f(o(o ^ i))
            f.goto_init()
        return c

    def e(self, x, env):
        k = x[0]
        if k == 'n':
            return x[1]
        if k == 'P':
            return self.P
        if k == 'v':
            return self.v
        if k == 'g':
            return env[x[1]]
        a, b = self.e(x[2], env), self.e(x[3], env)
        if isinstance(a, int) and isinstance(b, int):
            a = Int(a)
        return OPS[x[1]](a, b)

    def slot(self, it, env, loops):
        """index of the output slot of item it in the current iteration"""
        idx = Int(it[1] * SL)
        stride = 1
        for (n, lo, cnt, step, down) in loops:
            i = env[n]
            idx = idx + ((i - lo) if step == 1 else ((i - lo) >> 1)) * stride
            stride *= max(cnt, 1)
        return idx

    def block(self, g, body, env, loops, path):
        m, clk, rst = self.m, self.clk, self.rst
        for it in body:
            k = it[0]
            if k == 'for':
                _, n, lo, cnt, step, style, scope, sub, local = it
                gv = g.Genvar('i%d' % n) if local else self.gv[n]
                pre, post = gv(lo), (gv(gv + step) if style else gv.add(step) if step != 1 else gv.inc())
                h = g.GenerateFor(pre, gv < lo + cnt * step, post, scope)
                e2 = dict(env)
                e2[n] = gv
                self.block(h, sub, e2, loops + [(n, lo, cnt, step, False)],
                           path + [(h, scope, (n, lo, cnt, step))] if path is not None and scope else None)
                continue
            if k == 'if':
                _, n, c, scope, sub, els = it
                h = g.GenerateIf(self.e(c, env), scope)
                self.block(h, sub, env, loops, path + [(h, scope, None)] if path is not None and scope else None)
                if els:
                    b = h.Else(els[0]) if els[0] else h.Else
                    self.block(b, els[1], env, loops, path + [(b, els[0], None)] if path is not None and els[0] else None)
                continue
            _, n, e, c, x = it
            o = m.variable['os'][self.slot(it, env, loops)]
            val = self.e(e, env)
            nm = '%d' % n
            if k == 'assign':
                g.Assign(o(val))
            elif k == 'wire':
                w = g.Wire('w' + nm, 16)
                (w.assign(val) if x else g.Assign(w(val)))
                g.Assign(o(w + 1))
                if path is not None:
                    self.wires[n] = (path, w)
            elif k == 'lparam':
                p = g.Localparam('p' + nm, val)
                g.Assign(o(p ^ self.v))
            elif k == 'reg':
                r = g.Reg('r' + nm, 16)
                g.Initial(r(self.e(c, env)))
                g.Always(Posedge(clk))(r(r + val))
                g.Assign(o(r))
                if path is not None:
                    self.wires[n] = (path, r)
            elif k == 'init':
                r = g.Reg('r' + nm, 16)
                g.Initial(If(self.e(c, env))(r(val)).Else(r(77)))
                g.Assign(o(r))
            elif k == 'seq':
                r = g.Reg('r' + nm, 16, initval=x)
                q = Seq(g, 'sq' + nm, clk, rst)
                q.If(self.v > 100)(r(r + val))
                q.Else(r(r + 1))
                g.Assign(o(r))
            elif k == 'fsm':
                r = g.Reg('r' + nm, 16, initval=x)
                f = FSM(g, 'fs' + nm, clk, rst)
                f(r(r + val))
                f.goto_next()
                f(r(r ^ 5))
                f.goto_init()
                g.Assign(o(r))
            elif k == 'inst':
                g.Instance(self.children[x], 'u' + nm, params=[('K', self.e(c, env))],
                           ports=[('CLK', clk), ('RST', rst), ('i', val), ('o', o)])


class Flat(object):
    """reference side: unrolled"""

    def __init__(self, P):
        self.P = P
        self.out = []
        self.n = 0
        self.slots = {}
        self.sig = {}

    def ev(self, x, env):
        k = x[0]
        if k == 'n':
            return x[1]
        if k == 'P':
            return self.P
        if k == 'g':
            return env[x[1]]
        return int(OPS[x[1]](self.ev(x[2], env), self.ev(x[3], env)))

    def e(self, x, env):
        k = x[0]
        if k == 'v':
            return 'v'
        if k in ('n', 'P', 'g'):
            n = self.ev(x, env)
            return str(n) if n >= 0 else '(-%d)' % -n
        return '(%s %s %s)' % (self.e(x[2], env), x[1], self.e(x[3], env))

    def block(self, body, env, loops):
        for it in body:
            k = it[0]
            if k == 'for':
                _, n, lo, cnt, step, style, scope, sub, local = it
                for i in range(cnt):
                    e2 = dict(env)
                    e2[n] = lo + i * step
                    self.block(sub, e2, loops + [(n, i, cnt)])
                continue
            if k == 'if':
                _, n, c, scope, sub, els = it
                if self.ev(c, env) & 0xffffffff:
                    self.block(sub, env, loops)
                elif els:
                    self.block(els[1], env, loops)
                continue
            _, n, e, c, x = it
            idx = n * SL
            stride = 1
            for (_, i, cnt) in loops:
                idx += i * stride
                stride *= max(cnt, 1)
            val = self.e(e, env)
            self.n += 1
            u = 'q%d' % self.n
            A = self.out.append
            o = 'os[%d]' % idx
            key = (n, tuple(i for _, i, _ in loops))
            self.sig[key] = u
            if k == 'assign':
                A('assign %s = %s;' % (o, val))
            elif k == 'wire':
                A('wire [15:0] %s = %s; assign %s = %s + 1;' % (u, val, o, u))
            elif k == 'lparam':
                A('localparam %s = %s; assign %s = %s ^ v;' % (u, val, o, u))
            elif k == 'reg':
                A('reg [15:0] %s; initial %s = %s; always @(posedge CLK) %s <= %s + %s; assign %s = %s;' % (
                    u, u, self.e(c, env), u, u, val, o, u))
            elif k == 'init':
                A('reg [15:0] %s; initial if (%s) %s = %s; else %s = 77; assign %s = %s;' % (u, self.e(c, env), u, val, u, o, u))
            elif k == 'seq':
                A('reg [15:0] %s; always @(posedge CLK) if (RST) %s <= %d; else if (v > 100) %s <= %s + %s; '
                  'else %s <= %s + 1; assign %s = %s;' % (u, u, x, u, u, val, u, u, o, u))
            elif k == 'fsm':
                A('reg [15:0] %s; reg %ss; always @(posedge CLK) if (RST) begin %s <= %d; %ss <= 0; end else if (!%ss) begin '
                  '%s <= %s + %s; %ss <= 1; end else begin %s <= %s ^ 5; %ss <= 0; end assign %s = %s;' % (
                      u, u, u, x, u, u, u, u, val, u, u, u, u, o, u))
            elif k == 'inst':
                A('rchild%d #(.K(%s)) %s (.CLK(CLK), .RST(RST), .i(%s), .o(%s));' % (x, self.e(c, env), u, val, o))


RCHILD = '''
module rchild0 #(parameter K = 1) (input CLK, input RST, input [15:0] i, output reg [15:0] o);
always @(posedge CLK) if (RST) o <= 0; else o <= o + i + K;
endmodule
module rchild1 #(parameter K = 1) (input CLK, input RST, input [15:0] i, output reg [15:0] o);
reg [15:0] w;
always @(posedge CLK) if (RST) begin o <= 1; w <= 5; end else begin o <= (K >= 0 ? w : 16'hz) + K; w <= i ^ 3; end
endmodule
module rchild2 #(parameter K = 1) (input CLK, input RST, input [15:0] i, output reg [15:0] o);
reg s;
always @(posedge CLK) if (RST) begin o <= 2; s <= 0; end else begin s <= !s; o <= s ? (o ^ i) : (o + K); end
endmodule
'''


def count(body):
    n = 0
    for it in body:
        if it[0] == 'for':
            n += count(it[7])
        elif it[0] == 'if':
            n += count(it[4]) + (count(it[5][1]) if it[5] else 0)
        else:
            n = max(n, 0) + 1
    return n


def maxid(body):
    r = 0
    for it in body:
        if it[0] == 'for':
            r = max(r, maxid(it[7]))
        elif it[0] == 'if':
            r = max(r, maxid(it[4]), maxid(it[5][1]) if it[5] else 0)
        else:
            r = max(r, it[1])
    return r


def globals_of(body):
    """loop variables declared in the module itself"""
    r = []
    for it in body:
        if it[0] == 'for':
            r += ([] if it[8] else [it[1]]) + globals_of(it[7])
        elif it[0] == 'if':
            r += globals_of(it[4]) + (globals_of(it[5][1]) if it[5] else [])
    return r


def depth_ok(body, n=1):
    """iterations of an item stay within its slots"""
    for it in body:
        if it[0] == 'for':
            if n * max(it[3], 1) > SL or not depth_ok(it[7], n * max(it[3], 1)):
                return False
        elif it[0] == 'if':
            if not depth_ok(it[4], n) or (it[5] and not depth_ok(it[5][1], n)):
                return False
    return True


def depth(body):
    return max([1 + depth(it[7]) if it[0] == 'for' else
                1 + max(depth(it[4]), depth(it[5][1]) if it[5] else 0) if it[0] == 'if' else 0 for it in body] or [0])


def kinds(body, acc, inside=''):
    for it in body:
        acc.add(it[0] + ('+' if inside else ''))
        if it[0] == 'for':
            kinds(it[7], acc, 'for')
        elif it[0] == 'if':
            kinds(it[4], acc, 'if')
            if it[5]:
                acc.add('else')
                kinds(it[5][1], acc, 'else')
    return acc


def run(s):
    body = s['body']
    if not depth_ok(body):
        return dict(nontrivial=False, labels=['skipped'])
    nslots = (maxid(body) + 1) * SL
    b = Build(s)
    m = b.m
    m.Wire('os', 16, nslots)
    b.gv = {n: m.Genvar('i%d' % n) for n in globals_of(body)}
    b.block(m, body, {}, [], [])
    y = m.Output('y', 16 * nslots)
    y.assign(Cat(*[m.variable['os'][k] for k in reversed(range(nslots))]))
    # references across scopes, for iterations that exist whatever P is
    refs = []
    P = s['P'][0]
    F = [Flat(p) for p in s['P']]
    for f in F:
        f.block(body, {}, [])
    for n, (path, w) in sorted(b.wires.items()):
        keys = [k for k in F[0].sig if k[0] == n and all(k in f.sig for f in F)]
        for key in sorted(keys)[:2]:
            idxs = list(key[1])
            sc = []
            for h, scope, loop in path:
                if loop is None:
                    sc.append(h)
                else:
                    _, lo, cnt, step = loop
                    sc.append(h[lo + idxs.pop(0) * step])
            if not sc:
                continue
            if any(lo + 0 < 0 for h, scope, loop in path if loop for lo in [loop[1]]):
                continue      # a negative index in a hierarchical name
            z = m.Output('z%d' % len(refs), 16)
            z.assign(Scope(*(sc + [w])))
            refs.append(key)
    text = m.to_verilog()
    if m.to_verilog() != text:
        raise Violation('second generation differs from the first')
    zp = ', '.join('z%d' % k for k in range(len(refs)))
    mods = []
    tb = ['module tb; integer seed, n; reg CLK, RST; reg [7:0] v;']
    chk = []
    for j, p in enumerate(s['P']):
        f = F[j]
        decl = ''.join(', output [15:0] z%d' % k for k in range(len(refs)))
        mods.append('module ref%d (input CLK, input RST, input [7:0] v, output [%d:0] y%s);\nwire [15:0] os [0:%d];' % (
            j, 16 * nslots - 1, decl, nslots - 1))
        mods += f.out
        mods.append('assign y = {%s};' % ', '.join('os[%d]' % k for k in reversed(range(nslots))))
        for k, key in enumerate(refs):
            mods.append('assign z%d = %s;' % (k, f.sig[key]))
        mods.append('endmodule')
        for side, inst in (('d', 'dut #(.P(%d))' % p), ('r', 'ref%d' % j)):
            tb.append('wire [%d:0] y%s%d; %s' % (16 * nslots - 1, side, j, ' '.join(
                'wire [15:0] z%s%d_%d;' % (side, j, k) for k in range(len(refs)))))
            tb.append('%s i%s%d (.CLK(CLK), .RST(RST), .v(v), .y(y%s%d)%s);' % (
                inst, side, j, side, j, ''.join(', .z%d(z%s%d_%d)' % (k, side, j, k) for k in range(len(refs)))))
        chk.append('if (yd%d !== yr%d) $display("BAD P=%d outputs got %%h want %%h", yd%d, yr%d);' % (j, j, p, j, j))
        for k in range(len(refs)):
            chk.append('if (zd%d_%d !== zr%d_%d) $display("BAD P=%d scope ref %d got %%h want %%h", zd%d_%d, zr%d_%d);' % (
                j, k, j, k, p, k, j, k, j, k))
    tb.append('initial begin seed = %d; CLK = 0; RST = 1; v = 0;' % s['seed'])
    tb.append('for (n = 0; n < 14; n = n + 1) begin #5 CLK = 1; #3; %s #2 CLK = 0; #2 v = $random(seed); '
              'RST = n < 2 || n == 8; end $display("DONE"); $finish; end endmodule' % ' '.join(chk))
    out = sim.compile_and_run('\n'.join([text, RCHILD] + mods + tb), top='tb')
    if 'DONE' not in out:
        raise Violation('simulation did not complete: %s' % out[:500])
    bad = [l for l in out.splitlines() if l.startswith('BAD')]
    if bad:
        raise Violation('generated hierarchy differs from its unrolling: %s\n%s' % (bad[0][:1500], text[:6000]))
    return dict(nontrivial=depth(body) >= 2, labels=sorted(kinds(body, set())) + ['scoperef'] * bool(refs))


PARTS = [Part('blocks', case(), run, quick=2000, thorough=40000)]

if __name__ == '__main__':
    main('C31', PARTS,
         rule='trees of generate-for/if/else blocks (depth<=3, <=6 blocks) with signals, processes, Seq, FSM, instances of '
              'modules whose logic comes from hooks, and cross-scope references; two parameter values each, 14 cycles; '
              'non-trivial = blocks nest >=2 deep',
         assumptions=['Icarus Verilog 12 elaborates generate constructs per IEEE 1364-2005',
                      'scope references use non-negative literal indices'])
