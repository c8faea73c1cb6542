"""C02: literals keep value, width, base and sign.

Oracle: Python arithmetic for integer values (value mod 2^width, sign-extended when signed), the literal's own
Verilog spelling for literals given as Verilog strings, IEEE-754 bits for floats.  Each literal is observed in a
wide (70 bit) destination, in signed and unsigned context, through assignments, parameters, resets and case labels.
"""
import struct
import vlib  # noqa: F401
from hypothesis import strategies as st
from vlib.core import Part, Violation, main
from vlib import sim

from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt

W = 70
CTX = ['assign', 'initial', 'reset', 'localparam', 'parameter', 'instparam', 'port', 'plus']


@st.composite
def intlit(draw):
    kind = draw(st.integers(0, 9))
    if kind <= 1:   # plain Python int (the unsized decimal range of Verilog)
        n = draw(st.one_of(st.integers(-(1 << 31) + 1, (1 << 31) - 1), st.integers(-20, 20)))
        return ['py', n]
    if kind == 2:
        return ['bool', draw(st.booleans())]
    width = draw(st.one_of(st.integers(1, 9), st.integers(10, 66)))
    base = draw(st.sampled_from([None, 2, 8, 10, 16]))
    edge = st.sampled_from([0, 1, (1 << width) - 1, 1 << (width - 1), (1 << (width - 1)) - 1,
                            -(1 << (width - 1)), -(1 << (width - 1)) + 1, -1])
    if kind <= 6:
        v = draw(st.one_of(edge, st.integers(-(1 << (width - 1)), (1 << width) - 1)))
        if draw(st.integers(0, 4)) == 0:   # wider than declared: keeps the low bits
            v = draw(st.integers(-(1 << (width + 2)), 1 << (width + 3)))
        return ['Int', v, width, base, draw(st.booleans())]
    if kind == 7:
        if base in (None, 10):
            return ['Int', draw(st.integers(-(1 << 31) + 1, (1 << 31) - 1)), None, base, draw(st.booleans())]
        # unsized signed based numbers ('shf) are excluded: simulators disagree on their extension
        return ['Int', draw(st.integers(0, (1 << 31) - 1)), None, base, False]
    return ['str', draw(vstring())]


@st.composite
def vstring(draw):
    k = draw(st.integers(0, 7))
    if k == 0:
        return str(draw(st.integers(0, (1 << 31) - 1)))
    width = draw(st.one_of(st.none(), st.integers(1, 66)))
    s = draw(st.sampled_from(['', '', 's'])) if width is not None else ''
    b = draw(st.sampled_from(['b', 'o', 'd', 'h']))
    lim = width if width is not None else 31
    v = draw(st.integers(0, (1 << lim) - 1))
    if b == 'd':
        digs = str(v)
    else:
        digs = {'b': '{:b}', 'o': '{:o}', 'h': '{:x}'}[b].format(v)
        if draw(st.booleans()):
            digs = digs.upper()
        if draw(st.booleans()):
            digs = '0' + digs
        if k == 1:
            i = draw(st.integers(0, len(digs) - 1))
            digs = digs[:i] + draw(st.sampled_from('xz')) + digs[i + 1:]
    if k == 2 and len(digs) > 1:
        i = draw(st.integers(1, len(digs) - 1))
        digs = digs[:i] + '_' + digs[i:]
    return "%s'%s%s%s" % ('' if width is None else width, s, b, digs)


@st.composite
def ints_case(draw):
    n = draw(st.integers(1, 24))
    return dict(lits=[[draw(intlit()), draw(st.sampled_from(CTX)), draw(st.booleans())] for _ in range(n)])


def build(l):
    if l[0] == 'py':
        return l[1]
    if l[0] == 'bool':
        return bool(l[1])
    if l[0] == 'Int':
        return Int(l[1], l[2], l[3], l[4])
    return Int(l[1])


def expected(l):
    """(text of a Verilog constant with the expected value, signed)"""
    if l[0] == 'py':
        return l[1], True
    if l[0] == 'bool':
        return int(l[1]), True
    if l[0] == 'Int':
        _, v, w, b, s = l
        if w is None:
            signed = s or v < 0 or b is None     # an unsized plain decimal is signed in Verilog
            return (v, signed) if signed else (v % (1 << 32), False)
        signed = s or v < 0
        x = v % (1 << w)
        if signed and x >> (w - 1):
            x -= 1 << w
        return x, signed
    return None, None


def text_of(x, signed):
    return "%d'%sh%x" % (W, 's' if signed else '', x % (1 << W))


def run_ints(spec):
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    par = Module('par')
    pp = par.Parameter('P', 0)
    po = par.Output('o', W, signed=True)
    par.Assign(po(pp))
    sub = Module('sub')
    si = sub.Input('i', W)
    so = sub.Output('o', W)
    sub.Assign(so(si))
    ref = ['module refm(input CLK, input RST%s);' % ''.join(
        ', output reg signed [%d:0] y%d' % (W - 1, k) for k in range(len(spec['lits'])))]
    for k, (l, ctx, ysigned) in enumerate(spec['lits']):
        lit = build(l)
        if l[0] == 'str':
            t = l[1]
        else:
            t = text_of(*expected(l))
        y = 'y%d' % k
        if ctx == 'assign':
            o = m.Output(y, W, signed=ysigned)
            m.Assign(o(lit))
        elif ctx == 'initial':
            o = m.OutputReg(y, W, signed=ysigned)
            m.Initial(o(lit))
        elif ctx == 'reset':
            o = m.OutputReg(y, W, initval=lit, signed=ysigned)
            m.Always(Posedge(clk))(If(rst)(m.make_reset() if False else o(o.initval)).Else(o(o)))
        elif ctx == 'localparam':
            o = m.Output(y, W, signed=ysigned)
            p = m.Localparam('L%d' % k, lit)
            m.Assign(o(p))
        elif ctx == 'parameter':
            o = m.Output(y, W, signed=ysigned)
            p = m.Parameter('P%d' % k, lit)
            m.Assign(o(p))
        elif ctx == 'instparam':
            o = m.Output(y, W, signed=ysigned)
            m.Instance(par, 'p%d' % k, params=[('P', lit)], ports=[('o', o)])
        elif ctx == 'port':
            o = m.Output(y, W, signed=ysigned)
            m.Instance(sub, 's%d' % k, ports=[('i', lit), ('o', o)])
            # a literal narrower than the port is extended by its own sign
        else:
            o = m.Output(y, W, signed=ysigned)
            m.Assign(o(vt.Plus(lit, Int(5, W, signed=True))))
            t = "(%s) + %d'sd5" % (t, W)
        if l[0] == 'str' and ctx == 'port':
            ref.append('wire [%d:0] w%d; sub us%d(.i(%s), .o(w%d)); always @* y%d = w%d;' % (W - 1, k, k, t, k, k, k))
        elif l[0] == 'str' and ctx in ('localparam', 'parameter', 'instparam'):
            ref.append('localparam L%d = %s; initial y%d = L%d;' % (k, t, k, k))
        else:
            ref.append('initial y%d = %s;' % (k, t))
    ref.append('endmodule')
    n = len(spec['lits'])
    text = m.to_verilog()
    tb = ['module tb; reg CLK; reg RST;']
    tb += ['wire signed [%d:0] a%d, b%d;' % (W - 1, k, k) for k in range(n)]
    tb.append('dut d(.CLK(CLK), .RST(RST)%s);' % ''.join(', .y%d(a%d)' % (k, k) for k in range(n)))
    tb.append('refm r(.CLK(CLK), .RST(RST)%s);' % ''.join(', .y%d(b%d)' % (k, k) for k in range(n)))
    tb.append('initial begin CLK=0; RST=1; #5 CLK=1; #5 CLK=0; #5;')
    for k in range(n):
        tb.append('if (a%d !== b%d) $display("BAD %d got %%h want %%h", a%d, b%d);' % (k, k, k, k, k))
    tb.append('$display("DONE"); end endmodule')
    if 'module sub' not in text:
        text += '\nmodule sub(input [%d:0] i, output [%d:0] o); assign o = i; endmodule\n' % (W - 1, W - 1)
    out = sim.compile_and_run('\n'.join([text] + ref + tb), top='tb')
    if 'DONE' not in out:
        raise Violation('simulation did not finish: ' + out[:300])
    for line in out.splitlines():
        if line.startswith('BAD'):
            k = int(line.split()[1])
            raise Violation('literal %r in context %s: %s' % (spec['lits'][k][0], spec['lits'][k][1], line))
    # static attributes
    for l, ctx, ys in spec['lits']:
        if l[0] == 'Int':
            i = build(l)
            if i.value != l[1] or (l[2] is not None and i.get_width() != l[2]):
                raise Violation('Int%r has value %r, width %r' % (tuple(l[1:]), i.value, i.get_width()))
    kinds = sorted(set(l[0][0] + ':' + l[1] for l in spec['lits']))
    return dict(nontrivial=any((l[0] == 'Int' and (l[1] < 0 or l[3] is not None)) or l[0] == 'str'
                               for l, _, _ in spec['lits']), labels=kinds)


# ------------------------------------------------------------------------------------------------
floats = st.floats(allow_nan=False, allow_infinity=False, width=64)


@st.composite
def float_case(draw):
    return dict(f=[draw(st.one_of(floats, st.integers(-100, 100).map(lambda x: x / 8.0)))
                   for _ in range(draw(st.integers(1, 20)))], wrap=draw(st.booleans()))


def run_floats(spec):
    m = Module('dut')
    body = []
    for k, f in enumerate(spec['f']):
        f = float(f)
        r = m.Real('r%d' % k)
        body.append(r(Float(f) if spec['wrap'] else f))
    for k, f in enumerate(spec['f']):
        body.append(Systask('display', '%h', SystemTask('realtobits', m.variable['r%d' % k])))
    m.Initial(*body)
    out = sim.compile_and_run(m.to_verilog(), top='dut').split()
    for k, f in enumerate(spec['f']):
        f = float(f)
        want = struct.pack('>d', f).hex()
        if f == 0:
            want, out[k] = '0', '0' if int(out[k], 16) in (0, 1 << 63) else out[k]
        if out[k] != want:
            # denormals and decimal conversion: allow the simulator one unit in the last place
            if abs(int(out[k], 16) - int(want, 16)) > 1:
                raise Violation('float %r became %s (want %s)' % (f, out[k], want))
    return dict(nontrivial=any(float(f) != int(float(f)) for f in spec['f']))


# ------------------------------------------------------------------------------------------------
@st.composite
def reject_case(draw):
    b, ok = draw(st.sampled_from([('b', '01'), ('o', '01234567'), ('d', '0123456789'), ('h', '0123456789abcdefABCDEF')]))
    ok += 'xzXZ_'
    bad = [c for c in '0123456789abcefgijklmnpqrtuvwy!.' if c not in ok]
    good = ''.join(draw(st.lists(st.sampled_from([c for c in ok if c not in 'xzXZ_']), min_size=1, max_size=4)))
    i = draw(st.integers(0, len(good)))
    return "%d'%s%s" % (draw(st.integers(1, 16)), b, good[:i] + draw(st.sampled_from(bad)) + good[i:])


def run_reject(s):
    # text that is no literal of its base must be refused, or (never silently) come out unchanged
    try:
        v = Int(s)
        m = Module('dut')
        y = m.Output('y', 70)
        m.Assign(y(v))
        text = m.to_verilog()
    except (ValueError, TypeError):
        return dict(nontrivial=True, labels=['rejected'])
    out = sim.compile_and_run(text, check_compile=False)
    if out is None:
        return dict(labels=['refused-by-simulator'])
    raise Violation('malformed literal %r was accepted as %s' % (s, v))


PARTS = [Part('ints', ints_case(), run_ints, quick=1400, thorough=30000),
         Part('floats', float_case(), run_floats, quick=160, thorough=4000),
         Part('reject', reject_case(), run_reject, quick=400, thorough=4000)]

if __name__ == '__main__':
    main('C02', PARTS,
         rule='1-24 literals of all spellings per design, each in one of 8 contexts; non-trivial = contains a '
              'negative, based or string literal / a non-integral float / a malformed spelling',
         assumptions=['Icarus Verilog 12 is right about literals; plain unsized decimals are limited to 32 bits'])
