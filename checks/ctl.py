"""Shared by C08/C09/C10: variables, two-state expressions, statement groups with conditions and timing modifiers,
and an independent Verilog rendering of their cycle semantics (explicit delay lines)."""
from veriloggen import *  # noqa
import veriloggen.core.vtypes as vt
from checks import c01

W = [1, 2, 3, 4, 7, 8, 9, 16, 33]


def pi(n):
    return c01.pr_int(n)


# --------------------------------------------------------------------------- expressions (no x values arise)
BIN = ['Plus', 'Minus', 'Times', 'And', 'Or', 'Xor', 'Sll', 'Srl', 'LessThan', 'GreaterEq', 'Eq', 'NotEq', 'Land', 'Lor']


def ex(d, c, depth=2):
    """c: context with .vs [(width, signed, ...)], .npv number of previous values, .mem [(width, depth)]"""
    k = d.int(0, 15)
    if depth <= 0 or k <= 5:
        if k <= 1 and c.npv:
            return ['pv', d.int(0, c.npv - 1)]
        if k == 2:
            return ['int', d.int(-3, 40)]
        if k == 3 and c.mem:
            j = d.int(0, len(c.mem) - 1)
            return ['mel', j, d.int(0, c.mem[j][1] - 1)]
        if k == 4 and depth <= 0 and c.par:
            return ['par', d.int(0, 1)]
        return ['v', d.int(0, len(c.vs) - 1)]
    if k <= 10:
        op = d.pick(BIN)
        if op in ('Sll', 'Srl'):
            return ['bop', op, ex(d, c, depth - 1), ['int', d.int(0, 9)], True]
        return ['bop', op, ex(d, c, depth - 1), ex(d, c, depth - 1), d.bool()]
    if k == 11:
        return ['un', d.pick(['Uminus', 'Unot', 'Ulnot', 'Uor', 'Uand', 'Uxor']), ex(d, c, depth - 1), True]
    if k == 12:
        return ['cond', ex(d, c, depth - 1), ex(d, c, depth - 1), ex(d, c, depth - 1)]
    i = d.int(0, len(c.vs) - 1)
    w = c.vs[i][0]
    if w is None or w < 2:
        return ['v', i]
    if k == 13:
        return ['bit', i, d.int(-w, w - 1)]
    lo = d.int(0, w - 1)
    hi = d.int(lo, w - 1)
    if k == 14:
        return ['slice', i, hi, lo]
    return ['cat', [['v', i], ['slice', i, hi, lo]]]


class B(c01.B):
    def b_pv(self, j): return self.env['pv'](j)
    def b_mel(self, j, k): return self.env['mem'][j][k]
    def b_nm(self, n): return self.env['nm'][n]


class R(c01.R):
    def r_pv(self, j): return 'pv%d' % j
    def r_mel(self, j, k): return 'mem%d[%d]' % (j, k)
    def r_nm(self, n): return n


# --------------------------------------------------------------------------- targets and statements
class Ctx(object):
    def __init__(self, vs, ni, mem, npv, par=True, part=True):
        self.vs, self.ni, self.mem, self.npv, self.par, self.part = vs, ni, mem, npv, par, part
        self.varidx = set()
        self.regs = None   # restrict assignable registers
        self.dst = set()


def target(d, c, cat=True):
    k = d.int(0, 11)
    if c.part and c.mem and k <= 1 and c.regs is None:
        j = d.int(0, len(c.mem) - 1)
        if c.mem[j][2] is None and d.bool():
            return ['melv', j, d.int(0, len(c.vs) - 1), c.mem[j][1]]
        c.dst.add('m%d' % j)
        return ['mel', j, d.int(0, c.mem[j][1] - 1)]
    if c.part and cat and k == 2:
        ts = []
        for _ in range(d.int(2, 3)):
            t = target(d, c, False)
            # an element without an initial value becomes x when the concatenation is reset
            if t[0] == 'melv' or (t[0] == 'mel' and c.mem[t[1]][2] is None) or \
                    (t[0][0] == 't' and c.vs[t[1]][2] is None):
                return t
            ts.append(t)
        return ['tcat', ts]
    i = d.pick(c.regs) if c.regs else d.int(c.ni, len(c.vs) - 1)
    c.dst.add(i)
    w = c.vs[i][0]
    if not c.part or w is None or w < 2 or k <= 8:
        return ['t', i]
    if k == 9:
        return ['tbit', i, d.int(-w, w - 1)]
    if k == 10 and w <= 32:
        if c.vs[i][2] is not None:
            c.varidx.add(i)
        return ['tbitv', i, d.int(0, len(c.vs) - 1), w]
    lo = d.int(0, w - 1)
    return ['tsl', i, d.int(lo, w - 1), lo]


def assign(d, c):
    return ['as', target(d, c), ex(d, c, d.int(0, 2)), d.bool()]


def stmts(d, c, lo=1, hi=2):
    out = []
    for _ in range(d.int(lo, hi)):
        if d.chance(8):
            out.append(['if', ex(d, c, 1), [assign(d, c)], [assign(d, c)] if d.bool() else None])
        elif d.chance(14):
            out.append(['case', ex(d, c, 1), [[d.int(0, 5), [assign(d, c)]] for _ in range(d.int(1, 2))],
                        [assign(d, c)] if d.bool() else None, d.bool()])
        else:
            out.append(assign(d, c))
    return out


def mods(d):
    k = d.int(0, 7)
    m = dict(delay=0, keep=0, lazy=False, eager=False, kw=d.chance(5))
    if k <= 3:
        return m
    if k <= 6:
        m['delay'] = d.int(0, 3)
    if k == 7 or d.chance(4):
        m['keep'] = d.int(1, 4)
    if m['delay'] or m['keep']:
        m['lazy'] = d.int(0, 2) == 2
        m['eager'] = d.int(0, 2) == 2
    return m


def conds(d, c):
    return [ex(d, c, d.int(0, 2)) for _ in range(2 if d.chance(4) else 1)]


# --------------------------------------------------------------------------- builder side
class SB(object):
    def __init__(self, env):
        self.env = env
        self.e = B(env)

    def many(self, l): return [self(s) for s in l]
    def __call__(self, s): return getattr(self, 's_' + s[0])(*s[1:])

    def tgt(self, t):
        v = self.env['v']
        k = t[0]
        if k == 't':
            return v[t[1]]
        if k == 'tbit':
            return v[t[1]][t[2]]
        if k == 'tbitv':
            return v[t[1]][v[t[2]] % t[3]]
        if k == 'tsl':
            return v[t[1]][t[3]:t[2] + 1]
        if k == 'mel':
            return self.env['mem'][t[1]][t[2]]
        if k == 'melv':
            return self.env['mem'][t[1]][v[t[2]] % t[3]]
        return Cat(*[self.tgt(x) for x in t[1]])

    def s_as(self, t, e, style):
        t, e = self.tgt(t), self.e(e)
        return t(e) if style else Subst(t, e)

    def s_if(self, c, a, b):
        x = If(self.e(c))(*self.many(a))
        return x.Else(*self.many(b)) if b is not None else x

    def s_case(self, e, ws, dflt, casex):
        l = [When(k)(*self.many(b)) for k, b in ws]
        if dflt is not None:
            l.append(When()(*self.many(dflt)))
        return (Casex if casex else Case)(self.e(e))(*l)

    def disp(self, *a):
        return Systask('display', *a)

    def apply(self, obj, m, statements):
        """calls obj (a Seq or FSM, conditions already given) with timing modifiers"""
        kw = {}
        if m['kw']:
            if m['delay']:
                kw['delay'] = m['delay']
            if m['keep']:
                kw['keep'] = m['keep']
            if m['lazy']:
                kw['lazy_cond'] = True
            if m['eager']:
                kw['eager_val'] = True
        else:
            if m['eager']:
                obj = obj.EagerVal()
            if m['delay']:
                obj = obj.Delay(m['delay'])
            if m['keep']:
                obj = obj.Keep(m['keep'])
            if m['lazy']:
                obj = obj.LazyCond()
        s = self.many(statements)
        return obj(*s, **kw)

    def group(self, obj, g):
        """g: ['chain', links, style] or ['plain', mods, stmts]"""
        if g[0] == 'plain':
            self.apply(obj, g[1], g[2])
            return
        for kind, cs, m, body in g[1]:
            cs = [self.e(x) for x in cs]
            if kind == 'if':
                if g[2] == 0:
                    o = obj.If(*cs)
                elif g[2] == 1:
                    o = obj.If(cs)
                elif g[2] == 2:
                    o = obj
                    for x in cs:
                        o = o.If(x)
                else:                       # condition as an argument
                    c = cs[0]
                    for x in cs[1:]:
                        c = Ands(c, x)
                    o = obj.If(c)
            elif kind == 'elif':
                o = obj.Elif(*cs)
            elif kind == 'else':
                o = obj.Else
            else:
                o = obj.Then()
            self.apply(o, m, body)


# --------------------------------------------------------------------------- reference side
class SR(object):
    def __init__(self, vs, reset_guard='1'):
        self.vs = vs
        self.e = R([v[:2] for v in vs])
        self.n = 0
        self.decl = []      # declarations
        self.rst = []       # reset statements of helper registers
        self.shift = []     # helper register updates
        self.body = {}      # delay -> statements, program order

    def many(self, l): return 'begin %s end' % ' '.join(self(s) for s in l)
    def __call__(self, s): return getattr(self, 's_' + s[0])(*s[1:])

    def tgt(self, t):
        k = t[0]
        if k == 't':
            return 'v%d' % t[1]
        if k == 'tbit':
            return 'v%d[%d]' % (t[1], t[2] if t[2] >= 0 else t[2] + self.vs[t[1]][0])
        if k == 'tbitv':
            return 'v%d[(v%d %% %d)]' % (t[1], t[2], t[3])
        if k == 'tsl':
            return 'v%d[%d:%d]' % (t[1], t[2], t[3])
        if k == 'mel':
            return 'mem%d[%d]' % (t[1], t[2])
        if k == 'melv':
            return 'mem%d[(v%d %% %d)]' % (t[1], t[2], t[3])
        return '{%s}' % ', '.join(self.tgt(x) for x in t[1])

    def twidth(self, t, mem):
        k = t[0]
        if k == 't':
            return self.vs[t[1]][0] or 1
        if k in ('tbit', 'tbitv'):
            return 1
        if k == 'tsl':
            return t[2] - t[3] + 1
        if k in ('mel', 'melv'):
            return mem[t[1]][0]
        return sum(self.twidth(x, mem) for x in t[1])

    def s_as(self, t, e, style): return '%s <= %s;' % (self.tgt(t), self.e(e))

    def s_if(self, c, a, b):
        return 'if (%s) %s%s' % (self.e(c), self.many(a), '' if b is None else ' else ' + self.many(b))

    def s_case(self, e, ws, dflt, casex):
        return '%s (%s) %s %s endcase' % ('casex' if casex else 'case', self.e(e), ' '.join(
            '%d: %s' % (k, self.many(b)) for k, b in ws), '' if dflt is None else 'default: ' + self.many(dflt))

    # ----------------------------------------------------------------
    def line(self, first, depth, width='', signed=False):
        """a delay line of the given depth fed by expression first (evaluated every cycle)"""
        self.n += 1
        names = ['h%d_%d' % (self.n, i) for i in range(1, depth + 1)]
        prev = first
        for n in names:
            self.decl.append('reg%s %s %s;' % (' signed' if signed else '', width, n))
            self.rst.append('%s <= 0;' % n)
            self.shift.append('%s <= %s;' % (n, prev))
            prev = n
        return prev

    def fire(self, cond, m, body, mem, state=None, index=None):
        """cond: Verilog text or None; state: text true while the machine is in the state of this action"""
        for i in range(m['keep'] or 1):
            dl = m['delay'] + i
            if dl == 0:
                c = [x for x in (state, cond) if x]
                st = self.many(body)
                if c:
                    st = 'if (%s) %s' % (' && '.join('(%s)' % x for x in c), st)
                self.add(0, st, index)
                continue
            early = [x for x in (state, None if m['lazy'] else cond) if x] or ['1']
            g = self.line('(%s) ? 1 : 0' % ' && '.join('(%s)' % x for x in early), dl)
            if m['lazy'] and cond:
                g = '%s && (%s)' % (g, cond)
            ss = []
            for s in body:
                if m['eager'] and s[0] == 'as':
                    w = self.twidth(s[1], mem)
                    sg = s[1][0] == 't' and self.vs[s[1][1]][1]
                    v = self.line(self.e(s[2]), dl, '[%d:0]' % (w - 1), sg)
                    ss.append('%s <= %s;' % (self.tgt(s[1]), v))
                else:
                    ss.append(self(s))
            self.add(dl, 'if (%s) begin %s end' % (g, ' '.join(ss)), index)

    def add(self, dl, st, index=None):
        self.body.setdefault(dl, []).append(st)

    def group(self, g, mem, state=None, index=None):
        if g[0] == 'plain':
            self.fire(None, g[1], g[2], mem, state, index)
            return
        prior = []
        cur = None
        for kind, cs, m, body in g[1]:
            c = ' && '.join('(%s)' % self.e(x) for x in cs)
            if kind in ('if',):
                prior, cur = [], '(%s)' % c
            elif kind == 'elif':
                prior = prior + ['!' + cur]
                cur = '(%s)' % c
            elif kind == 'else':
                prior = prior + ['!' + cur]
                cur = '1'
            self.fire(' && '.join(prior + [cur]), m, body, mem, state, index)

    def ordered(self):
        return [s for dl in sorted(self.body, reverse=True) for s in self.body[dl]]


def chain(d, c, timing=True, then=True):
    nomod = dict(delay=0, keep=0, lazy=False, eager=False, kw=False)

    def mm():
        return mods(d) if timing and d.bool() else nomod
    links = [['if', conds(d, c), mm(), stmts(d, c)]]
    if then and d.chance(4):
        links.append(['then', [], mm(), stmts(d, c)])
        return ['chain', links, d.int(0, 3)]
    for _ in range(d.int(0, 2)):
        links.append(['elif', conds(d, c), mm(), stmts(d, c)])
    k = d.int(0, 3)
    if k <= 1:
        links.append(['else', [], mm(), stmts(d, c)])
    if then and d.chance(5):
        links.append(['then', [], mm(), stmts(d, c)])
    return ['chain', links, d.int(0, 3)]


def init_text(i):
    """reset value as Verilog text"""
    return 'P%d' % i[1] if isinstance(i, list) else pi(i)


def resets(dsts, vs, mem, r):
    """reset statements for the parts of registers that are assigned: list of targets"""
    out = []

    def val(i):
        return i
    for t in dsts:
        k = t[0]
        if k == 'tcat':
            for x in t[1]:
                out += resets([x], vs, mem, r)
        elif k in ('t', 'tbit', 'tsl'):
            i = t[1]
            if vs[i][2] is None:
                continue
            full = "init%d" % i
            sel = r.tgt(t)[len('v%d' % i):]
            out.append('v%d%s <= %s%s;' % (i, sel, full, sel))
        elif k == 'mel':
            if mem[t[1]][2] is not None:
                out.append('mem%d[%d] <= %s;' % (t[1], t[2], init_text(mem[t[1]][2])))
    return out


def targets_of(x, acc):
    if isinstance(x, list):
        if x and x[0] == 'as':
            acc.append(x[1])
            return acc
        for y in x:
            targets_of(y, acc)
    return acc
