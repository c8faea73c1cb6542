"""Stream graphs: a random graph is built with the stream API and evaluated by an independent reference on element sequences.

A reference value is a list over the elements (int bit patterns, None = unknown) with a format (width, signed, point).
Arithmetic follows the rules of Verilog expressions: the operands are extended to the width of the result, with the sign only if all
operands are signed.
"""
import veriloggen.core.vtypes as vt


class R(object):
    __slots__ = ('w', 's', 'p', 'v', 'const')

    def __init__(self, w, s, p, v, const=False):
        m = (1 << w) - 1
        self.w, self.s, self.p, self.const = w, bool(s), p, const
        self.v = [None if x is None else x & m for x in v]

    def nums(self, signed=None):
        s = self.s if signed is None or self.const == 'num' else signed      # a literal -7 is 2**n - 7 in any unsigned context
        h = 1 << (self.w - 1)
        return [None if x is None else (x - 2 * h if s and x & h else x) for x in self.v]


def lift(f, *a):
    return [None if any(x is None for x in t) else f(*t) for t in zip(*a)]


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def int_width(v):
    return 1 if v == 0 else abs(v).bit_length() + 1


def align(l, r):
    """Numbers of both operands at the larger point, extended by the rules of a common expression."""
    s = l.s and r.s
    p = max(l.p, r.p)
    return [[None if x is None else x << (p - o.p) for x in o.nums(s)] for o in (l, r)], p, s


def arith(f):
    def g(l, r):
        (a, b), p, s = align(l, r)
        w = max(l.w - l.p, r.w - r.p) + p
        return R(w, s, p, lift(f, a, b))
    return g


def compare(f):
    def g(l, r):
        (a, b), p, s = align(l, r)
        if not s and any(o.const == 'num' and min(o.nums()) < 0 for o in (l, r)):
            return R(1, False, 0, [None] * len(a))      # the width of the comparison is not fixed by the operators
        return R(1, False, 0, lift(lambda x, y: int(f(x, y)), a, b))
    return g


def logical(f):
    def g(l, r):
        s = l.s and r.s
        return R(max(l.w, r.w), False, 0, lift(f, l.nums(s), r.nums(s)))
    return g


def times(l, r):
    p = min(max(l.p, r.p), l.p + r.p)
    sh = l.p + r.p - p
    s = l.s and r.s
    pw = l.w + r.w
    prod = R(pw, s, 0, lift(lambda a, b: a * b, l.nums(), r.nums()))
    return R(max(l.w, r.w), s, p, [None if x is None else x >> sh for x in prod.nums()])


def divmod_(which):
    def g(l, r):
        # same signedness, no points (see the generator)
        w = max(l.w, r.w)
        f = (lambda a, b: None if b == 0 else tdiv(a, b)) if which == 'div' else (lambda a, b: None if b == 0 else a - b * tdiv(a, b))
        return R(w, l.s and r.s, 0, lift(f, l.nums(), r.nums()))
    return g


def cond(c, t, f):
    (a, b), p, s = align(t, f)
    w = max(t.w - t.p, f.w - f.p) + p
    out = []
    for k, x, y in zip(c.v, a, b):
        out.append(None if k is None else x if k else y)
    return R(w, t.s or f.s, p, out)


def red(f):
    return lambda r: R(1, False, 0, lift(lambda x: int(f(x, r.w)), r.v))


def rshift(arith_):
    def g(l, n):
        v = lift(lambda x, k: x >> min(k, 200), l.nums(arith_ and l.s), n.v)
        return R(l.w, l.s and arith_, l.p, v)
    return g


def sll(l, n, w):
    return R(w, l.s, l.p, lift(lambda x, k: x << min(k, 1100), l.nums(), n.v))


def prev(r, k):
    return R(r.w, r.s, r.p, ([None] * k + r.v)[:len(r.v)])


def cat(*a):
    w = sum(x.w for x in a)

    def f(*v):
        o = 0
        for x, r in zip(v, a):
            o = o << r.w | x
        return o
    return R(w, False, 0, lift(f, *[x.v for x in a]))


def bits(r, msb, lsb):
    return R(msb - lsb + 1, False, 0, lift(lambda x: x >> lsb, r.v))


def cast(r, w, p, s):
    return R(w, s, p, lift(lambda x: x << (p - r.p) if p >= r.p else x >> (r.p - p), r.nums()))


def recast(r, w, p, s):
    return R(w, s, p, r.nums())


def accumulate(op, r, n, size=None, interval=None, init=None, enable=None, reset=None, reg_init=None, w=32, s=True, kind='reduce'):
    """Reference of the accumulators; every argument is an R or None."""
    one = lambda x, d: [d] * n if x is None else x.v
    init_n = [0] * n if init is None else init.nums()
    en, rs = one(enable, 1), one(reset, 0)
    sz = [None] * n if size is None else size.nums()
    iv = [None] * n if interval is None else interval.nums()
    m = (1 << w) - 1
    num = lambda x: None if x is None else (x & m) - (1 << w) if s and (x & m) >> (w - 1) else x & m
    data = num(reg_init)
    out = []
    count = icount = 0
    full = False
    for k in range(n):
        rst = bool(rs[k]) or full
        cur = num(init_n[k]) if rst else data
        cc = 0 if rst else count
        ci = 0 if rst and (reset is not None or size is not None) else icount
        if reset is not None and rst:
            data = cur
        if en[k]:
            hit = True
            if interval is not None:
                hit = ci == iv[k] - 1
                icount = 0 if ci >= iv[k] - 1 else ci + 1
            if hit:
                if size is not None:
                    full = cc >= sz[k] - 1
                    count = 0 if full else cc + 1
                if kind == 'pulse':
                    data = int(cc >= sz[k] - 1)
                else:
                    x = r.v[k]
                    if x is None or cur is None:
                        data = None
                    else:
                        both = s and r.s
                        a = cur if both else cur & m
                        b = r.nums(both)[k]
                        data = num(op(a, b))
        out.append(data)
    return R(w, s, r.p if kind != 'pulse' else 0, out)


def counter(n, size=None, step=1, interval=None, init=None, offset=None, enable=None, reset=None, reg_init=0, w=32, s=False):
    one = lambda x, d: [d] * n if x is None else x.v
    en, rs = one(enable, 1), one(reset, 0)
    m = (1 << w) - 1
    count, icount = reg_init & m, 0
    out = []
    data = count
    for k in range(n):
        rst = bool(rs[k])
        cur = (0 if init is None else init.nums()[k]) & m if rst else count
        ci = 0 if rst else icount
        data = cur
        out.append(data)
        nxt = cur + step
        if size is not None and cur >= size.nums()[k] - step:
            nxt = offset.nums()[k] if offset is not None else nxt - size.nums()[k]
        if en[k]:
            hit = True
            if interval is not None:
                hit = ci == interval.nums()[k] - 1
                icount = 0 if ci >= interval.nums()[k] - 1 else ci + 1
            if hit:
                count = nxt & m
    return R(w, s, 0, out)


# ------------------------------------------------------------------------------------------------ generator
BIN = ['plus', 'minus', 'times', 'lt', 'gt', 'le', 'ge', 'eq', 'ne', 'and', 'or', 'xor', 'xnor', 'land', 'lor', 'sll', 'srl', 'sra', 'sllc', 'srlc',
       'srac', 'plus', 'minus', 'times', 'div', 'mod']
UN = ['uplus', 'uminus', 'ulnot', 'unot', 'uand', 'unand', 'uor', 'unor', 'uxor', 'uxnor', 'abs', 'compl', 'sign']
SP = ['mux', 'mux', 'muxc', 'cast', 'recast', 'cat', 'slice', 'ptr', 'ptrv', 'rep', 'pyslice', 'split', 'prev', 'prev', 'plusn', 'addtree', 'max', 'min', 'avg', 'avgr',
      'sraround', 'madd', 'lut', 'andl', 'orl', 'sync', 'custom', 'alias']
ACC = ['radd', 'rsub', 'rmax', 'rmin', 'rcust', 'count', 'pulse', 'valid', 'countv', 'rand', 'ccount']


def gen_graph(d, stateful, nmax=10, points=False, signs=True):
    """Random graph spec: operands are indices into the list of inputs, parameters, constants and earlier nodes."""
    base = []
    ni = d.int(1, 3)
    for i in range(ni):
        w = d.pick([1, 3, 8, 8, 16, 32, 17])
        base.append(['in', w, bool(signs and d.bool()) or not d.chance(4), d.int(1, min(6, w - 1)) if points and w > 4 and d.bool() else 0])
    if d.bool():
        base.append(['par', d.pick([4, 8, 32]), d.bool(), d.int(0, 255), d.pick(['p', 'v', 'o'])])
    base.append(['const', d.pick([0, 1, 2, 3, -1, -7, 100, d.int(-300, 300)])])
    if points and d.bool():
        base.append(['fconst', d.int(-99, 99), d.int(1, 4)])
    nodes = []
    for k in range(d.int(1, nmax)):
        kind = d.pick(['bin', 'bin', 'un', 'sp', 'sp'] + ['acc'] * (2 * stateful))
        op = d.pick({'bin': BIN, 'un': UN, 'sp': SP, 'acc': ACC}[kind])
        n = len(base) + len(nodes)
        pick = lambda: d.int(max(0, n - 4), n - 1) if d.bool() else d.int(0, n - 1)
        nodes.append([op, [pick() for _ in range(5)], [d.int(0, 12) for _ in range(4)], [d.bool() for _ in range(4)]])
    return dict(base=base, nodes=nodes, outs=d.list(0, 3, lambda: d.int(0, len(base) + len(nodes) - 1)))


class Skip(Exception):
    pass


class Graph(object):
    """Builds the stream objects (api: module stypes or a Stream object) and the reference values side by side."""

    def __init__(self, spec, api, n, inputs, params, mkvar, mkpar, iiop=False):
        self.api = api
        self.n = n
        self.labels = set()
        self.nodes = []                 # (stream object, R)
        self.names = []
        ii = pi = 0
        for b in spec['base']:
            if b[0] == 'in':
                w, s, p = b[1], b[2], b[3]
                self.nodes.append((mkvar('x%d' % ii, w, p, s), R(w, s, p, inputs[ii])))
                ii += 1
            elif b[0] == 'par':
                w, s, v, form = b[1:]
                self.nodes.append((mkpar('p%d' % pi, v, w, s, form), R(w, s, 0, [v] * n, True)))
                pi += 1
            elif b[0] == 'fconst':
                import veriloggen.stream.stypes as st
                raw, p = b[1], b[2]
                self.nodes.append((st.FixedPoint(raw, p), R(int_width(raw), True, p, [raw] * n, 'num')))
            else:
                self.nodes.append(self.const(b[1]))
        for nd in spec['nodes']:
            try:
                r = self.node(*nd)
            except Skip:
                r = self.nodes[nd[1][0]]
            self.nodes.append(r)

    def const(self, v):
        import veriloggen.stream.stypes as st
        return st.Int(v), R(int_width(v), True, 0, [v] * self.n, 'num')

    def c(self, v):
        return R(int_width(v), True, 0, [v] * self.n, 'num')

    def nonconst(self, x):
        if x[1].const:
            raise Skip()
        return x

    def small(self, x, k):
        """k low bits of a node as an unsigned value."""
        x = self.nonconst(x)
        if x[1].w < k:
            k = x[1].w
        return self.api.Slice(x[0], k - 1, 0), bits(x[1], k - 1, 0)

    def bit(self, x):
        return self.small(x, 1)

    def intnode(self, x):
        if x[1].p:
            return self.api.Cast(x[0], x[1].w, 0, x[1].s), cast(x[1], x[1].w, 0, x[1].s)
        return x

    def node(self, op, ai, k, f):
        api = self.api
        A = [self.nodes[i] for i in ai]
        (a, ra), (b, rb), (c, rc) = A[0], A[1], A[2]
        allc = lambda *x: all(y.const for y in x)
        self.labels.add(op)
        import veriloggen.stream.stypes as st
        if op in ('plus', 'minus', 'times', 'lt', 'gt', 'le', 'ge', 'eq', 'ne', 'and', 'or', 'xor', 'xnor', 'land', 'lor'):
            if allc(ra, rb):
                raise Skip()
            if f[0] and not ra.const and rb.const and rb.p == 0:
                # plain Python numbers as operands
                v = rb.nums()[0]
                if isinstance(b, st.Int):
                    b = v
            if f[0] and f[1] and ra.const and not rb.const and ra.p == 0 and isinstance(a, st.Int):
                a = ra.nums()[0]
            pym = dict(plus=lambda: a + b, minus=lambda: a - b, times=lambda: a * b, lt=lambda: a < b, gt=lambda: a > b, le=lambda: a <= b,
                       ge=lambda: a >= b, eq=lambda: a == b, ne=lambda: a != b)
            pym.update({'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b, 'xnor': lambda: api.Xnor(a, b), 'land': lambda: api.Land(a, b),
                        'lor': lambda: api.Lor(a, b)})
            nm = dict(plus='Plus', minus='Minus', times='Times', lt='LessThan', gt='GreaterThan', le='LessEq', ge='GreaterEq', eq='Eq', ne='NotEq',
                      xnor='Xnor', land='Land', lor='Lor', xor='Xor')
            nm.update({'and': 'And', 'or': 'Or'})
            obj = pym[op]() if f[1] else getattr(api, nm[op])(a, b)
            ref = dict(plus=arith(lambda x, y: x + y), minus=arith(lambda x, y: x - y), times=times, lt=compare(lambda x, y: x < y),
                       gt=compare(lambda x, y: x > y), le=compare(lambda x, y: x <= y), ge=compare(lambda x, y: x >= y),
                       eq=compare(lambda x, y: x == y), ne=compare(lambda x, y: x != y), xor=logical(lambda x, y: x ^ y), xnor=logical(lambda x, y: ~(x ^ y)),
                       land=lambda l, r: R(1, False, 0, lift(lambda x, y: int(bool(x) and bool(y)), l.v, r.v)),
                       lor=lambda l, r: R(1, False, 0, lift(lambda x, y: int(bool(x) or bool(y)), l.v, r.v)))
            ref['and'] = logical(lambda x, y: x & y)
            ref['or'] = logical(lambda x, y: x | y)
            if op == 'times' and ra.w + rb.w > 120:
                raise Skip()
            if op == 'times' and f[2]:
                obj.latency = 3 + k[0] % 4
            elif op in ('plus', 'minus', 'xor', 'lt') and f[2]:
                obj.latency = k[0] % 4
            return obj, ref[op](ra, rb)
        if op in ('div', 'mod'):
            a, ra = self.intnode((a, ra))
            b, rb = self.intnode((b, rb))
            if allc(ra, rb) or ra.s != rb.s or max(ra.w, rb.w) < 4 or max(ra.w, rb.w) > 40:
                raise Skip()
            obj = (a / b if f[1] else api.Div(a, b)) if op == 'div' else (a % b if f[1] else api.Mod(a, b))
            return obj, divmod_(op)(ra, rb)
        if op in ('sll', 'srl', 'sra'):
            if ra.const:
                raise Skip()
            n_, rn = self.small(A[1], 1 + k[0] % 4)
            if op == 'sll' and ra.w + 2 ** rn.w > 100:
                raise Skip()
            if op == 'sll':
                return (a << n_ if f[0] else api.Sll(a, n_)), sll(ra, rn, ra.w + 2 ** rn.w)
            if op == 'srl':
                return (a >> n_ if f[0] else api.Srl(a, n_)), rshift(False)(ra, rn)
            return (a.sra(n_) if f[0] else api.Sra(a, n_)), rshift(True)(ra, rn)
        if op in ('sllc', 'srlc', 'srac'):
            if ra.const or ra.w > 100:
                raise Skip()
            rn = R(8, False, 0, [k[0]] * self.n)
            if op == 'sllc':
                return (a << k[0] if f[0] else api.Sll(a, k[0])), sll(ra, rn, ra.w + k[0])
            if op == 'srlc':
                return (a >> k[0] if f[0] else api.Srl(a, st.Int(k[0]))), rshift(False)(ra, rn)
            return (a.sra(k[0]) if f[0] else api.Sra(a, k[0])), rshift(True)(ra, rn)
        if op in UN:
            self.nonconst(A[0])
            m = dict(uplus='Uplus', uminus='Uminus', ulnot='Ulnot', unot='Unot', uand='Uand', unand='Unand', uor='Uor', unor='Unor', uxor='Uxor',
                     uxnor='Uxnor', abs='Abs', compl='Complement2', sign='Sign')
            if f[0] and op in ('uplus', 'uminus', 'abs'):
                obj = dict(uplus=lambda: +a, uminus=lambda: -a, abs=lambda: abs(a))[op]()
            elif f[0] and op == 'ulnot':
                obj = api.Not(a)
            else:
                obj = getattr(api, m[op])(a)
            full = (1 << ra.w) - 1
            par = lambda x: bin(x).count('1') & 1
            ref = dict(uplus=lambda r: r, uminus=lambda r: R(r.w, r.s, r.p, lift(lambda x: -x, r.nums())),
                       ulnot=red(lambda x, w: x == 0), unot=lambda r: R(r.w, False, 0, lift(lambda x: ~x, r.v)),
                       uand=red(lambda x, w: x == full), unand=red(lambda x, w: x != full), uor=red(lambda x, w: x != 0),
                       unor=red(lambda x, w: x == 0), uxor=red(lambda x, w: par(x)), uxnor=red(lambda x, w: 1 - par(x)),
                       abs=lambda r: R(r.w, r.s, r.p, lift(abs, r.nums())), compl=lambda r: R(r.w, r.s, r.p, lift(lambda x: -x, r.nums())),
                       sign=lambda r: R(r.w, r.s, r.p, lift(lambda x: int(x < 0), r.nums())))
            return obj, ref[op](ra)
        if op in ('mux', 'muxc'):
            if allc(rb, rc) and ra.const:
                raise Skip()
            if f[0] and rc.const and isinstance(c, st.Int):
                c = rc.nums()[0]
            return (api.Mux(a, b, c) if f[1] or not hasattr(api, 'Cond') else api.Cond(a, b, c)), cond(ra, rb, rc)
        if op == 'cast':
            self.nonconst(A[0])
            w = 1 + k[0] * 3
            p = k[1] % 5 if f[1] else None
            p_ = ra.p if p is None else p
            s = f[2] if f[3] else None
            s_ = ra.s if s is None else s
            return api.Cast(a, width=w, point=p, signed=s), cast(ra, w, p_, s_)
        if op == 'recast':
            self.nonconst(A[0])
            w = 1 + k[0] * 3
            return api.ReinterpretCast(a, width=w, point=k[1] % 4, signed=f[2]), recast(ra, w, k[1] % 4, f[2])
        if op == 'cat':
            xs = [self.nonconst(x) for x in A[:2 + k[0] % 2]]
            if sum(x[1].w for x in xs) > 100:
                raise Skip()
            return api.Cat(*[x[0] for x in xs]), cat(*[x[1] for x in xs])
        if op in ('slice', 'pyslice', 'ptr', 'ptrv', 'rep', 'split'):
            self.nonconst(A[0])
            hi = k[0] % ra.w
            lo = k[1] % (hi + 1)
            if op == 'slice':
                return (api.Slice(a, hi, lo) if f[0] else a.slice(hi, lo)), bits(ra, hi, lo)
            if op == 'pyslice':
                if f[0] and ra.w > 1:
                    return a[lo - ra.w:], bits(ra, ra.w - 1, lo)
                if f[1] and hi > lo:
                    stp = 1 + k[2] % 3
                    idx = list(range(lo, hi + 1, stp))
                    return a[lo:hi + 1:stp], cat(*[bits(ra, i, i) for i in reversed(idx)])
                return (a[lo:hi + 1] if f[2] else a[:hi + 1]), bits(ra, hi, lo if f[2] else 0)
            if op == 'ptr':
                return (a[hi] if f[0] else a[hi - ra.w] if f[1] else api.Pointer(a, hi)), bits(ra, hi, hi)
            if op == 'ptrv':
                kk = ra.w.bit_length() - 1
                if kk < 1:
                    raise Skip()
                n_, rn = self.small(A[1], kk)
                return (a[n_] if f[0] else api.Pointer(a, n_)), R(1, False, 0, lift(lambda x, i: x >> i, ra.v, rn.v))
            if op == 'rep':
                t = 1 + k[0] % 4
                if ra.w * t > 100:
                    raise Skip()
                return (api.Repeat(a, t) if f[0] else a.repeat(t)), cat(*[ra] * t)
            # split
            if ra.w < 2:
                raise Skip()
            n_ = 2 + k[0] % 3
            if f[0]:
                cw = -(-ra.w // n_)
                parts = api.Split(a, num_chunks=n_, reverse=f[1])
                num = n_
            else:
                cw = 1 + k[1] % ra.w
                parts = api.Split(a, width=cw, reverse=f[1], signed=f[2], point=0)
                num = -(-ra.w // cw)
            sg = ra.s if f[0] else f[2]
            ref = []
            for i in range(num):
                src = R(cw * num, False, 0, ra.nums(sg))
                ref.append(R(cw, sg, ra.p if f[0] else 0, lift(lambda x: x >> (i * cw), src.v)))
            if not f[1]:
                ref.reverse()
            if len(parts) != num:
                raise AssertionError('Split returns %d chunks, expected %d' % (len(parts), num))
            j = k[2] % num
            return parts[j], ref[j]
        if op == 'prev':
            self.nonconst(A[0])
            j = k[0] % 4
            return a.prev(j), prev(ra, j)
        if op in ('plusn', 'addtree', 'max', 'min', 'avg', 'avgr'):
            xs = [self.intnode(x) for x in A[:1 + (k[0] % 5)]]
            if allc(*[x[1] for x in xs]) or len(xs) < 2:
                raise Skip()
            if op in ('avg', 'avgr') and len(set(x[1].s for x in xs)) > 1:
                raise Skip()
            objs = [x[0] for x in xs]
            refs = [x[1] for x in xs]
            w = max(r.w for r in refs)
            if op == 'plusn':
                s = all(r.s for r in refs)
                return api.PlusN(*objs) if f[0] else api.AddN(*objs), R(w, any(r.s for r in refs), 0, lift(lambda *v: sum(v), *[r.nums(s) for r in refs]))

            def tree(fn, rs):
                if len(rs) == 1:
                    return rs[0]
                h = len(rs) // 2
                return fn(tree(fn, rs[:h]), tree(fn, rs[h:]))
            add = arith(lambda x, y: x + y)
            if op == 'addtree':
                return api.AddTree(*objs), tree(add, refs)
            if op == 'max':
                return api.Max(*objs), tree(lambda x, y: cond(compare(lambda p, q: p > q)(x, y), x, y), refs)
            if op == 'min':
                return api.Min(*objs), tree(lambda x, y: cond(compare(lambda p, q: p < q)(x, y), x, y), refs)
            tot = tree(add, refs)
            L = len(refs)
            if op == 'avgr':
                tot = add(tot, self.c(L // 2)) if tot.s else None
            if tot is None or (L & (L - 1) and (not tot.s or tot.w < 4)):
                raise Skip()
            obj = api.Average(*objs) if op == 'avg' else api.AverageRound(*objs)
            if L & (L - 1) == 0:
                return obj, rshift(True)(tot, R(8, False, 0, [L.bit_length() - 1] * self.n))
            return obj, divmod_('div')(tot, self.c(L))
        if op == 'sraround':
            a, ra = self.nonconst(self.intnode(A[0]))
            if not ra.s or ra.w < 2:
                raise Skip()

            def rnd(x, q):
                if q == 0:
                    return x
                h = (abs(x) + (1 << (q - 1))) >> q
                return h if x >= 0 else -h
            if f[0]:
                q = k[0] % (ra.w - 1)
                return api.SraRound(a, q), R(ra.w, True, 0, lift(lambda x: rnd(x, q), ra.nums()))
            kk = (ra.w - 1).bit_length() - 1
            if kk < 1:
                raise Skip()
            n_, rn = self.small(A[1], kk)
            return api.SraRound(a, n_), R(ra.w, True, 0, lift(rnd, ra.nums(), rn.v))
        if op == 'madd':
            xs = [self.intnode(x) for x in A[:3]]
            if allc(*[x[1] for x in xs]) or sum(x[1].w for x in xs) > 100:
                raise Skip()
            rs = [x[1] for x in xs]
            W = max(rs[0].w + rs[1].w, rs[2].w)
            s = all(r.s for r in rs)
            full = R(W, s, 0, lift(lambda x, y, z: x * y + z, *[r.nums() for r in rs]))
            return (api.MulAdd if f[0] else api.Madd)(*[x[0] for x in xs]), R(max(r.w for r in rs), s, 0, full.nums())
        if op == 'lut':
            kk = 1 + k[0] % 3
            n_, rn = self.small(A[0], kk)
            num = 2 ** rn.w if f[0] else 2 ** (rn.w - 1) + 1 + k[1] % 2 ** (rn.w - 1)
            num = min(num, 2 ** rn.w)
            w = 4 + k[2]
            tab = [(i * 37 + k[1] * 11 - 40 * f[1]) for i in range(num)]
            s = f[2]
            tabs = tab if all(x >= 0 for x in tab) else [vt.Int(x & ((1 << w) - 1), width=w) for x in tab]
            tabs = tab
            return (api.LUT(n_, tabs, width=w, signed=s),
                    R(w, s, 0, lift(lambda x: tab[x] if x < num else None, rn.v) if True else None))
        if op in ('andl', 'orl'):
            xs = A[:2 + k[0] % 2]
            if allc(*[x[1] for x in xs]):
                raise Skip()
            fn = {'andl': [api.Ands, api.AndList], 'orl': [api.Ors, api.OrList]}[op][int(f[0])]
            g = all if op == 'andl' else any
            return fn(*[x[0] for x in xs]), R(1, False, 0, lift(lambda *v: int(g(bool(x) for x in v)), *[x[1].v for x in xs]))
        if op == 'sync':
            xs = [self.nonconst(x) for x in A[:2]]
            i = k[0] % 2
            return api.Sync(*[x[0] for x in xs])[i], xs[i][1]
        if op == 'custom':
            (a, ra), (b, rb) = self.nonconst(self.intnode(A[0])), self.nonconst(self.intnode(A[1]))
            if ra.s != rb.s:
                raise Skip()
            w = max(ra.w, rb.w)
            return api.CustomOp(lambda x, y: (x + y) ^ x, a, b), R(w, ra.s, 0, lift(lambda x, y: (x + y) ^ x, ra.nums(), rb.nums()))
        if op == 'alias':
            self.nonconst(A[0])
            return api.Variable(a) if f[0] else api.Alias(a, 'alias_%d' % len(self.nodes)) if hasattr(api, 'Alias') and False else api.Variable(a), ra
        # ------------------------------------------------------------------ accumulators
        n = self.n
        a, ra = self.nonconst(self.intnode(A[0]))
        w, s = [8, 16, 32, 40][k[0] % 4], f[0]
        mode = k[1] % 8
        kw, rk = {}, {}
        size = 1 + k[2] % 5

        def number(v):
            return (v, self.c(v))
        if mode in (0, 1, 2):
            if f[1]:
                kw['size'], rk['size'] = number(size)
            else:
                q, rq = self.small(A[1], 2)
                # 1 to 4
                kw['size'], rk['size'] = q + 1, arith(lambda x, y: x + y)(rq, self.c(1))
                if rk['size'].w < 3:
                    kw['size'], rk['size'] = number(size)
                if any(x in (0, None) for x in rk['size'].v):
                    kw['size'], rk['size'] = number(size)
        if mode in (1, 3, 4):
            q, rq = self.bit(A[2]) if f[2] else self.nonconst(A[2])
            kw['enable'], rk['enable'] = q, rq
        if mode in (4, 5):
            kw['reset'], rk['reset'] = self.bit(A[3])
        if mode in (2, 6):
            kw['interval'], rk['interval'] = number(1 + k[3] % 4)
        for key in ('enable', 'reset', 'size'):
            if key in rk and any(x is None for x in rk[key].v):
                raise Skip()
        iv = [0, 0, 1, -3, 7, 50][k[3] % 6]
        if op == 'pulse':
            if 'size' not in kw:
                kw['size'], rk['size'] = number(size)
            kw.pop('interval', None)
            rk.pop('interval', None)
            sz = kw.pop('size')
            return api.Pulse(sz, **kw), accumulate(None, R(1, False, 0, [0] * n), n, w=1, s=False, kind='pulse', reg_init=0, **rk)
        if op in ('count', 'countv'):
            step = 1 + k[2] % 3
            rk2 = dict(rk)
            if 'size' in rk and min(rk['size'].nums()) < step:
                step = 1
            ini = abs(iv) % 4
            if f[3]:
                kw['initval'] = ini
                rk2['init'] = self.c(ini)
            reg = ini if f[3] else 0
            if op == 'countv':
                if 'size' not in kw or 'interval' in kw:
                    raise Skip()
                d_, v_ = api.CounterValid(step=1, width=w, **kw)
                if f[2]:
                    return v_, accumulate(None, R(1, False, 0, [0] * n), n, w=1, s=False, kind='pulse', reg_init=0, **rk)
                return d_, counter(n, step=1, w=w, reg_init=reg, **rk2)
            if 'size' in kw and f[2] and mode == 0:
                kw['offset'], rk2['offset'] = number(k[3] % 2)
            return api.Counter(step=step, width=w, **kw), counter(n, step=step, w=w, reg_init=reg, **rk2)
        if op == 'rand':
            if mode in (3, 4):
                kw = dict(enable=kw['enable'])
                en = rk['enable'].v
            else:
                kw, en = {}, [1] * n
            w = 32 if f[0] else 64
            seed = 0x12345678 + k[0]
            x, data, out = seed, seed, []
            mm = (1 << w) - 1
            for e in en:
                if e:
                    data = x
                    y = x ^ (x << 13) & mm
                    y = y ^ y >> (17 if w == 32 else 7)
                    x = (y ^ y << (5 if w == 32 else 17)) & mm
                out.append(data)
            return api.RandXorshift(reg_initval=seed, width=w, **kw), R(w, False, 0, out)
        if op == 'ccount':
            rst = self.bit(A[1])
            if any(x is None for x in rst[1].v):
                raise Skip()
            out0, out1 = [], []
            # the counter has a value from its first reset on
            na = k[1] % 4
            ext = [x for x in A[2:5] if x[1].p == 0][:na]
            x = y = None
            m16 = (1 << 16) - 1
            for e, r in enumerate(rst[1].v):
                vs = [q[1].nums(False)[e] for q in ext]
                if r:
                    x, y = 3, 1
                elif x is not None:
                    if any(q is None for q in vs):
                        x = y = None
                    else:
                        x, y = (x + y + sum(vs)) & m16, (y + 2) & 255
                out0.append(x)
                out1.append(y)

            def fn(p, q, *z):
                t = p + q
                for o in z:
                    t = t + o
                return t, q + 2
            res = api.CustomCounter(fn, (3, 1), args=[q[0] for q in ext] if ext or f[1] else None, reset=rst[0], width_list=(16, 8),
                                    signed_list=(False, False))
            i = k[0] % 2
            return res[i], (R(16, False, 0, out0) if i == 0 else R(8, False, 0, out1))
        if op == 'valid':
            if 'size' not in kw or 'interval' in kw:
                raise Skip()
            which = k[0] % 4
            fn = [api.ReduceAddValid, api.ReduceSubValid, api.ReduceMaxValid, api.ReduceMinValid][which]
            q = [lambda x, y: x + y, lambda x, y: x - y, max, min][which]
            kw.update(width=w, signed=s, initval=iv)
            dat, val = fn(a, **kw)
            if f[3]:
                return val, accumulate(None, R(1, False, 0, [0] * n), n, w=1, s=False, kind='pulse', reg_init=0, **rk)
            return dat, accumulate(q, ra, n, init=self.c(iv), reg_init=iv, w=w, s=s, **rk)
        q = dict(radd=lambda x, y: x + y, rsub=lambda x, y: x - y, rmax=max, rmin=min, rcust=lambda x, y: (x ^ y) + 1)[op]
        fn = dict(radd=api.ReduceAdd, rsub=api.ReduceSub, rmax=api.ReduceMax, rmin=api.ReduceMin)
        kw.update(width=w, signed=s)
        if f[3] or op == 'rcust':
            kw['initval'] = iv
        else:
            iv = 0
        if op == 'rcust':
            obj = api.ReduceCustom(lambda x, y: (x ^ y) + 1, a, **kw)
            if ra.w > w:
                raise Skip()
        else:
            obj = fn[op](a, **kw)
        return obj, accumulate(q, ra, n, init=self.c(iv), reg_init=iv, w=w, s=s, **rk)
