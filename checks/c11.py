"""C11: compiled threads compute what the Python function computes.

Oracle: CPython executes the same generated source, its integers replaced by fixed-width two's
complement integers; the sequences of printed lines, object writes and the returned value must be equal.
"""
import ast
import re

import vlib  # noqa: F401
from vlib.gen import spec
from vlib.core import Part, Violation, main
from vlib import sim
from checks import thr

from veriloggen import *  # noqa
import veriloggen.thread as vthread

ARITH = ['+', '-', '*', '&', '|', '^']
CMP = ['<', '<=', '>', '>=', '==', '!=']


class G(object):
    """Generator of Python source in the supported subset."""

    def __init__(self, d):
        self.d = d
        self.lines = []
        self.n = 0
        self.funcs = []      # (name, [params], ndefaults, vararg, pure)
        self.budget = 60     # statements
        self.labels = set()

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ---- expressions ----
    def const(self):
        d = self.d
        return str(d.pick([0, 1, 2, 3, 5, 7, 10, 100, 255, 1000])) if d.int(0, 3) else '(%d)' % d.int(-20, -1)

    def leaf(self, env):
        d = self.d
        k = d.int(0, 9)
        if k <= 6:
            return d.pick(env['vars'])
        if k == 7:
            return self.const()
        return d.pick(['led', 'led.value', 'K', 'obj.k', 'obj.reg', 'obj.prop', 'LST[%d]' % d.int(-2, 2), 'obj.inner.c'])

    def var_leaf(self, env):
        return self.d.pick(env['vars'])

    def ex(self, env, depth=2, calls=True):
        """Integer-valued expression (no truth values inside)."""
        d = self.d
        if depth <= 0 or d.int(0, 4) == 0:
            return self.leaf(env)
        k = d.int(0, 19)
        if k <= 8:
            return '(%s %s %s)' % (self.ex(env, depth - 1, calls), d.pick(ARITH), self.var_leaf(env) if d.bool() else
                                   self.ex(env, depth - 1, calls))
        if k <= 10:
            return '(%s %s %d)' % (self.ex1(env, depth - 1, calls), d.pick(['<<', '>>']), d.int(0, 9))
        if k == 11:
            return '(%s %s (%s & 7))' % (self.ex1(env, depth - 1, calls), d.pick(['<<', '>>']), self.var_leaf(env))
        if k == 12:
            return '((%s & 1023) %s %s)' % (self.ex1(env, depth - 1, calls), d.pick(['//', '%']),
                                            d.pick(['3', '7', '((%s & 15) + 1)' % self.var_leaf(env)]))
        if k == 13:
            return '(%s%s)' % (d.pick(['-', '~', '+']), self.ex1(env, depth - 1, calls))
        if k == 14:
            return '(%s if %s else %s)' % (self.ex1(env, depth - 1, calls), self.cond(env, depth - 1, calls), self.ex1(env, depth - 1, calls))
        if k == 15:
            return '(%s ** %d)' % (self.var_leaf(env), d.int(0, 3))
        if k <= 18 and calls and env['fns']:
            return self.call(env, depth - 1)
        return self.leaf(env)

    def ex1(self, env, depth, calls):
        """Contains at least one variable (constants are folded by the compiler in unlimited precision)."""
        return '(%s %s %s)' % (self.var_leaf(env), self.d.pick(ARITH), self.ex(env, depth, calls)) if self.d.bool() \
            else self.var_leaf(env)

    def cond(self, env, depth=1, calls=True):
        d = self.d
        k = d.int(0, 9)
        if depth <= 0 or k <= 4:
            return '%s %s %s' % (self.ex(env, depth, calls), d.pick(CMP), self.ex(env, depth, calls))
        if k == 5:
            return '(%s %s %s %s %s)' % (self.ex(env, 0, calls), d.pick(CMP), self.ex(env, 1, calls), d.pick(CMP), self.ex(env, 0, calls))
        if k == 6:
            return '(%s)' % (' %s ' % d.pick(['and', 'or'])).join(self.cond(env, depth - 1, calls) for _ in range(d.int(2, 3)))
        if k == 7:
            return '(not %s)' % self.cond(env, depth - 1, calls)
        if k == 8:
            return self.ex1(env, depth, calls)
        return d.pick(['True', 'False', '%s %s %s' % (self.var_leaf(env), d.pick(CMP), self.const())])

    def args(self, env, f, depth):
        d = self.d
        name, params, nd, va, _ = f
        k = d.int(len(params) - nd, len(params))
        vals = [self.ex(env, depth, depth > 0) for _ in range(k)]
        npos = d.int(0, k)
        out = vals[:npos]
        if va and npos == len(params) and d.bool():
            out += [self.ex(env, 0) for _ in range(d.int(0, 3))]
            return ', '.join(out)
        # keyword arguments: the remaining ones, in any order; defaults may be skipped
        req = list(params[npos:len(params) - nd])
        opt = [p for p in params[max(npos, len(params) - nd):] if d.bool()]
        kws = d.shuffle(req + opt)
        if kws:
            self.labels.add('keyword')
        out += ['%s=%s' % (p, self.ex(env, 0)) for p in kws]
        return ', '.join(out)

    def call(self, env, depth, which='fns'):
        f = self.d.pick(env[which])
        self.labels.add('call')
        if f[0].startswith('obj.'):
            self.labels.add('method')
        return '%s(%s)' % (f[0], self.args(env, f, min(depth, 1)))

    def retex(self, env, depth):
        return self.d.pick(['0', '0', '1', '-1', '2']) if self.d.int(0, 4) <= 1 else self.ex(env, depth)

    # ---- statements ----
    def emit(self, ind, s):
        self.lines.append('    ' * ind + s)

    def block(self, env, ind, depth, n=None):
        d = self.d
        env = dict(env, vars=list(env['vars']), rw=list(env['rw']))
        for i in range(n or d.int(1, 4)):
            if self.stmt(env, ind, depth, i):
                break

    def stmt(self, env, ind, depth, pos):
        """Emit one statement; returns True when it ends the block."""
        d = self.d
        self.budget -= 1
        k = d.int(0, 29)
        if self.budget <= 0 and k >= 12:
            k = d.int(0, 11)
        if env['ifns'] and d.int(0, 5) == 0:
            c = self.call(env, 1, 'ifns')
            self.labels.add('impure')
            kk = d.int(0, 5)
            if kk <= 2:
                self.emit(ind, '%s %s %s' % (d.pick(env['rw']), d.pick(['=', '+=', '=', '^=']), c))
            elif kk == 3:
                self.emit(ind, 'if %s %s %s:' % (c, d.pick(CMP), self.const()))
                self.block(env, ind + 1, 0, d.int(1, 2))
                if d.bool():
                    self.emit(ind, 'elif %s %s %s:' % (self.call(env, 1, 'ifns'), d.pick(CMP), self.const()))
                    self.block(env, ind + 1, 0, d.int(1, 2))
                if d.bool():
                    self.emit(ind, 'else:')
                    self.block(env, ind + 1, 0, d.int(1, 2))
            elif kk == 4 and env['loops'] < 2:
                w = self.fresh('w')
                self.emit(ind, '%s = 0' % w)
                self.emit(ind, 'while (%s & 3) + %s < %d:' % (c, w, d.int(1, 5)))
                self.emit(ind + 1, '%s += 1' % w)
                self.block(dict(env, vars=env['vars'] + [w], loops=env['loops'] + 1, inloop=True), ind + 1, min(depth - 1, 1), d.int(1, 2))
            else:
                self.emit(ind, c)
        elif k <= 3:
            self.emit(ind, '%s = %s' % (d.pick(env['rw']), self.ex(env, 3)))
        elif k <= 5:
            self.emit(ind, '%s %s= %s' % (d.pick(env['rw']), d.pick(ARITH), self.ex(env, 2)))
        elif k == 6:
            self.emit(ind, '%s %s= %d' % (d.pick(env['rw']), d.pick(['<<', '>>']), d.int(0, 5)))
        elif k == 7:
            a, b = d.pick(env['rw']), d.pick(env['rw'])
            if a == b:
                self.emit(ind, '%s = %s = %s' % (a, d.pick(env['rw']), self.ex(env, 2)))
            else:
                self.labels.add('tuple')
                tmpl = d.pick(['%s, %s = %s, %s', '(%s, %s) = (%s, %s)', '[%s, %s] = [%s, %s]'])
                self.emit(ind, tmpl % (a, b, self.ex(env, 2), self.ex(env, 2)))
        elif k == 8:
            c = self.cond(env, 2)
            if ' and ' in c or ' or ' in c or not re.search('[<>=!]', c):
                c = 'not (%s)' % c      # the value of and/or is only used as a truth value
            self.emit(ind, '%s = %s' % (d.pick(env['rw']), c))
        elif k == 9:
            t = d.pick(['led.value = %s', 'led.value += %s', 'obj.reg.value = %s', 'led.value -= %s'])
            self.emit(ind, t % self.ex(env, 2))
            self.emit(ind, 'print("led", led)')
        elif k <= 11:
            self.pr(env, ind)
        elif k <= 15 and not (k >= 14 and env['fns'] and env['loops'] < 2 and not env['inloop']):
            self.emit(ind, 'if %s:' % self.cond(env, 2))
            self.block(env, ind + 1, depth - 1)
            for _ in range(d.pick([0, 0, 0, 1, 1, 2])):
                self.emit(ind, 'elif %s:' % self.cond(env, 2, False))
                self.block(env, ind + 1, depth - 1)
            if d.bool():
                self.emit(ind, 'else:')
                self.block(env, ind + 1, depth - 1)
        elif k in (14, 15, 16, 22) and env['fns'] and env['loops'] < 2 and not env['inloop']:
            v = self.fresh('i')
            self.labels.add('call-in-loop')
            self.emit(ind, 'for %s in range(%d):' % (v, d.int(2, 4)))
            e2 = dict(env, vars=[v] * len(env['vars']) + env['vars'])
            self.emit(ind + 1, 'print("r", %s)' % v)
            t = d.pick(env['rw'])
            self.emit(ind + 1, '%s = %s' % (t, self.call(e2, 1)))
            self.emit(ind + 1, 'print("v", %s)' % t)
        elif k <= 18 and depth > 0 and env['loops'] < 3:
            self.loop(env, ind, depth)
        elif k <= 21 and depth > 0 and env['loops'] < 3:
            w = self.fresh('w')
            self.emit(ind, '%s = 0' % w)
            n = d.int(1, 4)
            c = '%s < %d' % (w, n)
            kk = d.int(0, 4)
            if kk == 0:
                c = '%s and %s' % (c, self.cond(env, 1))
            elif kk == 1:
                c = '%s and %s' % (self.cond(env, 1), c)
            self.emit(ind, 'while %s:' % c)
            self.emit(ind + 1, '%s += 1' % w)
            self.labels.add('while')
            self.block(dict(env, vars=env['vars'] + [w], loops=env['loops'] + 1, inloop=True), ind + 1, depth - 1)
            if d.int(0, 5) == 0:
                self.labels.add('loop-else')
                self.emit(ind, 'else:')
                self.block(dict(env, inloop=False) if not env['inloop'] else env, ind + 1, depth - 1)
        elif k <= 23 and env['inloop']:
            c = d.pick(['break', 'continue'])
            self.labels.add(c)
            if d.chance(4):
                self.emit(ind, c)
                return True
            self.emit(ind, 'if %s:' % self.cond(env, 1))
            self.emit(ind + 1, c)
            if d.bool():
                self.emit(ind, 'else:')
                self.block(env, ind + 1, 0)
        elif k == 24 and env['infn']:
            self.labels.add('return')
            r = 'return %s' % self.retex(env, 2)
            if d.chance(5):
                self.emit(ind, r)
                return True
            self.emit(ind, 'if %s:' % self.cond(env, 1))
            self.emit(ind + 1, r)
        elif k == 25 and env['procs']:
            f = d.pick(env['procs'])
            self.labels.add('procedure')
            self.emit(ind, '%s(%s)' % (f[0], self.args(env, f, 1)))
        elif k == 26:
            self.emit(ind, 'pass')
        elif k == 27:
            v = self.fresh('n')
            self.emit(ind, '%s = %s' % (v, self.ex(env, 2)))
            env['vars'].append(v)
            env['rw'].append(v)
        elif k == 28 and env['seqs']:
            t = d.pick(env['seqs'])
            v = self.fresh('e')
            self.labels.add('vararg-use')
            self.emit(ind, 'for %s in %s:' % (v, t))
            self.block(dict(env, vars=env['vars'] + [v], loops=env['loops'] + 1, inloop=True), ind + 1, min(depth - 1, 1))
        else:
            self.pr(env, ind)
        return False

    def loop(self, env, ind, depth):
        d = self.d
        v = self.fresh('i')
        k = d.int(0, 6)
        pre = None
        if k == 0:
            it = 'range(%d)' % d.int(0, 4)
        elif k == 1:
            it = 'range(%d, %d)' % (d.int(-3, 3), d.int(-3, 5))
        elif k == 2:
            it = 'range(%d, %d, %d)' % (d.int(-3, 3), d.int(-3, 9), d.int(2, 4))
        elif k == 3:
            b = self.fresh('b')
            self.emit(ind, '%s = %s & 3' % (b, self.ex(env, 1)))
            it = 'range(%s)' % b
        elif k == 4:
            b = self.fresh('b')
            self.emit(ind, '%s = %s & 3' % (b, self.ex(env, 1)))
            it = 'range(%s - 2, %s + 1)' % (b, b)
        elif k == 5:
            it = 'range(%d, %d, -%d)' % (d.int(-2, 6), d.int(-6, 3), d.int(1, 3))
            self.labels.add('negative-step')
        else:
            # the elements are read when the loop reaches them: only constants and variables that do not change
            elts = [self.const() for _ in range(d.int(1, 4))]
            it = d.pick(['(%s,)', '[%s]']) % ', '.join(elts) if d.bool() else 'LST'
            self.labels.add('for-list')
        self.labels.add('for')
        self.emit(ind, 'for %s in %s:' % (v, it))
        self.block(dict(env, vars=env['vars'] + [v], loops=env['loops'] + 1, inloop=True), ind + 1, depth - 1)
        if d.int(0, 7) == 0:
            self.labels.add('loop-else')
            self.emit(ind, 'else:')
            self.block(env, ind + 1, depth - 1)

    def pr(self, env, ind):
        d = self.d
        k = d.int(0, 6)
        e = [self.var_leaf(env) if d.bool() else self.ex1(env, 1, False) for _ in range(3)]
        if k == 0:
            self.emit(ind, 'print(%s)' % e[0])
        elif k == 1:
            self.emit(ind, 'print("p%d", %s, %s)' % (d.int(0, 9), e[0], e[1]))
        elif k == 2:
            self.emit(ind, 'print("%%d : %%d" %% (%s, %s))' % (e[0], e[1]))
        elif k == 3:
            self.emit(ind, 'print(f"f {%s} g {%s}")' % (e[0], e[1]))
        elif k == 4:
            self.emit(ind, 'print("t=%%d" %% %s, %s)' % (e[0], e[1]))
        elif k == 5:
            self.emit(ind, 'print(f"{%s:d} z", "lit", %s)' % (e[0], e[2]))
        else:
            self.emit(ind, 'print("a" + "b", %s)' % e[0])

    def function(self, i):
        d = self.d
        start = len(self.lines)
        meth = d.chance(4)
        name = ('m%d' if meth else 'f%d') % i
        params = ['p%d' % k for k in range(d.int(0, 3))]
        nd = d.int(0, len(params))
        va = d.chance(5)
        proc = d.chance(4)
        ps = [p if k < len(params) - nd else '%s=%s' % (p, self.const()) for k, p in enumerate(params)]
        if va:
            ps.append('*rest')
        if meth:
            ps = ['self'] + ps
        self.emit(1, 'def %s(%s):' % (name, ', '.join(ps)))
        self.emit(2, 'x = %s' % (d.pick(params) if params and d.bool() else self.const()))
        vs = params + ['x']
        env = dict(vars=vs, rw=['x'] + params, fns=[f for f in self.funcs if f[4] == 0], ifns=[f for f in self.funcs if f[4] == 1],
                   procs=[f for f in self.funcs if f[4] == 2],
                   loops=1, inloop=False, infn=True, seqs=['rest'] if va else [])
        if meth:
            env['fns'] = env['ifns'] = env['procs'] = []
        if va:
            self.emit(2, 'x += len(rest)')
        if proc:
            env['infn'] = False
        if not proc and d.chance(3):
            # an early return: the same call site takes different returns in different iterations
            self.labels.add('return')
            self.emit(2, 'if %s:' % self.cond(dict(env, fns=[]), 1))
            self.emit(3, 'return %s' % self.retex(dict(env, fns=[]), 1))
        self.block(env, 2, 2, d.int(0, 4))
        if proc:
            self.emit(2, 'print("%s", x)' % name)
            if d.bool():
                self.emit(2, 'return')
        else:
            self.emit(2, 'return %s' % self.retex(dict(env, fns=[]), 1))
        full = ('obj.' if meth else '') + name
        text = '\n'.join(self.lines[start:])
        impure = 'print' in text or 'value =' in text or 'value +=' in text or 'value -=' in text or \
            any(f[0] + '(' in text for f in self.funcs if f[4] >= 1)
        self.funcs.append((full, params, nd, va, 2 if proc else 1 if impure else 0))
        return meth


def search(g):
    """A function with several return points selected by small arguments."""
    d = g.d
    g.emit(1, 'def srch(p0, p1=%s):' % g.const())
    g.emit(2, 'x = p0 * %d + p1' % d.int(1, 3))
    env = dict(vars=['p0', 'p1', 'x'], rw=['x', 'p1'], fns=[], ifns=[], procs=[], loops=1, inloop=False, infn=True, seqs=[])
    for _ in range(d.int(1, 3)):
        k = d.int(0, 3)
        r = d.pick(['0', '0', '1', '-1', 'x', 'p0', g.ex(env, 1), None])
        r = 'return' if r is None and d.chance(3) else 'return %s' % (r or 'x')
        if k == 0:
            g.emit(2, 'if p0 %s %d:' % (d.pick(CMP), d.int(0, 3)))
            g.emit(3, r)
        elif k == 1:
            g.emit(2, 'for j in range(%d):' % d.int(1, 3))
            g.emit(3, 'if %s + j %s %d:' % (d.pick(['p0', 'x']), d.pick(CMP), d.int(0, 4)))
            g.emit(4, r)
        elif k == 2:
            g.emit(2, 'while x %s %d:' % (d.pick(['<', '>']), d.int(0, 3)))
            g.emit(3, r if d.bool() else 'if p0 & 1:')
            if g.lines[-1].endswith(':'):
                g.emit(4, r)
                g.emit(3, 'break')
        else:
            g.emit(2, 'if (p0 & 3) == %d:' % d.int(0, 3))
            g.emit(3, r)
            g.emit(2, 'x += 1')
    if not any(l.strip() == 'return' for l in g.lines):
        g.emit(2, 'return %s' % g.retex(env, 1))
    else:
        g.lines[:] = [l if l.strip() != 'return' else l + ' 0' for l in g.lines]
        g.emit(2, 'return %s' % g.retex(env, 1))


@spec
def case(d):
    g = G(d)
    nf = d.int(0, 3)
    meths, funs = [], []
    for i in range(nf):
        start = len(g.lines)
        g.budget = 14
        m = g.function(i)
        body = g.lines[start:]
        del g.lines[start:]
        (meths if m else funs).append(body)
    srch = d.chance(2)
    if srch:
        search(g)
        funs.append(list(g.lines))
        del g.lines[:]
        g.labels.add('search')
    g.budget = 30
    params = ['a%d' % k for k in range(d.int(0, 3))]
    env = dict(vars=['v0', 'v1', 'v2'] + params, rw=['v0', 'v1', 'v2'] + params,
               fns=[f for f in g.funcs if f[4] == 0], ifns=[f for f in g.funcs if f[4] == 1],
               procs=[f for f in g.funcs if f[4] == 2],
               loops=0, inloop=False, infn=False, seqs=[])
    nd = d.int(0, len(params))
    ps = [p if k < len(params) - nd else '%s=%s' % (p, g.const()) for k, p in enumerate(params)]
    g.emit(1, 'def body(%s):' % ', '.join(ps))
    g.emit(2, 'led.value = 0')
    g.emit(2, 'obj.reg.value = %d' % d.int(-5, 5))
    for k in range(3):
        g.emit(2, 'v%d = %s' % (k, d.pick(params) if params and d.bool() else g.const()))
    env['infn'] = True
    if srch:
        g.emit(2, 'for s0 in range(%d):' % d.int(2, 6))
        g.emit(3, 'v0 = srch(%s%s)' % (d.pick(['s0', 's0', '3 - s0', 's0 ^ 1', 'v0 + s0']), d.pick(['', '', ', s0', ', p1=v1'])))
        g.emit(3, 'print("s", s0, v0)')
        if d.bool():
            g.emit(3, 'if srch(s0) %s %s:' % (d.pick(CMP), d.pick(['v0', '0', '1'])))
            g.emit(4, 'print("t")')
    g.block(env, 2, 3, d.int(2, 8))
    g.emit(2, 'print("end", v0, v1, v2)')
    g.emit(2, 'return %s' % g.ex(env, 1))
    main_lines = g.lines
    kw = d.int(0, 2)
    vals = [d.pick([0, 1, -1, 5, 2147483647, -2147483648, d.int(-100, 100)]) for _ in params]
    nargs = d.int(len(params) - nd, len(params))
    npos = d.int(0, nargs)
    return dict(meths=meths, funs=funs, main=main_lines, labels=sorted(g.labels), params=params, vals=vals[:nargs], npos=npos,
                width=d.pick([32, 32, 32, 64, 40]), lib=d.bool(), child=d.int(0, 3) == 0, K=d.int(-9, 99),
                LST=[d.int(-9, 99) for _ in range(3)], ledw=d.pick([8, 16, 32]), ret=True)


def source(s):
    out = ['class Inner(object):', '    c = %d' % s['K'], '', 'class Obj(object):', '    def __init__(self, reg):',
           '        self.reg = reg', '        self.k = %d' % (s['K'] + 1), '        self.inner = Inner()', '',
           '    @property', '    def prop(self):', '        return self.reg + 3', '']
    for f in s['meths']:
        out += f + ['']
    # functions are free functions of build's frame, or functions registered by add_function
    out += ['def functions(add, obj, led, K, LST):']
    for f in s['funs']:
        out += f + ['    add(%s)' % re.match(r'\s*def (\w+)', f[0]).group(1)]
    out += ['    return None', '']
    out += ['def build(mk, obj, led, K, LST, lib):']
    if not s['lib']:
        for f in s['funs']:
            out += f
    out += s['main']
    args = [str(v) for v in s['vals'][:s['npos']]] + ['%s=%d' % (p, v) for p, v in list(zip(s['params'], s['vals']))[s['npos']:]]
    out += ['    th = mk(body)', '    lib(th)', '    return th, th.start(%s), body' % ', '.join(args)]
    return '\n'.join(out) + '\n'


class _Ref(object):
    """A register seen from CPython."""

    def __init__(self, I, RI):
        object.__setattr__(self, 'I', I)
        object.__setattr__(self, 'RI', RI)
        object.__setattr__(self, 'v', 0)

    @property
    def value(self):
        return self.I(self.v)

    @value.setter
    def value(self, x):
        object.__setattr__(self, 'v', int(self.RI(int(x))))

    def __int__(self): return self.v
    def __index__(self): return self.v
    def __bool__(self): return self.v != 0
    def __repr__(self): return str(self.v)
    def __format__(self, s): return format(self.v, s)


def _fwd(n):
    def f(self, *a):
        return getattr(self.I(self.v), n)(*a)
    return f


for _n in ('add sub mul floordiv mod pow lshift rshift and or xor').split():
    for _p in ('', 'r'):
        setattr(_Ref, '__%s%s__' % (_p, _n), _fwd('__%s%s__' % (_p, _n)))
for _n in 'lt le gt ge eq ne neg pos invert'.split():
    setattr(_Ref, '__%s__' % _n, _fwd('__%s__' % _n))


class Wrap(ast.NodeTransformer):
    """Integer constants and truth values become reference integers; everything else is CPython."""

    def visit_Constant(self, n):
        if isinstance(n.value, (int, bool)):
            return ast.copy_location(ast.Call(ast.Name('I_', ast.Load()), [n], []), n)
        return n

    def wrap(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('I_', ast.Load()), [n], []), n)

    def visit_Compare(self, n):
        return self.wrap(n)

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('T_', ast.Load()), [n], []), n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return self.wrap(n)
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == 'len':
            return self.wrap(n)
        self.generic_visit(n)
        return n

    def visit_Subscript(self, n):
        n.value = self.visit(n.value)
        return n

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id == 'led':
            return ast.copy_location(ast.Call(ast.Name('I_', ast.Load()), [n], []), n)
        return n

    def visit_Attribute(self, n):
        if n.attr == 'value':
            return n
        if n.attr == 'reg' and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name('I_', ast.Load()), [n], []), n)
        self.generic_visit(n)
        return n

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n


class Budget(Exception):
    pass


def reference(src, s, width):
    I = thr.make_int(width)
    out = []
    count = [0]

    def pr(*a):
        out.append(' '.join(str(x) for x in a))

    def rng(*a):
        for x in range(*[int(q) for q in a]):
            count[0] += 1
            if count[0] > 60000:
                raise Budget()
            yield I(x)
    tree = ast.parse(src)
    tree = ast.fix_missing_locations(Wrap().visit(tree))
    def mk(x):
        count[0] += 1
        if count[0] > 60000:
            raise Budget()
        return I(x)
    ns = dict(I_=mk, T_=lambda x: I(1 if x else 0), print=pr, range=rng)
    exec(compile(tree, '<ref>', 'exec'), ns)
    RI = thr.make_int(s['ledw'])
    led = _Ref(I, RI)
    obj = ns['Obj'](_Ref(I, RI))
    res = {}

    class Th(object):
        def __init__(self, f):
            self.f = f

        def start(self, *a, **k):
            res['ret'] = self.f(*a, **k)
    if s['lib']:
        # registered functions are visible by name
        ns['functions'](lambda f: ns.__setitem__(f.__name__, f), obj, led, I(s['K']), [I(x) for x in s['LST']])
    ns.update(led=led, obj=obj, K=I(s['K']), LST=[I(x) for x in s['LST']])
    ns['build'](Th, obj, led, I(s['K']), [I(x) for x in s['LST']], lambda t: None)
    return out, int(res['ret'])


def hardware(src, s):
    m = Module('dut')
    clk = m.Input('CLK')
    rst = m.Input('RST')
    led = m.OutputReg('led', s['ledw'], initval=0, signed=True)
    reg = m.Reg('oreg', s['ledw'], initval=0, signed=True)
    fin = m.OutputReg('fin', initval=0)
    rv = m.OutputReg('rv', s['width'], initval=0, signed=True)
    ns, path = thr.load(src, {})
    try:
        obj = ns['Obj'](reg)

        def mk(f):
            return vthread.Thread(m, 'th', clk, rst, f, datawidth=s['width'])

        def lib(t):
            if s['lib']:
                ns['functions'](t.add_function, obj, led, s['K'], s['LST'])
        th, fsm, _ = ns['build'](mk, obj, led, s['K'], s['LST'], lib)
        fsm(fin(1), rv(th.return_value))
        fsm.goto_next()
        text = m.to_verilog()
    finally:
        thr.unload(path)
    tb = thr.TB % (100000, '''wire fin; wire signed [%d-1:0] rv; wire signed [%d-1:0] led;
  dut d(.CLK(CLK), .RST(RST), .led(led), .fin(fin), .rv(rv));
  always @(posedge CLK) if(fin) begin $display("RET %%0d", rv); $finish(0); end''' % (s['width'], s['ledw']))
    return sim.compile_and_run(text + tb, top='tb'), text


def norm(line):
    return ' '.join(re.sub(r'([a-z=:])(?=-?\d)', r'\1 ', line).split())


def run(s):
    src = source(s)
    try:
        want, ret = reference(src, s, s['width'])
    except Budget:
        return dict(nontrivial=False, labels=['budget'])
    want = [norm(x) for x in want] + ['RET %d' % ret]
    out, text = hardware(src, s)
    got = [norm(x) for x in out.splitlines() if x.strip()]
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation('line %d: hardware %r, CPython %r\n%s\n' % (k, got[k:k + 3], want[k:k + 3], src))
    return dict(nontrivial=bool(set(s['labels']) & {'for', 'while', 'call', 'break', 'continue', 'return'}) and len(want) > 2,
                labels=s['labels'] + ['w%d' % s['width']])


PARTS = [Part('thread', case(), run, quick=1200, thorough=40000)]

if __name__ == '__main__':
    main('C11', PARTS,
         rule='programs of up to ~60 statements: nested if/elif/else, while, for over ranges and lists, break/continue/return, '
              'functions and methods with default, keyword and variable arguments, 32/40/64-bit threads; non-trivial = has '
              'control transfer or a call and prints more than two lines',
         assumptions=['Icarus Verilog 12 executes the compiled thread',
                      'integer division and modulo only of non-negative dividends; loop variables are not read after their loop; '
                      'range bounds do not change in the loop; truth values are not operands of arithmetic; functions called in '
                      'short-circuit operators have no side effects'])
