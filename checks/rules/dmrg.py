"""DMRG: the local problem it solves, the path of its sweeps and what it returns."""
from fractions import Fraction
from rules.networks import *


# ---------------------------------------------------------------- rational functions with square roots
class Alg:
    """quotients of polynomials over atoms and square roots of earlier quotients; equality is decided"""

    def __init__(self):
        self.roots = []

    @staticmethod
    def const(k):
        return ({(): Fraction(k)} if k else {}, {(): Fraction(1)})

    @staticmethod
    def atom(x):
        return ({((x, 1),): Fraction(1)}, {(): Fraction(1)})

    @staticmethod
    def pmul(p, q):
        r = {}
        for m, a in p.items():
            for n, b in q.items():
                d = dict(m)
                for x, k in n:
                    d[x] = d.get(x, 0) + k
                k = tuple(sorted(d.items(), key=repr))
                r[k] = r.get(k, 0) + a * b
        return {m: a for m, a in r.items() if a}

    @staticmethod
    def padd(p, q, f=1):
        r = dict(p)
        for m, a in q.items():
            r[m] = r.get(m, 0) + f * a
        return {m: a for m, a in r.items() if a}

    def mul(self, x, y):
        return self.low(self.pmul(x[0], y[0]), self.pmul(x[1], y[1]))

    def div(self, x, y):
        if self.pzero(y[0]):
            raise Unknown('division by zero')
        return self.low(self.pmul(x[0], y[1]), self.pmul(x[1], y[0]))

    def add(self, x, y, f=1):
        if x[1] == y[1]:
            return self.low(self.padd(x[0], y[0], f), x[1])
        return self.low(self.padd(self.pmul(x[0], y[1]), self.pmul(y[0], x[1]), f), self.pmul(x[1], y[1]))

    @staticmethod
    def low(n, d):
        """common monomial factors cancelled"""
        if not n:
            return ({}, {(): Fraction(1)})
        ms = list(n) + list(d)
        c = dict(ms[0])
        for m in ms[1:]:
            m = dict(m)
            c = {x: min(k, m[x]) for x, k in c.items() if x in m}
        if c:
            cut = lambda p: {tuple((x, k - c.get(x, 0)) for x, k in m if k > c.get(x, 0)): a for m, a in p.items()}
            n, d = cut(n), cut(d)
        if len(d) == 1:
            (m, a), = d.items()
            n, d = {k: v / a for k, v in n.items()}, {m: Fraction(1)}
        return n, d

    def pzero(self, p):
        for k in range(len(self.roots) - 1, -1, -1):
            r = ('root', k)
            if any(x == r for m in p for x, _ in m):
                N, D = self.roots[k]
                hi = max([e // 2 for m in p for x, e in m if x == r] or [0])
                even, odd = {}, {}
                for m, a in p.items():
                    e = dict(m).get(r, 0)
                    t = {tuple((x, y) for x, y in m if x != r): a}
                    for _ in range(e // 2):
                        t = self.pmul(t, N)
                    for _ in range(hi - e // 2):
                        t = self.pmul(t, D)
                    if e % 2:
                        odd = self.padd(odd, t)
                    else:
                        even = self.padd(even, t)
                return self.pzero(even) and self.pzero(odd)
        return not p

    def zero(self, x):
        return self.pzero(x[0])

    def same(self, x, y):
        return self.zero(self.add(x, y, -1))

    def sqrt(self, x):
        for k, y in enumerate(self.roots):
            if self.same(x, y):
                return self.atom(('root', k))
        if self.zero(x):
            return self.const(0)
        self.roots.append(x)
        return self.atom(('root', len(self.roots) - 1))

    def conj(self, x, real):
        def g(p):
            r = {}
            for m, a in p.items():
                k = tuple(sorted(((y if y[0] == 'root' or real(y) else flip(y), e) for y, e in m), key=repr))
                r[k] = r.get(k, 0) + a
            return r
        return g(x[0]), g(x[1])


def flip(y):
    """the conjugate of an atom"""
    if y[0] == 'conj':
        return y[1]
    if y[0] == 'ip':
        return ('ip', y[2], y[1])
    return ('conj', y)


class Num:
    """terms -> numbers ('s', quotient) and vectors ('v', {basis vector: quotient}, conjugated)"""

    def __init__(self, known, real=lambda y: False, H=None):
        self.A, self.known, self.real, self.H, self.memo = Alg(), known, real, H, {}

    def __call__(self, t):
        if t not in self.memo:
            self.memo[t] = self.go(t)
        return self.memo[t]

    def s(self, t):
        x = self(t)
        if x[0] != 's':
            raise Unknown('%s is no number' % fmt(t, 4)[:100])
        return x[1]

    def v(self, t):
        x = self(t)
        if x[0] != 'v':
            raise Unknown('%s is no vector' % fmt(t, 4)[:100])
        return x

    def inner(self, x, y):
        """sum of x times the conjugate of y, for vectors of which y is conjugated"""
        A = self.A
        if x[2] == y[2]:
            raise Unknown('product of two vectors neither of which, or both of which, are conjugated')
        if x[2]:
            x, y = y, x
        r = A.const(0)
        for a, p in x[1].items():
            for b, q in y[1].items():
                r = A.add(r, A.mul(A.mul(p, A.conj(q, self.real)), A.atom(('ip', a, b))))
        return r

    def go(self, t):
        A = self.A
        k = self.known(t)
        if k is not None:
            return k
        if t[0] == 'c' and isinstance(t[1], int):
            return ('s', A.const(t[1]))
        if t[0] == 'fl' and float(t[1]).is_integer():
            return ('s', A.const(int(float(t[1]))))
        if t[0] == 'aff':
            r = A.const(t[1])
            for x, c in t[2]:
                r = A.add(r, self.s(x), c)
            return ('s', r)
        if t[0] == 'bin' and t[1] in ('*', '/'):
            return ('s', (A.mul if t[1] == '*' else A.div)(self.s(t[2]), self.s(t[3])))
        o = opcall(t)
        if o is None:
            raise Unknown(fmt(t, 5)[:120])
        n, a = o
        a = tuple(x for x in a if not (x[0] == 'ctor' and x[1] == 'c10::TensorOptions' or x[0] == 'g'))
        if n == 'hamil2site_times_state' and self.H is not None:
            if a[1:] != self.H:
                raise Unknown('the Hamiltonian of %s' % fmt(t, 3)[:120])
            x = self.v(a[0])
            if x[2]:
                raise Unknown('the Hamiltonian on a conjugated state')
            return ('v', {('H', b): p for b, p in x[1].items()}, False)
        if n == 'tensordot' and len(a) == 4:
            i, j = ints(a[2]), ints(a[3])
            if i != j or sorted(i) != list(range(4)):
                raise Unknown('product of states over %s and %s' % (i, j))
            return ('s', self.inner(self.v(a[0]), self.v(a[1])))
        if n in ('contiguous', 'clone', 'copy', 'detach') and len(a) == 1:
            return self(a[0])
        if n == 'conj' and len(a) == 1:
            x = self(a[0])
            return ('s', A.conj(x[1], self.real)) if x[0] == 's' else ('v', x[1], not x[2])
        if n == 'sqrt' and len(a) == 1:
            return ('s', A.sqrt(self.s(a[0])))
        if n == 'pow' and len(a) == 2 and a[1] in (('c', 1), ('c', 2)) or n == 'square':
            x = self.s(a[0])
            return ('s', x if len(a) > 1 and a[1] == ONE else A.mul(x, x))
        if n == 'sub' and len(a) == 1:
            n, a = 'neg', a
        if n == 'neg' and len(a) == 1:
            return self.lin(A.const(0), None, self(a[0]), -1)
        if n in ('add', 'sub') and len(a) in (2, 3) and (len(a) == 2 or a[2] == ONE):
            return self.lin(None, self(a[0]), self(a[1]), 1 if n == 'add' else -1)
        if n in ('mul', 'div', 'multiply', 'divide') and len(a) == 2:
            x, y = self(a[0]), self(a[1])
            if x[0] == 'v' and y[0] == 's' or x[0] == 's' and y[0] == 'v' and n[0] == 'm':
                if x[0] == 's':
                    x, y = y, x
                if x[2]:
                    y = ('s', A.conj(y[1], self.real))
                return ('v', {b: (A.mul if n[0] == 'm' else A.div)(p, y[1]) for b, p in x[1].items()}, x[2])
            if x[0] == y[0] == 's':
                return ('s', (A.mul if n[0] == 'm' else A.div)(x[1], y[1]))
        if n in ('zeros_like', 'ones_like') and a:
            self.s(a[0])
            return ('s', A.const(0 if n[0] == 'z' else 1))
        raise Unknown('%s of %s' % (n, fmt(t, 5)[:120]))

    def lin(self, zero, x, y, f):
        A = self.A
        if x is None:
            x = ('s', zero) if y[0] == 's' else ('v', {}, y[2])
        if x[0] != y[0] or x[0] == 'v' and x[2] != y[2]:
            raise Unknown('sum of a number and a vector')
        if x[0] == 's':
            return ('s', A.add(x[1], y[1], f))
        r = dict(x[1])
        for b, p in y[1].items():
            r[b] = A.add(r.get(b, A.const(0)), p, f)
        return ('v', {b: p for b, p in r.items() if not A.zero(p)}, x[2])

    def same(self, x, y):
        if x[0] != y[0]:
            return False
        if x[0] == 's':
            return self.A.same(x[1], y[1])
        z = self.A.const(0)
        return x[2] == y[2] and all(self.A.same(x[1].get(b, z), y[1].get(b, z)) for b in set(x[1]) | set(y[1]))


# ---------------------------------------------------------------- decisions taken on computed numbers
TRUTH = ('toBool', 'to', 'toDouble', 'item', 'toFloat', 'any', 'all', 'operator bool', 'is_nonzero')


def decisions(R, facts):
    """(kind, argument, truth) of what a path has found out: ('ge'|'gt'|'eq', (x, y)), ('nan', x)"""
    out = []
    for (k, d), v in facts.items():
        d = R.N(d)
        if k in ('eq0', 'lt0') and d[0] == 'aff' and not any(x[0] in ('iter',) for x, _ in d[2]):
            out.append((k, d, v))
            if k == 'eq0' and len(d[2]) == 2 and not d[1] and {c for _, c in d[2]} == {1, -1}:
                out.append(('eq', tuple(x for x, _ in d[2]), v))
            if k == 'lt0' and len(d[2]) == 2 and not d[1] and {c for _, c in d[2]} == {1, -1}:
                lo, hi = sorted(d[2], key=lambda y: -y[1])
                out.append(('gt', (hi[0], lo[0]), v))
        if k != 'eq0':
            continue
        v = not v               # the number is not zero
        y = d
        while True:
            o = opcall(y)
            if o and o[0] in TRUTH and o[1]:
                y = o[1][0]
            elif y[0] in ('un', 'not', 'lnot') and len(y) > 1:
                y, v = y[-1], not v
            else:
                break
        if y[0] == 'c':
            if bool(y[1]) != v:
                return None     # cannot happen
            continue
        o = opcall(y)
        if not o:
            continue
        n, a = o
        n = {'operator==': 'eq', 'operator>': 'gt', 'operator>=': 'ge', 'operator<': 'lt', 'operator<=': 'le', 'greater': 'gt', 'greater_equal': 'ge', 'less': 'lt', 'less_equal': 'le', 'operator!=': 'ne'}.get(n, n)
        if n in ('lt', 'le', 'ne'):
            n, v = {'lt': 'ge', 'le': 'gt', 'ne': 'eq'}[n], not v
        if n in ('eq', 'ge', 'gt', 'isnan'):
            out.append((n, a, v))
    return out


def positive_const(t):
    return t[0] == 'fl' and float(t[1]) > 0 or t[0] == 'c' and isinstance(t[1], int) and t[1] > 0


def magnitude(t):
    """x of |x|"""
    o = opcall(t)
    return o[1][0] if o and o[0] in ('abs', 'fabs', 'absolute') and len(o[1]) == 1 else None


def small(num, D, b):
    """True/False when the path has found |b| to be below/above a positive threshold"""
    for n, a, v in D:
        if n in ('ge', 'gt') and len(a) == 2 and positive_const(a[1]):
            x = magnitude(a[0]) or a[0]
            try:
                if num.A.same(num.s(x), b):
                    return not v
            except Unknown:
                pass
    return None


# ---------------------------------------------------------------- the local problem
PSI = ('psi',)


def lanczos_rule(ctx, F):
    n = 0
    fns = F.q('quantit::details::one_step_lanczos')
    ctx.need(len(fns) >= 2, 'one_step_lanczos')
    for fn in fns:
        R = Run(F, fn, (), NT)
        ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
        p = [('sym', x['n']) for x in fn.params]
        rs = [o for o in R.outs if o[1] == 'return']
        ob('returns', bool(rs), 'never returns')
        ob('never throws', not R.throws(), 'throws')
        for s, _, v in rs:
            D = decisions(R, s.facts)
            if D is None:
                continue
            n += 1
            x = R.val(s, v)
            if x[0] != 'tuple' or len(x[1]) != 4:
                ob('returns the vector and three numbers', False, 'returns %s' % fmt(x, 3)[:200])
                continue
            phi, a0, a1, b = x[1]
            num = Num(lambda t: ('v', {PSI: Alg.const(1)}, False) if t == p[0] else None, H=tuple(p[1:]))
            A = num.A
            try:
                psi = num(p[0])
                Hpsi = ('v', {('H', PSI): A.const(1)}, False)
                bar = lambda w: ('v', w[1], not w[2])
                e = num.inner(Hpsi, bar(psi))
                ob('a0 is <state|H|state>', A.same(num.s(a0), e), 'is %s' % fmt(a0, 4)[:200])
                r = num.lin(None, Hpsi, ('v', {PSI: e}, False), -1)
                nb = A.sqrt(num.inner(r, bar(r)))
                ob('b is the norm of H|state> - a0|state>', A.same(num.s(b), nb), 'is %s' % fmt(b, 4)[:200])
                sm = small(num, D, nb)
                ob('b is compared with a threshold', sm is not None, 'it is never looked at')
                want = r if sm else ('v', {k: A.div(q, nb) for k, q in r[1].items()}, False)
                ob('the new vector is H|state> - a0|state>' + (', left alone when negligible' if sm else ' over b'), num.same(num(phi), want), 'is %s' % fmt(phi, 4)[:200])
                f = num.v(phi)
                Hf = ('v', {('H', k): q for k, q in f[1].items()}, False)
                ob('a1 is <new|H|new>', A.same(num.s(a1), num.inner(Hf, bar(f))), 'is %s' % fmt(a1, 4)[:200])
            except Unknown as u:
                ob('the numbers of the local problem', False, str(u))
    return n


def eig_rule(ctx, F):
    """the smaller eigenvalue of ((a0, b*), (b, a1)) and its unit eigenvector"""
    n = 0
    fns = F.q('quantit::details::eig2x2Mat')
    ctx.need(len(fns) >= 2, 'eig2x2Mat')
    for fn in fns:
        R = Run(F, fn, (), NT)
        ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
        p = [('sym', x['n']) for x in fn.params]
        real = lambda y: y in p[:2]
        full = 0

        def setup():
            num = Num(lambda t: ('s', Alg.atom(t)) if t in p else None, real)
            A = num.A
            a0, a1, b = (A.atom(t) for t in p)
            bc = A.conj(b, real)
            d = A.add(a0, a1, -1)
            S = A.sqrt(A.add(A.mul(d, d), A.mul(A.const(4), A.mul(b, bc))))
            E = A.div(A.add(A.add(a0, a1), S, -1), A.const(2))
            return num, A, a0, a1, b, bc, S, E
        for s, k, v in R.outs:
            D = decisions(R, s.facts)
            if D is None:
                continue
            num, A, a0, a1, b, bc, S, E = setup()
            n += 1
            nans = {a[0]: t for m, a, t in D if m == 'isnan'}
            if k == 'throw':
                ok = any(t for t in nans.values()) or any(m == 'isnan' and t for m, a, t in D)
                ob('only results that are not numbers are refused', ok, 'refuses otherwise')
                continue
            x = R.val(s, v)
            if x[0] != 'tuple' or len(x[1]) != 3:
                ob('returns the energy and two coefficients', False, 'returns %s' % fmt(x, 3)[:200])
                continue
            try:
                e, o, c = (num.s(y) for y in x[1])
                ob('the smaller eigenvalue', A.same(e, E), 'is %s' % fmt(x[1][0], 6)[:200])
                deg = nearly_zero(num, A, D, E, S, a1)
                if A.zero(o) or A.zero(c):
                    ok = A.zero(o) and A.same(c, A.const(1)) and True in (deg['small'], deg['nan']) or A.zero(c) and A.same(o, A.const(1)) and deg['nan'] is True
                    ob('one coefficient only where the other is negligible', ok, 'coefficients %s and %s' % (fmt(x[1][1], 3)[:80], fmt(x[1][2], 3)[:80]))
                    continue
                full += 1
                ob('an eigenvector of that energy', A.zero(A.add(A.mul(b, o), A.mul(A.add(a1, E, -1), c))) and A.zero(A.add(A.mul(A.add(a0, E, -1), o), A.mul(bc, c))), 'is (%s, %s)' % (fmt(x[1][1], 5)[:120], fmt(x[1][2], 5)[:120]))
                one = A.add(A.mul(o, A.conj(o, real)), A.mul(c, A.conj(c, real)))
                ob('of norm one', A.same(one, A.const(1)), 'is (%s, %s)' % (fmt(x[1][1], 5)[:120], fmt(x[1][2], 5)[:120]))
                ob('only used where it is a number', deg['small'] is False and deg['nan'] is False, 'used where the first coefficient may be zero or no number')
            except Unknown as u:
                ob('the formulas', False, str(u))
        ob('returns an eigenvector', full > 0, 'never does')
    return n


def nearly_zero(num, A, D, E, S, a1):
    """whether the path found the first coefficient negligible ('small'), or no number ('nan')"""
    o2 = A.div(A.add(a1, E, -1), S)
    r = {'small': None, 'nan': None}

    def is_o(t):
        try:
            return A.same(A.mul(num.s(t), num.s(t)), o2)
        except Unknown:
            return False
    for m, a, t in D:
        if m == 'isnan' and is_o(strip_item(a[0])):
            r['nan'] = t if r['nan'] is None else r['nan'] and t
        if m == 'eq':
            try:
                d = A.add(num.s(a[0]), num.s(a[1]), -1)
                if A.same(A.mul(d, d), o2):
                    r['small'] = t
            except Unknown:
                pass
        if m in ('gt', 'ge') and positive_const(a[1]) and is_o(magnitude(a[0]) or a[0]):
            r['small'] = not t
    return r


def strip_item(t):
    while True:
        o = opcall(t)
        if o and o[0] in TRUTH and o[1]:
            t = o[1][0]
        else:
            return t


def pair_rule(ctx, F):
    """the new state and its energy"""
    n = 0
    fns = F.q('quantit::two_sites_update')
    ctx.need(len(fns) >= 2, 'two_sites_update')
    for fn in fns:
        R = Run(F, fn, (), NT)
        ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
        p = [('sym', x['n']) for x in fn.params]
        part = {}

        def known(t):
            if t == p[0]:
                return ('v', {PSI: Alg.const(1)}, False)
            if t[0] == 'get' and t[2][0] == 'f' and t[2][1] in ('get0', 'get1', 'get2', 'get3'):
                o, k = opcall(t[1]), int(t[2][1][-1])
                if o and o[0] == 'one_step_lanczos' and o[1] == tuple(p):
                    return ('v', {('new',): Alg.const(1)}, False) if k == 0 else ('s', Alg.atom(('a0', 'a1', 'b')[k - 1:k]))
                if o and o[0] == 'eig2x2Mat' and k < 3 and [opt(num, y) for y in o[1]] == ['a0', 'a1', 'b']:
                    return ('s', Alg.atom(('E', 'o', 'n')[k:k + 1]))
            return None

        def opt(num, y):
            try:
                x = num.s(y)
            except Unknown:
                return None
            return next((k for k in ('a0', 'a1', 'b') if num.A.same(x, Alg.atom((k,)))), None)
        ob('never throws', not R.throws(), 'throws')
        rs = [o for o in R.outs if o[1] == 'return']
        for s, _, v in rs:
            D = decisions(R, s.facts)
            if D is None:
                continue
            n += 1
            num = Num(known)
            A = num.A
            x = R.val(s, v)
            if x[0] != 'tuple' or len(x[1]) != 2:
                ob('returns the energy and the state', False, 'returns %s' % fmt(x, 3)[:200])
                continue
            try:
                e, f = num.s(x[1][0]), num.v(x[1][1])
                sm = small(num, D, A.atom(('b',)))
                if sm:
                    ok = A.same(e, A.atom(('a0',))) and num.same(f, num(p[0]))
                    ob('a state the Hamiltonian leaves in place is kept, with its energy', ok, 'returns %s' % fmt(x, 5)[:200])
                    continue
                ob('told apart from a state the Hamiltonian leaves in place', sm is False, 'combines the state with a vector that may be zero')
                ob('the smaller eigenvalue of the local problem', A.same(e, A.atom(('E',))), 'is %s' % fmt(x[1][0], 5)[:200])
                ob('the state of that energy', num.same(f, ('v', {PSI: A.atom(('o',)), ('new',): A.atom(('n',))}, False)), 'is %s' % fmt(x[1][1], 5)[:200])
            except Unknown as u:
                ob('the new state', False, str(u))
        ob('returns', bool(rs), 'never returns')
    return n


# ---------------------------------------------------------------- the path of the sweeps
class ND(NT):
    def want_inline(self, fn, st, node, args):
        if 'dmrg_2sites_update::' in fn.q or fn.q.endswith('::sweep'):
            return False
        return super().want_inline(fn, st, node, args)


    centers = ()

    def on_call(self, s, e, f, ol, args):
        if ol is None and UPD in f and len(args) == 5:
            self.centers = self.centers + (args[2],)
        return super().on_call(s, e, f, ol, args)


UPD = 'dmrg_2sites_update'


def seen_through(t):
    """constructors that only keep references change nothing; exchanging two values"""
    while True:
        if t[0] == 'mut' and (UPD in t[1] and not t[1].endswith('operator()') or 'gradient_guard' in t[1]) and isinstance(t[2], int):
            t = t[3][t[2]]
        elif t[0] == 'mut' and t[1].split('::')[-1] == 'swap' and t[2] in (0, 1) and len(t[3]) == 2:
            t = t[3][1 - t[2]]
        else:
            return t


def deep(t):
    """seen_through everywhere"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'mut' and len(t) > 3 and isinstance(t[1], str):
        u = seen_through(t)
        if u is not t:
            return deep(u)
    if t[0] == 'aff':
        r = ('c', t[1])
        for x, k in t[2]:
            r = add(r, deep(x), k)
        return r
    if t[0] in ('begin', 'L', 'c', 'iter', 'phi'):
        return t
    return tuple(deep(x) if isinstance(x, tuple) else x for x in t)


def center_of(t):
    """the declared center of a chain"""
    t = seen_through(t)
    if t[0] == 'upd':
        w = dict(t[2])
        if ('f', 'orthogonality_center') in w:
            return deep(w['f', 'orthogonality_center'])
        if all(k[0] == 'f' for k in w):
            return center_of(t[1])
    return ('get', deep(t), ('f', 'orthogonality_center'))


def one_center(t):
    """the number inside the stored center goes by one name"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'get' and len(t) > 2 and t[2] == ('f', 'value') and t[1][0] == 'get' and t[1][2] == ('f', 'orthogonality_center'):
        return one_center(t[1])
    if t[0] == 'get' and len(t) > 2 and t[2] == ('f', 'orthogonality_center') and t[1][0] == 'upd':
        return one_center(center_of(t[1]))
    if t[0] == 'aff':
        r = ('c', t[1])
        for x, k in t[2]:
            r = add(r, one_center(x), k)
        return r
    if t[0] in ('begin', 'L', 'c', 'iter', 'phi'):
        return t
    return tuple(one_center(x) if isinstance(x, tuple) else x for x in t)


def clean(t):
    return one_center(deep(t))


def facts_of(R, facts):
    return {(k, clean(R.N(d))): v for (k, d), v in facts.items()}


def sweep_rule(ctx, F):
    n = 0
    fns = F.q('quantit::sweep')
    ctx.need(len(fns) >= 2, 'sweep')
    for fn in fns:
        R = Run(F, fn, (), ND)
        ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
        state, upd, step, cnt, right, left = (('sym', x['n']) for x in fn.params)
        loops = R.I.loops
        ob('one loop', len(loops) == 1, 'has %d' % len(loops))
        if len(loops) != 1:
            continue
        rec = loops[0]
        it = ('iter', rec['site'])
        ob('makes the requested number of updates', R.trips.get(it) == {cnt}, 'makes %s' % [fmt(t, 4) for t in R.trips.get(it, ())])
        init = {p: R.N(t) for p, t in rec['init'].items()}
        ps, pt = ([p for p, t in init.items() if t == x] for x in (state, step))
        ob('starts from the given state and step', len(ps) == 1 and len(pt) == 1, 'starts from %s' % [fmt(t, 3) for t in init.values()])
        if len(ps) != 1 or len(pt) != 1:
            continue
        ps, pt = ps[0], pt[0]
        energy = set()
        for e in rec['ends']:
            n += 1
            L = facts_of(R, e[1])
            new = {p: R.N(t) for p, t in e[2].items()}
            calls = {y for t in new.values() for y in subterms(t) if len(y) > 2 and y[0] == 'call' and UPD in y[1] and y[1].endswith('operator()')}
            ob('one update at each step', len(calls) == 1, 'makes %d' % len(calls))
            if len(calls) != 1:
                continue
            u = calls.pop()
            ob('the update is made in the direction of the step', u[2][-2:] == (ps, pt), 'updates %s' % [fmt(t, 3) for t in u[2]])
            st = new.get(ps, ps)
            ob('goes on with the updated state', st[0] == 'mut' and UPD in st[1] and st[3][-2:] == (ps, pt), 'goes on with %s' % fmt(st, 4)[:200])
            energy |= {p for p, t in new.items() if t == u}
            c = ('get', st, ('f', 'orthogonality_center'))
            c = clean(c)
            at = [L.get(('eq0', z)) if ('eq0', z) in L else L.get(('eq0', sub(ZERO, z))) for z in (sub(c, left), sub(c, right))]
            s2 = new.get(pt, pt)
            if True in at:
                ob('turns round at either edge', s2 == sub(ZERO, pt), 'goes on with step %s' % fmt(s2, 4))
            else:
                ob('looks for both edges', at == [False, False], 'does not')
                ob('goes on in the same direction otherwise', s2 == pt, 'goes on with step %s' % fmt(s2, 4))
        rs = R.rets()
        ob('returns', bool(rs), 'never returns')
        for s, x, L in rs:
            ok = x[0] == 'tuple' and len(x[1]) == 2 and x[1][0] in energy and x[1][1] == pt
            ob('returns the energy of the last update and the next step', ok, 'returns %s' % fmt(x, 4)[:200])
        ob('never throws', not R.throws(), 'throws')
    return n


def nonzero(L, x, N):
    """the path knows that position x, of a chain of N > 2 sites, is not the first"""
    for z in (x, sub(ZERO, x)):
        if L.get(('eq0', z)) is False:
            return True
    if known_lt(L, ZERO, x) is True:
        return True
    return sub(x, sub(N, ('c', 2))) == ZERO


def placed(L, oc, N):
    """what a path knows of the positions, used"""
    on = lambda z: L.get(('eq0', z), L.get(('eq0', sub(ZERO, z)))) is True
    todo = [(oc, sub(N, ONE))] if on(sub(sub(N, oc), ONE)) else [(oc, ZERO)] if on(oc) else []
    if on(sub(N, ('c', 2))):
        todo.append((N, ('c', 2)))

    def go(x):
        for a, b in todo:
            x = clean(subst(x, a, b))
        return x
    return go


def tiny_norm(k, d, v):
    """the path found a number to be zero, or less than a tiny threshold"""
    if k == 'eq0':
        return v
    if k == 'lt0' and v and d[0] == 'aff':
        c = [x for x, a in d[2] if x[0] == 'fl' and a < 0]
        return len(d[2]) == 2 and len(c) == 1 and 0 < float(c[0][1]) <= 1e-10 and d[1] <= 0
    return False


def impossible(L, N):
    """a path that no chain of two sites or more takes"""
    for (k, d), v in L.items():
        if d[0] == 'c' and isinstance(d[1], int) and ((d[1] == 0) if k == 'eq0' else (d[1] < 0)) != v:
            return True
        if k == 'eq0' and v and d in (sub(N, ONE), sub(ONE, N), N):
            return True
    return False


def impl_rule(ctx, F):
    n = 0
    fns = F.q('quantit::details::dmrg_impl')
    ctx.need(len(fns) >= 2, 'dmrg_impl')
    for fn in fns:
        R = Run(F, fn, (), ND)
        ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
        H, H2, state, opts, env, log = (('sym', x['n']) for x in fn.params)
        S = chain(state[1])
        N, n2 = size(S), size(chain(H2[1]))
        oc = ('get', state, ('f', 'orthogonality_center'))
        # one tensor for each bond, and as many sites in the operator as in the state
        same_len = lambda t: clean(subst(t, n2, sub(N, ONE)))
        starts = {}         # state during a loop -> where it started
        sweeps = set()
        for rec in R.I.loops:
            init = {p: R.N(t) for p, t in rec['init'].items()}
            for e in rec['ends']:
                new = {p: R.N(t) for p, t in e[2].items()}
                calls = {y for t in new.values() for y in subterms(t) if len(y) > 2 and y[0] == 'call' and y[1] == 'quantit::sweep'}
                if not calls:
                    continue
                n += 1
                ob('one sweep per iteration', len(calls) == 1, 'makes %d' % len(calls))
                c = min(calls, key=repr)
                sweeps.add(c)
                ps, u, pt, cnt, right, left = c[2]
                if ps not in init:
                    ob('sweeps the state', False, 'sweeps %s' % fmt(ps, 4)[:100])
                    continue
                L = {(k, same_len(d)): v for (k, d), v in facts_of(R, e[1]).items()}
                L = {(k, d): v for (k, d), v in L.items() if d[0] != 'c'}
                t0 = seen_through(init[ps])
                ob('sweeps the given state', (t0[1] if t0[0] == 'upd' else t0) in (state,) or t0[0] == 'upd' and seen_through(t0[1]) == state, 'sweeps %s' % fmt(t0, 3)[:200])
                p0 = same_len(clean(center_of(init[ps])))
                starts[ps] = p0
                here = placed(L, oc, N)
                if impossible({(k, here(d)): v for (k, d), v in L.items()}, N):
                    continue        # no chain of less than two sites
                last = L.get(('eq0', sub(sub(N, oc), ONE)))
                last = last if last is not None else L.get(('eq0', sub(sub(oc, N), MINUS)))
                d = sub(oc, p0)
                ob('starts with a pair that holds the center', d == ZERO and last is False or d == ONE and last is True, 'starts at %s' % fmt(p0, 4))
                p0 = here(p0)
                more = {(k, here(d)): v for (k, d), v in L.items()}
                s0 = init.get(pt, pt)
                two = L.get(('eq0', sub(N, ('c', 2)))) if ('eq0', sub(N, ('c', 2))) in L else L.get(('eq0', sub(('c', 2), N)))
                ob('tells a chain of two sites apart', two is not None, 'does not')
                if two:
                    ob('stays on the only pair', s0 == ZERO, 'starts with step %s' % fmt(s0, 4))
                else:
                    if s0 == MINUS:
                        ok = nonzero(more, p0, N)
                    else:
                        ok = s0 == ONE and (p0 == ZERO or more.get(('eq0', p0)) is True or more.get(('eq0', sub(ZERO, p0))) is True)
                    ob('starts towards a pair of the chain', ok, 'starts at %s with step %s' % (fmt(p0, 4), fmt(s0, 4)))
                    ob('goes to both ends and back', same_len(cnt) == sub(sub(add(N, N), ('c', 4)), ZERO), 'makes %s updates' % fmt(cnt, 4))
                    cs = lambda t: clean(subst(t, size(('get', ps, ('f', 'tensors'))), N))
                    ob('between the first pair and the last', cs(left) == ZERO and cs(same_len(right)) == sub(N, ('c', 2)), 'turns at %s and %s' % (fmt(left, 4), fmt(right, 4)))
                ok = u[0] == 'ctor' and UPD in u[1] and u[2][:2] == (H, H2) and u[2][3:] == (env, opts)
                ob('updates with the operator, the environments and the options given', ok, 'updates with %s' % fmt(u, 4)[:200])
                st = new.get(ps, ps)
                ob('goes on with the swept state', st[0] == 'mut' and st[1] == 'quantit::sweep' and st[3] == c[2], 'goes on with %s' % fmt(st, 3)[:200])
                ob('goes on in the direction it came to', new.get(pt, pt) == ('get', c, ('f', 'get1')), 'goes on with %s' % fmt(new.get(pt, pt), 3)[:100])
                ob('no more iterations than allowed', known_lt(facts_of(R, e[1]), ('iter', rec['site']), ('get', opts, ('f', 'maximum_iterations'))) is True or eq_lit(facts_of(R, e[1]), ('iter', rec['site']), ('get', opts, ('f', 'maximum_iterations'))) is False, 'is not limited')
                D = decisions(R, e[1])
                if D is not None:
                    old = [p for p, t in new.items() if seen_through(t) == ('get', c, ('f', 'get0'))]
                    ob('goes on only while the energy changes', converged(D, old, c, opts) is False, 'the change of energy is not compared with the criterion')
        ob('sweeps', bool(sweeps), 'never does')
        for kind, loc in R.I.centers:
            ob('the update moves the center of the state', kind == 'l' and loc[0] == ('o', state[1]) and loc[1][:1] == (('f', 'orthogonality_center'),), 'moves %s' % (loc,))
        ob('the update is made of the state', bool(R.I.centers), 'is made elsewhere')
        # what comes out
        rs = 0
        for s, k, v in R.outs:
            f = facts_of(R, s.facts)
            t = R.N(s.env.get(('o', state[1]), state))
            inner = sorted((y for y in subterms(t) if len(y) > 2 and (y in starts or y[0] == 'mut' and y[1] == 'quantit::sweep')), key=lambda y: -len(repr(y)))
            p0 = None
            back = lambda x: x
            if inner:
                q = inner[0]
                p = q if q in starts else q[3][0]
                p0 = starts.get(p)
                if p0 is None:
                    ob('known start', False, 'unknown')
                    continue
                back = lambda x, q=q, p0=p0: clean(subst(subst(clean(x), ('get', clean(q), ('f', 'orthogonality_center')), p0), size(clean(('get', q, ('f', 'tensors')))), N))
            here = placed(f, oc, N)
            know = lambda x: here(same_len(back(x)))
            p0 = None if p0 is None else here(p0)
            if impossible({(kk, know(d)): w for (kk, d), w in f.items()}, N) or decisions(R, s.facts) is None:
                continue        # a sweep ends where it began
            if k == 'throw':
                nrm = [d for (kk, d) in f if any(opcall(y) and opcall(y)[0] == 'contract' and opcall(y)[1][:2] == (state, state) for y in subterms(d) if len(y) > 2)]
                ob('only a state of norm zero is refused', not inner and bool(nrm) and t == state and any(tiny_norm(kk, d, w) for (kk, d), w in f.items()), 'refuses otherwise')
                continue
            rs += 1
            n += 1
            if p0 is None:
                ob('returns what the sweeps made', False, 'returns without')
                continue
            t = seen_through(t)
            if t[0] == 'mut' and t[1].split('::')[-1] == 'move_oc':
                x, to = t[3]
                c, to = know(center_of(x)), know(to)
                ob('moves the center from a site known to hold it or its right neighbour', sub(c, p0) == ONE, 'is taken to be at %s after sweeps from %s' % (fmt(c, 4), fmt(p0, 4)))
                ob('ends on the site it started from', to == p0, 'ends on %s after sweeps from %s' % (fmt(to, 4), fmt(p0, 4)))
            else:
                ob('the declared center is the actual one', False, 'the last update left it on either of two sites, %s is declared' % fmt(know(center_of(t)), 4)[:200])
            x = seen_through(R.val(s, v))
            ok = x[0] == 'get' and x[2] == ('f', 'get0') and x[1] in sweeps
            if ok:
                D = decisions(R, s.facts)
                old = [y for rec in R.I.loops for y in rec['init'] if rec['site'] == inner[0][3][0][1]] if inner[0][0] == 'mut' else []
                ob('stops early only when the energy settled', D is not None and converged(D, old, x[1], opts) is True, 'stops otherwise')
            for rec in R.I.loops:
                if x in rec['init']:
                    ends = {seen_through(R.N(e[2].get(x, x))) for e in rec['ends']}
                    ok = all(y[0] == 'get' and y[2] == ('f', 'get0') and y[1] in sweeps for y in ends)
            ob('returns the energy of the last sweep', ok, 'returns %s' % fmt(x, 4)[:200])
        ob('returns', rs > 0, 'never returns')
    return n


MINUS = ('c', -1)


def converged(D, old, sweep, opts):
    """whether the path found |change of energy| above the criterion (False), or not (True)"""
    for m, a, t in D:
        if m not in ('gt', 'ge') or len(a) != 2 or a[1] != ('get', opts, ('f', 'convergence_criterion')):
            continue
        x = magnitude(a[0])
        if x is None:
            continue
        num = Num(lambda y: ('s', Alg.atom(('new',))) if seen_through(y) == ('get', sweep, ('f', 'get0')) else ('s', Alg.atom(('old',))) if seen_through(y) in old else None)
        A = num.A
        try:
            v = num.s(x)
        except Unknown:
            continue
        nw, ol = A.atom(('new',)), A.atom(('old',))
        d = A.add(nw, ol, -1)
        if any(A.same(A.mul(v, v), A.mul(w, w)) for w in (d, A.div(d, nw), A.div(d, ol))):
            return not t
    return None


def entry_rule(ctx, F):
    """dmrg: the parts are made from the arguments and from nothing else"""
    n = 0
    fns = F.q('quantit::dmrg')
    ctx.need(len(fns) >= 4, 'dmrg')
    for fn in fns:
        R = Run(F, fn, (), ND)
        ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
        p = [('sym', x['n']) for x in fn.params]
        rs = R.rets()
        ob('returns', bool(rs), 'never returns')
        for s, x, L in rs:
            n += 1
            if x[0] != 'tuple' and opcall(x):
                for i in (0, 2):
                    y = opcall(x)[1][i:i + 1]
                    ok = y and any(z[0] == 'mut' and 'gradient_guard' in z[1] and '~' not in z[1] for z in subterms(y[0]) if len(z) > 3)
                    ob('traces %s as the options ask' % ('the operator', '', 'the state')[i], bool(ok), 'runs on %s' % (fmt(y[0], 3)[:200] if y else 'nothing'))
            x = deep(x)
            if x[0] == 'tuple':
                E, st = x[1]
                oE = opcall(E)
                ok = oE and oE[0] == 'dmrg' and len(oE[1]) == 4 and oE[1][0] == p[0] and oE[1][2:] == (p[-2], p[-1])
                ob('runs on the given operator with the given options', bool(ok), 'returns %s' % fmt(E, 3)[:200])
                ob('returns the state of that run', ok and st[0] == 'mut' and st[1] == E[1] and st[2] == 1 and st[3] == oE[1], 'returns %s' % fmt(st, 3)[:200])
                if ok:
                    r = opcall(oE[1][1])
                    want = (('get', p[-2], ('f', 'minimum_bond')),) + tuple(p[:-2])
                    ob('starts from a random state compatible with the operator', r and r[0].startswith('random_') and r[1][:len(want)] == want, 'starts from %s' % fmt(oE[1][1], 4)[:200])
            else:
                o = opcall(x)
                want = (p[0], ('compute_2sitesHamil', (p[0],)), p[1], p[2], ('generate_env', (p[0], p[1])), p[3])
                got = o and o[0] == 'dmrg_impl' and tuple((opcall(y) if opcall(y) and i in (1, 4) else y) for i, y in enumerate(o[1]))
                ob('runs with the parts made from the arguments', got == want, 'returns %s' % fmt(x, 4)[:300])
    return n


def parts_rule(ctx, F):
    """the objects that hold references to the arguments of a run"""
    n = 0
    fns = F.q('quantit::dmrg_2sites_update::dmrg_2sites_update')
    ctx.need(len(fns) >= 2, 'dmrg_2sites_update')
    for fn in fns:
        n += 1
        R = Run(F, fn, (), NT)
        o = R.outs[0][0].env.get(('o', 'this')) if len(R.outs) == 1 else None
        w = dict(R.N(o)[2]) if o is not None and R.N(o)[0] == 'upd' else {}
        for f, x in zip(('hamil', 'twosite_hamil', 'oc', 'Env', 'options'), fn.params):
            ctx.ob('%s: %s is the one given' % (fn.sig(), f), w.get(('f', f)) == ('sym', x['n']), W(fn), 'is %s' % fmt(w.get(('f', f), ZERO), 4)[:200])
    fns = F.q('quantit::dmrg_gradient_guard::dmrg_gradient_guard')
    outs = F.q('quantit::dmrg_gradient_guard::~dmrg_gradient_guard')
    ctx.need(len(fns) >= 2 and len(outs) >= 2, 'dmrg_gradient_guard')
    saved = set()
    for fn in fns:
        n += 1
        R = Run(F, fn, (), NT)
        ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
        for s, k, v in R.outs:
            o = R.N(s.env.get(('o', 'this'), ZERO))
            w = dict(o[2]) if o[0] == 'upd' else {}
            for x, tr in zip(fn.params[:2], ('hamil_gradient', 'state_gradient')):
                p = ('sym', x['n'])
                first = ('at', chain(x['n']), ZERO)
                keep = {f for f, t in w.items() if t in (('get', first, ('f', '_options')), ('op', 'options', (first,)))}
                hold = {f for f, t in w.items() if t == p or t[0] == 'mut' and t[1].endswith('to_') and t[3][0] == p}
                ob('keeps %s and its options' % x['n'], len(keep) == 1 and len(hold) == 1, 'keeps %s' % fmt(o, 4)[:300])
                saved |= {(h, k) for h in hold for k in keep}
                sets = [t for f, t in w.items() if f in hold and t[0] == 'mut']
                ok = all(opcall(t[3][1]) == ('requires_grad', (('ctor', 'c10::TensorOptions', ()), ('get', ('sym', fn.params[2]['n']), ('f', tr)))) for t in sets)
                ob('traces %s when the options ask for it' % x['n'], ok and len(sets) == 1, 'sets %s' % [fmt(t, 5)[:200] for t in sets])
    for fn in outs:
        n += 1
        R = Run(F, fn, (), NT)
        this = ('sym', 'this')
        for s, k, v in R.outs:
            o = R.N(s.env.get(('o', 'this'), this))
            w = dict(o[2]) if o[0] == 'upd' else {}
            for h, kp in saved:
                t = w.get(h, ZERO)
                ok = t[0] == 'mut' and t[1].endswith('to_') and t[3][0] == ('get', this, h) and t[3][1] == ('get', this, kp)
                ctx.ob('%s: %s gets its options back' % (fn.sig(), h[1]), ok, W(fn), 'gets %s' % fmt(t, 4)[:200])
    return n


def a16(ctx):
    F = load(['dmrg.cpp', 'MPT.cpp'], True)
    ctx.meta = {'local problems': lanczos_rule(ctx, F), 'eigenvectors': eig_rule(ctx, F), 'pair updates': pair_rule(ctx, F), 'sweeps': sweep_rule(ctx, F), 'runs': impl_rule(ctx, F), 'entries': entry_rule(ctx, F), 'parts': parts_rule(ctx, F)}
