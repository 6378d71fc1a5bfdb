"""A01-A03: conserved quantities."""
from lib import *

NS = 'quantit::conserved::'


def _mod(F, cls):
    m = cls[len(NS + 'C<'):-1]
    return int(m)


def reduce_mod(t, N):
    """normal form of t modulo N: coefficients reduced, `x % N` replaced by x"""
    c, m = aff(t)
    out = ('c', 0)
    for a, k in m.items():
        if a[0] == 'bin' and a[1] == '%' and is_c(a[3]) and isinstance(a[3][1], int) and a[3][1] % N == 0 and a[3][1]:
            out = add(out, mul(('c', k), reduce_mod(a[2], N)))
        else:
            out = add(out, mul(('c', k), a))
    c2, m2 = aff(out)
    return mkaff((c + c2) % N, {a: k % N for a, k in m2.items()})


def a01(ctx):
    F = load(['groups.cpp', 'any_quantity.cpp'], True)
    mods = sorted({cls_of(f) for f in F.q(NS + 'C::op') if f.cls})
    ctx.need(len(mods) >= 9, 'only %d instantiations of the cyclic group' % len(mods))
    for cls in mods + [NS + 'Z']:
        group(ctx, F, cls)
    ctx.assumption('Z results are assumed to fit its 16-bit storage (documented limit of the class)')
    ctx.meta['cyclic_orders_analysed'] = [_mod(F, c) for c in mods]


def group(ctx, F, cls):
    cyc = cls != NS + 'Z'
    N = _mod(F, cls) if cyc else None
    fl = fields(F, cls)
    ctx.need(len(fl) == 1, '%s has %d data members, one expected' % (cls, len(fl)))
    key = ('f', fl[0])
    base = NS + ('C' if cyc else 'Z')
    short = cls.split('::')[-1]
    T = ('get', ('sym', 'this'), key)

    def mine(name):
        return [f for f in F.q(base + '::' + name) if cls_of(f) == cls]

    def free(name, n=2):
        return [f for f in F.q(NS + name) if len(f.params) == n and all(f.ty(p['t']).replace('const ', '').replace(' &', '') == cls for p in f.params)]

    def run(f, extra=None, bounded=False):
        """-> interpreter, outcomes, parameter component terms"""
        ps = [('get', a, key) for a in symargs(f)]
        b = {}
        b = {x: (0, N - 1) if cyc else (-32768, 32767) for x in [T] + ps} if cyc or bounded else {}
        I = Num(F, b)
        if f.kind == 'ctor' and f.params:
            I.bounds[symargs(f)[0]] = (-32768, 32767)
        outs = I.analyse(f, args=extra or {})
        return I, outs, ps

    def check(f, what, expected, getter, extra=None, store=True):
        I, outs, ps = run(f, extra)
        exp = expected(ps)
        ok, why = True, ''
        if not outs:
            ok, why = False, 'no path returns'
        for s, kind, v in outs:
            if kind != 'return':
                ok, why = False, 'throws'
                break
            r = getter(I, s, v, f)
            if cyc:
                good = reduce_mod(r, N) == reduce_mod(exp, N)
                if not good:
                    # equality facts of the path may identify atoms with constants
                    sub_ = r
                    d = reduce_mod(sub(r, exp), N)
                    for (k, x), val in s.facts.items():
                        if k == 'eq0' and val:
                            for m in range(-2, 3):
                                if reduce_mod(add(d, x, m), N) == ZERO:
                                    good = True
                if not good:
                    ok, why = False, 'a path stores %s, which is not congruent to %s modulo %d' % (fmt(r), fmt(exp), N)
                    break
                lo, hi = I.interval(s, r)
                if lo is None or hi is None or lo < 0 or hi >= N:
                    ok, why = False, 'a path leaves a value in [%s, %s], outside the canonical range [0, %d]: %s when %s' % (
                        lo, hi, N - 1, fmt(r), ' and '.join(('' if val else 'not ') + a[0] + '(' + fmt(a[1]) + ')' for a, val in s.facts.items()) or 'always')
                    break
            elif r != exp:
                ok, why = False, 'a path stores %s instead of %s' % (fmt(r), fmt(exp))
                break
        if ok and store and cyc and I.narrow:
            l, ty, lo, hi = I.narrow[0]
            ok, why = False, 'line %s stores a value in [%s, %s] into %s' % (l, lo, hi, ty)
        ctx.ob('%s:%s %s' % (what, short, f.name), ok, f.loc, why, key='%s %s/%d' % (base, f.name, len(f.params)))

    in_this = lambda I, s, v, f: proj(s.env[('o', 'this')], key)
    in_ret = lambda I, s, v, f: proj(value(I, s, v), key)
    n = 0
    for f in mine('op'):
        if len(f.params) == 1:
            check(f, 'product', lambda ps: add(T, ps[0]), in_this)
        else:
            check(f, 'product when condition holds', lambda ps: add(T, ps[0]), in_this, {1: ONE})
            check(f, 'no-op when condition is false', lambda ps: T, in_this, {1: ZERO})
        n += 1
    for nm in ('operator+=', 'operator*='):
        for f in mine(nm):
            check(f, 'product', lambda ps: add(T, ps[0]), in_this)
            check(f, 'product returned', lambda ps: add(T, ps[0]), in_ret)
            n += 1
    for nm in ('operator+', 'operator*', 'op'):
        for f in free(nm):
            check(f, 'product returned', lambda ps: add(ps[0], ps[1]), in_ret)
            n += 1
    for f in mine('inverse_'):
        check(f, 'inverse', lambda ps: sub(ZERO, T), in_this)
        check(f, 'inverse returned', lambda ps: sub(ZERO, T), in_ret)
        n += 1
    for f in mine('inverse'):
        check(f, 'inverse returned', lambda ps: sub(ZERO, T), in_ret)
        check(f, 'operand unchanged', lambda ps: T, in_this)
        n += 1
    for f in mine(base.split('::')[-1]):
        if f.kind != 'ctor':
            continue
        if len(f.params) == 0:
            check(f, 'neutral element', lambda ps: ZERO, in_this)
        elif len(f.params) == 1 and 'conserved' not in f.ty(f.params[0]['t']):
            check(f, 'value reduced', lambda ps: symargs(f)[0], in_this)
        n += 1
    for nm in ('get_val', 'operator unsigned short', 'operator short'):
        for f in mine(nm):
            check(f, 'value read', lambda ps: T, lambda I, s, v, f: value(I, s, v))
            n += 1
    for nm, op in (('operator==', '=='), ('operator!=', '!='), ('operator<', '<'), ('operator>', '>')):
        for f in mine(nm):
            compare(ctx, F, f, op, T, ('get', symargs(f)[0], key), short, base, run)
            n += 1
    for f in mine('swap') + free('swap'):
        I, outs, ps = run(f)
        ok = bool(outs)
        for s, kind, v in outs:
            if f.kind == 'method':
                a, b = proj(s.env[('o', 'this')], key), proj(param_val(s, f, 0), key)
                ok &= a == ps[0] and b == T
            else:
                a, b = proj(param_val(s, f, 0), key), proj(param_val(s, f, 1), key)
                ok &= a == ps[1] and b == ps[0]
        ctx.ob('exchange:%s %s' % (short, f.name), ok, f.loc, 'swap does not exchange the two values', key='%s swap' % base)
        n += 1
    for f in mine('distance2') + free('distance2'):
        I, outs, ps = run(f, None, True)
        d = sub(T, ps[0]) if f.kind == 'method' else sub(ps[0], ps[1])
        nd = sub(ZERO, d)
        ok = bool(outs) and all(value(I, s, v) in (mul(d, d), mul(nd, nd)) for s, k, v in outs)
        ctx.ob('squared difference:%s %s' % (short, f.name), ok, f.loc,
               'distance2 returns %s' % [fmt(value(I, s, v)) for s, k, v in outs], key='%s distance2' % base)
        ctx.ob('squared difference without overflow:%s %s' % (short, f.name), not I.narrow, f.loc,
               ''.join('line %s puts a value in [%s, %s] into %s' % (l, lo, hi, ty) for l, ty, lo, hi in I.narrow[:1]), key='%s distance2 range' % base)
        n += 1
    ctx.need(n >= 17, '%s: only %d operations found' % (short, n))


def compare(ctx, F, f, op, a, b, short, base, run):
    I, outs, ps = run(f)
    ok, why = bool(outs), 'no path returns'
    for s, kind, v in outs:
        r = value(I, s, v)
        lit = {'==': ('eq0', sub(a, b)), '!=': ('eq0', sub(a, b)), '<': ('lt0', sub(a, b)), '>': ('lt0', sub(b, a))}[op]
        d = I.decide(s, lit)
        if d is None and lit[0] == 'eq0':
            d = I.decide(s, ('eq0', sub(b, a)))
        if op == '!=' and d is not None:
            d = not d
        if not is_c(r) or d is None or bool(r[1]) != d:
            ok, why = False, 'returns %s on a path where the comparison is %s' % (fmt(r), d)
            break
    ctx.ob('comparison:%s %s' % (short, f.name), ok, f.loc, why, key='%s %s' % (base, f.name))


# ---------------------------------------------------------------- A02
STAR = ('f', '*')


def uptr(g):
    return ('upd', ('uptr',), ((STAR, g),))


class GroupModel(Num):
    """elements of a (component) group are opaque terms; the group law is + on the affine normal form.
    The component classes' own operations are summarised by the law that A01 establishes for them."""
    assign_hook = True

    def decide(self, st, atom):
        d = atom[1]
        if atom[0] == 'eq0' and d[0] == 'aff' and d[1] == 0 and len(d[2]) == 1:
            d = d[2][0][0]
        if atom[0] == 'eq0' and d[0] == 'dyn':
            return False                # both sides have the same type here; A03 is about the others
        return super().decide(st, atom)

    def on_call(self, s, e, f, ol, args):
        n = f.split('::')[-1]
        cls = '::'.join(f.split('::')[:-1])
        if cls in (NS + 'C', NS + 'Z', 'quantit::vquantity') and ol is not None:
            virt = cls == 'quantit::vquantity'
            v = self.read(s, ol)
            a = [self.argval(s, x) for x in args]
            if n in ('op', 'operator*=', 'operator+='):
                if len(a) == 2 and not is_c(a[1]):
                    return None
                if len(a) == 1 or a[1] != ZERO:
                    self.write(s, ol, add(v, a[0]), e)
                return [(s, ('LOC', ol))]
            if n in ('inverse_', 'inv_'):
                self.write(s, ol, sub(ZERO, v), e)
                return [(s, ('LOC', ol))]
            if n == 'inverse' and not virt:
                return [(s, sub(ZERO, v))]
            if n == 'swap':
                o = args[0][1]
                self.write(s, ol, a[0], e)
                self.write(s, o, v, e)
                if virt:
                    s.event('sametype', e['l'])
                return [(s, ('void',))]
            if n == 'operator=':
                if virt:
                    s.event('sametype', e['l'])
                self.write(s, ol, a[0], e)
                return [(s, ('LOC', ol))]
            if n == 'op_to':
                self.write(s, args[0][1], add(v, a[0]), e)
                return [(s, ('void',))]
            if n == 'clone':
                return [(s, uptr(v))]
            if n == 'make_neutral':
                return [(s, uptr(ZERO))]
            if n == 'get_val':
                return [(s, v)]
            cmp_ = {'operator==': '==', 'operator!=': '!=', 'operator<': '<', 'operator>': '>', 'is_equal': '==',
                    'is_different': '!=', 'is_lesser': '<', 'is_greater': '>'}
            if n in cmp_:
                t, fl = self.compare(s, cmp_[n], v, a[0])
                return [(x, ONE) for x in t] + [(x, ZERO) for x in fl]
            if n == 'distance2':
                return [(s, ('call', 'distance2', tuple(sorted((v, a[0]), key=repr))))]
            return None
        if cls == NS[:-2] and n in ('op', 'operator+', 'operator*') and len(args) == 2:
            return [(s, add(self.argval(s, args[0]), self.argval(s, args[1])))]
        if cls == NS[:-2] and n == 'distance2' and len(args) == 2:
            return [(s, ('call', 'distance2', tuple(sorted((self.argval(s, args[0]), self.argval(s, args[1])), key=repr))))]
        if cls == NS[:-2] and n == 'swap' and len(args) == 2:
            a, b = self.argval(s, args[0]), self.argval(s, args[1])
            self.write(s, args[0][1], b, e)
            self.write(s, args[1][1], a, e)
            return [(s, ('void',))]
        if f in ('std::make_unique', 'std::make_shared'):
            vals = [self.argval(s, x) for x in args]
            T = (e.get('ta') or '').split(';')[0]
            if len(vals) == 1 and e['a'] and self.types(e['a'][0]['t']).replace('const ', '').replace(' &', '') == T:
                return [(s, uptr(vals[0]))]
            return [(s, uptr(('ctor', T, tuple(vals))))]
        return None

    def size(self, s, loc):
        return super().size(s, loc)


def tuple_comps(F, cls):
    """number of component groups of quantity<...>"""
    d, n = 0, 1
    for ch in cls[len('quantit::quantity<'):-1]:
        d += ch == '<'
        d -= ch == '>'
        if ch == ',' and d == 0:
            n += 1
    return n


def a02(ctx):
    F = load(['groups.cpp', 'any_quantity.cpp'], True)
    classes = sorted({cls_of(f) for f in F.q('quantit::quantity::op')})
    ctx.need(len(classes) >= 14, 'only %d composite types' % len(classes))
    for c in classes:
        composite(ctx, F, c)
    erased(ctx, F)
    ctx.meta['composite_types'] = classes


def composite(ctx, F, cls):
    fl = fields(F, cls)
    ctx.need(len(fl) == 1, '%s: one data member expected' % cls)
    k = tuple_comps(F, cls)
    Q = 'quantit::quantity::'
    short = cls.replace('quantit::', '').replace('conserved::', '')

    def comps(t):
        v = proj(t, ('f', fl[0]))
        return [proj(v, ('f', 'get%d' % i)) for i in range(k)]
    TH = comps(('sym', 'this'))

    def run(f, extra=None):
        I = GroupModel(F)
        return I, I.analyse(f, args=extra or {})

    def mine(n):
        return [f for f in F.q(Q + n) if cls_of(f) == cls]

    def law(f, what, want_this=None, want_arg=None, want_ret=None, extra=None):
        ctx.need(f is not None, what)
        I, outs = run(f, extra)
        ok, why = bool(outs), 'no path returns'
        A = [comps(a) for a in symargs(f)]
        for s, kind, v in outs:
            if kind != 'return':
                ok, why = False, 'a path throws'
                break
            for nm, want, got in (('*this', want_this, lambda: comps(s.env[('o', 'this')])),
                                  ('the argument', want_arg, lambda: comps(param_val(s, f, 0))),
                                  ('the result', want_ret, lambda: comps(value(I, s, v)))):
                if want is None:
                    continue
                g = got()
                w = want(A)
                for i in range(k):
                    if g[i] != w[i]:
                        ok, why = False, 'component %d of %s becomes %s instead of %s' % (i, nm, fmt(g[i]), fmt(w[i]))
        ctx.ob('%s:%s::%s' % (what, short, f.name), ok, f.loc, why, key='quantity::%s %s' % (f.name, what))

    prod = lambda A: [add(TH[i], A[0][i]) for i in range(k)]
    same = lambda A: TH
    arg = lambda A: A[0]
    inv = lambda A: [sub(ZERO, x) for x in TH]
    n0 = len(ctx.obligations)
    for f in mine('op'):
        if len(f.params) == 1:
            law(f, 'component-wise product', prod, arg)
        else:
            law(f, 'product if condition', prod, arg, extra={1: ONE})
            law(f, 'unchanged if not condition', same, arg, extra={1: ZERO})
    for nm in ('operator*=', 'operator+='):
        for f in mine(nm):
            law(f, 'component-wise product', prod, arg, prod)
    for nm in ('operator*', 'operator+'):
        for f in mine(nm):
            law(f, 'product returned', same, arg if f.params[0]['pk'] == 'cref' else None, prod)
    for f in mine('op_to'):
        law(f, 'product into argument', same, prod)
    for f in mine('inverse_'):
        law(f, 'component-wise inverse', inv)
    for f in mine('operator='):
        if f.j.get('defaulted'):
            continue
        law(f, 'copy assignment', arg, arg)
    for f in mine('swap'):
        law(f, 'exchange', arg, same)
    for nm, op in (('operator==', '=='), ('is_equal', '=='), ('operator!=', '!='), ('is_different', '!='),
                   ('operator<', '<'), ('is_lesser', '<'), ('operator>', '>'), ('is_greater', '>')):
        for f in mine(nm):
            lex(ctx, F, f, op, fl[0], k, short, run, comps)
    for f in mine('distance2') + mine('distance'):
        I, outs = run(f)
        want = ZERO
        A = comps(symargs(f)[0])
        for i in range(k):
            want = add(want, ('call', 'distance2', tuple(sorted((TH[i], A[i]), key=repr))))
        got = [value(I, s, v) for s, kd, v in outs]
        if f.name == 'distance':
            ok = bool(got) and all(g[0] == 'call' and g[1] in ('std::sqrt', 'sqrt') and g[2] == (want,) for g in got)
        else:
            ok = bool(got) and all(g == want for g in got)
        ctx.ob('euclidean distance:%s::%s' % (short, f.name), ok, f.loc, 'returns %s' % [fmt(g) for g in got], key='quantity::' + f.name)
    for f in mine('clone'):
        I, outs = run(f)
        ok = bool(outs) and all(comps(proj(value(I, s, v), STAR)) == TH and comps(s.env[('o', 'this')]) == TH for s, kd, v in outs)
        ctx.ob('copy:%s::clone' % short, ok, f.loc, 'clone does not return a copy of the value', key='quantity::clone')
    for f in mine('make_neutral'):
        I, outs = run(f)
        ok = bool(outs) and all(proj(value(I, s, v), STAR) == ('ctor', cls, ()) for s, kd, v in outs)
        ctx.ob('neutral:%s::make_neutral' % short, ok, f.loc, 'make_neutral does not return a default-constructed %s' % short, key='quantity::make_neutral')
    ctx.need(len(ctx.obligations) - n0 >= 24, '%s: only %d obligations' % (cls, len(ctx.obligations) - n0))


def lex(ctx, F, f, op, field, k, short, run, comps):
    """the returned truth value is the tuple comparison of the components"""
    I, outs = run(f)
    X, Y = ('sym', 'this'), symargs(f)[0]
    tx, ty = proj(X, ('f', field)), proj(Y, ('f', field))
    cx, cy = comps(X), comps(Y)

    def rel(s, kind, a, b):
        d = I.decide(s, (kind, sub(a, b)))
        if d is None and kind == 'eq0':
            d = I.decide(s, (kind, sub(b, a)))
        return d

    def eq(s):
        d = rel(s, 'eq0', tx, ty)
        if d is None:
            r = [rel(s, 'eq0', a, b) for a, b in zip(cx, cy)]
            d = True if all(x is True for x in r) else False if any(x is False for x in r) else None
        return d

    def lt(s, cx, cy, tx, ty):
        d = rel(s, 'lt0', tx, ty)
        if d is None and rel(s, 'eq0', tx, ty) is True:
            d = False
        if d is None and rel(s, 'lt0', ty, tx) is True:
            d = False
        if d is None:
            for a, b in zip(cx, cy):
                l, g, e = rel(s, 'lt0', a, b), rel(s, 'lt0', b, a), rel(s, 'eq0', a, b)
                if l is True:
                    return True
                if g is True:
                    return False
                if e is True or (l is False and g is False):
                    continue
                return None
            return False
        return d
    ok, why = bool(outs), 'no path returns'
    for s, kd, v in outs:
        r = value(I, s, v)
        if op in ('==', '!='):
            d = eq(s)
            if op == '!=' and d is not None:
                d = not d
        elif op == '<':
            d = lt(s, cx, cy, tx, ty)
        else:
            d = lt(s, cy, cx, ty, tx)
        if not is_c(r) or d is None or bool(r[1]) != d:
            ok, why = False, 'returns %s on a path where the components compare %s' % (fmt(r), d)
    ctx.ob('comparison:%s::%s' % (short, f.name), ok, f.loc, why, key='quantity::' + f.name)


IMPL = None


def erased(ctx, F):
    """any_quantity and the operators on it, over the abstract group"""
    AQ = 'quantit::any_quantity'
    fl = fields(F, AQ)
    ctx.need(len(fl) == 1, 'any_quantity: one data member expected')
    impl = ('f', fl[0])

    def elem(F, f, i, t):
        """group element held by parameter i's value t"""
        ty = f.ty(f.params[i]['t'])
        if 'vquantity' in ty:
            return t
        return proj(proj(t, impl), STAR)
    TH = proj(proj(('sym', 'this'), impl), STAR)

    def run(f, extra=None):
        I = GroupModel(F)
        outs = I.analyse(f, args=extra or {})
        # paths on which an operand holds nothing (moved-from) are outside the law
        keep = [o for o in outs if not any(a[0] == 'eq0' and v and any(x[:2] == ('call', 'nonnull') for x in subterms(a) if isinstance(x, tuple)) for a, v in o[0].facts.items())]
        return I, keep

    def getret(I, s, v, f):
        t = value(I, s, v)
        return t if 'vquantity' in f.ret else proj(proj(t, impl), STAR)

    def law(f, what, this=None, args=None, ret=None, extra=None, anytype=False):
        I, outs = run(f, extra)
        A = [elem(F, f, i, a) for i, a in enumerate(symargs(f))]
        ok, why = bool(outs), 'no path returns'
        for s, kind, v in outs:
            if kind != 'return':
                ok, why = False, 'a path throws'
                break
            for nm, want, got in [('*this', this, lambda: proj(proj(s.env[('o', 'this')], impl), STAR)),
                                  ('the result', ret, lambda: getret(I, s, v, f))] + \
                    [('operand %d' % (i + 1), (lambda A, i=i: args(A)[i]) if args else None, lambda i=i: elem(F, f, i, param_val(s, f, i))) for i in range(len(A))]:
                if want is None:
                    continue
                w = want(A)
                if w is None:
                    continue
                g = got()
                if g != w:
                    ok, why = False, '%s becomes %s instead of %s' % (nm, fmt(g), fmt(w))
            if anytype and any(e[0] == 'sametype' for e in s.events()):
                ok, why = False, 'assigns through the polymorphic interface, which throws std::bad_cast when the concrete types differ'
        ctx.ob('%s:any_quantity %s' % (what, f.sig().split('quantit::')[-1] if False else f.name), ok, f.loc, why,
               key='any_quantity %s(%s) %s' % (f.name, ','.join(p['pk'] + ('v' if 'vquantity' in f.ty(p['t']) else 'a') for p in f.params), what))

    def mine(n):
        return [f for f in F.q(AQ + '::' + n)]

    def lv_unchanged(f):
        """lvalue operands keep their value"""
        return lambda A: [A[i] if f.params[i]['pk'] in ('cref', 'val') else None for i in range(len(A))]
    prod2 = lambda A: add(A[0], A[1])
    n0 = len(ctx.obligations)
    for nm in ('operator*', 'operator+'):
        fs = [f for f in F.q('quantit::' + nm) if len(f.params) == 2 and all('vquantity' in f.ty(p['t']) or 'any_quantity' in f.ty(p['t']) for p in f.params)]
        ctx.need(len(fs) >= 4, 'only %d overloads of %s on any_quantity' % (len(fs), nm))
        for f in fs:
            law(f, 'product', None, lv_unchanged(f), prod2)
    for nm in ('operator*=', 'operator+='):
        for f in mine(nm):
            law(f, 'product', lambda A: add(TH, A[0]), lambda A: [A[0]], lambda A: add(TH, A[0]))
    for f in mine('op'):
        law(f, 'product if condition', lambda A: add(TH, A[0]), lambda A: [A[0], None], None, {1: ONE})
        law(f, 'unchanged if not condition', lambda A: TH, lambda A: [A[0], None], None, {1: ZERO})
    for f in mine('inverse_'):
        law(f, 'inverse', lambda A: sub(ZERO, TH), None, lambda A: sub(ZERO, TH))
    for f in mine('inverse'):
        law(f, 'inverse', (lambda A: TH) if f.const else None, None, lambda A: sub(ZERO, TH))
    for f in F.q('quantit::vquantity::inverse') + F.q('quantit::vquantity::inv'):
        I, outs = run(f)
        ok = bool(outs) and all(proj(proj(value(I, s, v), impl), STAR) == sub(ZERO, ('sym', 'this')) and s.env[('o', 'this')] == ('sym', 'this') for s, k, v in outs)
        ctx.ob('inverse:vquantity::' + f.name, ok, f.loc, 'does not return the inverse or modifies its operand', key='vquantity::' + f.name)
    for f in F.q('quantit::vquantity::neutral') + mine('neutral'):
        I, outs = run(f)
        ok = bool(outs) and all(proj(proj(value(I, s, v), impl), STAR) == ZERO and s.env[('o', 'this')] == ('sym', 'this') for s, k, v in outs)
        ctx.ob('neutral:' + f.name, ok, f.loc, 'does not return the neutral element', key='neutral ' + f.q)
    for f in mine('operator='):
        if f.j.get('defaulted'):
            continue
        law(f, 'assignment', lambda A: A[0], lv_unchanged(f), None, anytype=True)
    for f in mine('any_quantity'):
        if f.kind == 'ctor' and len(f.params) == 1 and not f.j.get('defaulted') and ('vquantity &' in f.ty(f.params[0]['t']) or 'any_quantity &' in f.ty(f.params[0]['t'])):
            law(f, 'copy construction', lambda A: A[0], lv_unchanged(f), None)
    for f in mine('swap') + [f for f in F.q('quantit::swap') if len(f.params) == 2 and all('any_quantity &' in f.ty(p['t']) or 'vquantity &' in f.ty(p['t']) for p in f.params)]:
        if f.kind == 'method':
            law(f, 'exchange', lambda A: A[0], lambda A: [TH], None)
        else:
            law(f, 'exchange', None, lambda A: [A[1], A[0]], None)
    for nm, op in (('operator==', 'eq0'), ('operator!=', 'eq0'), ('operator<', 'lt0'), ('operator>', 'lt0')):
        for f in F.q('quantit::' + nm):
            if not (len(f.params) == 2 and all(f.ty(p['t']) == 'const quantit::vquantity &' for p in f.params)):
                continue
            I, outs = run(f)
            a, b = symargs(f)
            lit = (op, sub(b, a) if nm == 'operator>' else sub(a, b))
            ok = bool(outs)
            for s, k, v in outs:
                d = I.decide(s, lit)
                if d is None and op == 'eq0':
                    d = I.decide(s, (op, sub(b, a)))
                r = value(I, s, v)
                if nm == 'operator!=' and d is not None:
                    d = not d
                ok &= is_c(r) and d is not None and bool(r[1]) == d
            ctx.ob('comparison:vquantity ' + nm, ok, f.loc, 'does not return the polymorphic comparison', key='vquantity ' + nm)
    ctx.need(len(ctx.obligations) - n0 >= 28, 'only %d obligations on any_quantity' % (len(ctx.obligations) - n0))


# ---------------------------------------------------------------- A03
class CastModel(Num):
    def on_write(self, s, loc, v, node):
        if loc[0][0] == 'o':
            s.event('w', loc[0], node.get('l') if node else 0)

    def want_inline(self, fn, s, e, args):
        return fn.q.startswith('quantit::quantity::') or fn.q.startswith('quantit::quantity_vector::') or 'cgroup_iterator' in fn.q


def a03(ctx):
    F = load(['groups.cpp', 'any_quantity.cpp', 'btensor.cpp'], True)
    classes = sorted({cls_of(f) for f in F.q('quantit::quantity::op')} | {cls_of(f) for f in F.q('quantit::quantity_vector::push_back')})
    nv = [c for c in classes if c.startswith('quantit::quantity_vector')]
    ctx.need(len(classes) >= 18 and nv, 'only %d concrete classes' % len(classes))
    for cls in classes:
        q = cls.split('<')[0]
        for f in F.all():
            if cls_of(f) != cls or not f.q.startswith(q + '::') or f.kind != 'method':
                continue
            for i, p in enumerate(f.params):
                ty = f.ty(p['t']).replace('const ', '')
                if ty in ('quantit::vquantity &', 'quantit::vquantity_vector &'):
                    checked(ctx, F, f, cls, i)
                elif 'cgroup_iterator' in ty:
                    tagged(ctx, F, f, cls, i)
    # no unchecked downcast anywhere in the library
    n = 0
    for f in F.all():
        if f.cls and f.cls.endswith('ptr_aritmetic_t'):
            continue
        guarded = 'to_S_iterator' in f.q
        for node in walk(f.j):
            if node.get('k') == 'cast' and node.get('ck') in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr'):
                src = f.ty(node['a'][0].get('t', -1)).replace('const ', '')
                dst = f.ty(node['to']).replace('const ', '')
                if src.rstrip(' *&') in ('quantit::vquantity', 'quantit::vquantity_vector') and ('quantit::quantity<' in dst or 'quantit::quantity_vector<' in dst):
                    n += 1
                    ok = guarded
                    if guarded:
                        ok = all(any(a[0] == 'eq0' and v and contains(a, ('f', 'ar')) for a, v in s.facts.items())
                                 for s, k, _ in CastModel(F).analyse(f) if k == 'return')
                    ctx.ob('downcast:%s' % f.q.split('quantit::')[-1], ok, '%s:%s' % (f.loc.split(':')[0], node.get('l')),
                           'unchecked downcast of a type-erased quantity', key='downcast ' + f.q)
    ctx.need(n >= 2, 'the iterator conversion downcasts were not found (positive example of the rule)')


def self_param(cls):
    return cls + ' &'


def checked(ctx, F, f, cls, i):
    I = CastModel(F)
    root = ('o', f.params[i]['n'] or '#%d' % i)
    outs = I.analyse(f)
    ok, why = bool(outs), 'no path'
    short = cls.replace('quantit::', '').replace('conserved::', '')
    full = cls
    if 'vquantity_vector' not in f.ty(f.params[i]['t']) and cls.startswith('quantit::quantity_vector<'):
        full, d = '', 0
        for ch in cls[len('quantit::quantity_vector<'):]:
            d += ch == '<'
            d -= ch == '>'
            if ch == ',' and d == 0:
                break
            full += ch
    for s, kind, v in outs:
        if kind != 'return':
            continue
        ref = ('ref', (root, ()))
        known = None
        for a, val in s.facts.items():
            if a[0] == 'eq0' and any(x[0] == 'dyn' and x[2] == ref and full in x[1] for x in subterms(a) if isinstance(x, tuple) and len(x) == 3):
                known = not val
        if f.name == 'same_type':
            r = value(I, s, v)
            if known is None and any(e[0] == 'dyn' for e in s.events()):
                known = True
            if not is_c(r) or known is None or bool(r[1]) != known:
                ok, why = False, 'the answer is not the outcome of the type test'
            continue
        seen = known is True
        for e in s.events():
            if e[0] == 'dyn' and e[2] == (root, ()) and full in e[1]:
                seen = True
            if e[0] == 'w' and not seen:
                ok, why = False, 'line %s writes before the concrete type of the argument is established' % e[2]
        if not seen:
            ok, why = False, 'a path returns without a throwing type check of the argument'
    ctx.ob('type check:%s::%s' % (short, f.name), ok, f.loc, why, key='%s::%s type check' % (cls.split('<')[0], f.name))


def tagged(ctx, F, f, cls, i):
    I = CastModel(F)
    outs = I.analyse(f)
    ok, why = bool(outs), 'no path'
    for s, kind, v in outs:
        if kind != 'return':
            continue
        p = symargs(f)[i]
        ok1 = any(a[0] == 'eq0' and val and contains(a, p) and contains(a, ('f', 'ar')) for a, val in s.facts.items())
        if not ok1:
            ok, why = False, 'a path returns without comparing the tag of iterator argument %d with this container type' % (i + 1)
    ctx.ob('iterator tag:%s::%s/%d' % (cls.replace('quantit::', '').replace('conserved::', ''), f.name, len(f.params)), ok, f.loc, why,
           key='%s::%s iterator tag' % (cls.split('<')[0], f.name))
