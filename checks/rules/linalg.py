"""A17 sector-wise decompositions, A18 truncation of decompositions"""
from rules.networks import *
from rules.layout import *
from rules.contraction import *
from rules.dmrg import decisions, TRUTH

LAQ = 'quantit::'
READS = ('c10::optional', 'c10::SymInt', 'at::indexing::', 'quantit::lower_bound', 'quantit::epsilon', 'quantit::compute_last_index', 'c10::ArrayRef', 'std::array')


class LA(NT):
    """decompositions: comparing tensors gives a tensor; wrappers of numbers keep their argument; applying a function to a
    tuple applies it to each component"""

    def arg_readonly(self, e, name, i, kind):
        return name.startswith(READS) or super().arg_readonly(e, name, i, kind)

    def call(self, st, e, want_loc):
        op = e.get('op')
        if op in ('==', '!=', '<', '>', '<=', '>=') and 'at::Tensor' in self.types(e['t']):
            xs = ([e['obj']] if 'obj' in e else []) + e['a']
            res = []
            for s, v in self.evs(st, xs):
                t = ('op', {'==': 'eq', '!=': 'ne', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge'}[op], tuple(v))
                res.append((s, self.tmp(s, t) if want_loc else t))
            return res
        return super().call(st, e, want_loc)

    def on_call(self, s, e, f, ol, args):
        if ol is None and f in ('std::remove_if', 'std::accumulate'):
            r = self.on_algo(s, e, f, args)
            if r is not None:
                return r
        if f == 'quantit::for_each' and len(args) == 2 and args[0][0] == 'l':
            tl = args[0][1]
            fv = self.argval(s, args[1])
            n = self.components(s, e, tl)
            if n is not None:
                states = [s]
                for k in range(n):
                    nxt = []
                    for s2 in states:
                        nxt += [s3 for s3, _ in self.call_value(s2, fv, [('l', (tl[0], tl[1] + (('f', 'get%d' % k),)))], e)]
                    states = nxt
                return [(x, ('void',)) for x in states]
        return super().on_call(s, e, f, ol, args)

    def components(self, s, e, tl):
        t = self.types(e['a'][0]['t'])
        i = t.find('tuple<')
        if i < 0:
            return None
        d, n = 0, 1
        for c in t[i + 6:]:
            if c == '<':
                d += 1
            elif c == '>':
                d -= 1
                if d < 0:
                    return n
            elif c == ',' and d == 0:
                n += 1
        return None

    def want_inline(self, fn, st, node, args):
        if fn.q in (LAQ + 'truncate_impl', LAQ + 'lower_bound_impl2', LAQ + 'compute_last_index'):
            return False
        if fn.q in (LAQ + 'truncate', LAQ + 'svd', LAQ + 'eigh') and len(fn.params) > 2 and 'BOOL' not in fn.sig():
            return True
        return super().want_inline(fn, st, node, args)

    def on_algo(self, s, e, f, args):
        if f == 'std::remove_if' and len(args) == 3:
            v = [self.argval(s, a) for a in args]
            o = self.origin(v[0])
            if o is None or v[0] != self.begin(s, o) or v[1] != add(v[0], self.size(s, o)):
                return None
            st = s.copy()
            x = (('p', 'filtered'), ())
            st.env[x[0]] = X
            outs = []
            for s2, val in self.call_value(st, v[2], [('l', x)], e):
                new = tuple((k, t) for k, t in s2.facts.items() if k not in s.facts)
                if any(s2.env.get(k) != t for k, t in st.env.items() if k[0] in ('o', 'p')):
                    return None
                outs.append((new, val))
            self.write(s, o, ('filter', self.read(s, o), tuple(outs)), e)
            return [(s, add(self.begin(s, o), self.size(s, o)))]
        if f == 'std::accumulate' and len(args) in (3, 4):
            v = [self.argval(s, a) for a in args]
            if any(x[0] == 'unknown' for x in v):
                return None
            acc = self.tmp(s, v[2])

            def step(st, its):
                el = ('l', self.ptrloc(st, its[0], e))
                a = self.read(st, acc)
                if len(v) == 3:
                    outs = [(st, add(a, self.read(st, el[1])))]
                else:
                    outs = self.call_value(st, v[3], [('l', self.tmp(st, a)), el], e)
                for s2, val in outs:
                    self.write(s2, acc, val, e)
                return [s2 for s2, _ in outs]
            return [(s2, self.read(s2, acc)) for s2, _ in self.algo_loop(s, e.get('l'), [v[0]], v[1], step, e)]
        return None

    def map_call(self, s, e, n, ol, args):
        v = tuple(self.argval(s, a) for a in args)
        sz = self.size(s, ol)
        if n == 'resize' and len(v) == 1 and v[0] == sz or n == 'erase' and len(v) == 2 and v[0] == v[1]:
            return [(s, ('void',))]
        return super().map_call(s, e, n, ol, args)


X = ('sym', '#block')
ELL = ('sym', ('g', 'at::indexing::Ellipsis'))
NOTHING = (('sym', ('g', 'at::indexing::None')), ('sym', ('g', 'c10::nullopt')), ('sym', ('g', 'std::nullopt')))


def indices(t):
    return [x[2][0] if x[0] == 'ctor' and x[1].endswith('TensorIndex') and len(x[2]) == 1 else x for x in t[1]]


def slice_of(t):
    """(first, end) of a slice with step 1; None stands for the natural end"""
    if t[0] != 'ctor' or not t[1].endswith('Slice'):
        return None
    a = [None if x in NOTHING or x[0] == 'ctor' and x[1].endswith('optional') and not x[2] else x for x in t[2]] + [None] * 3
    if a[2] not in (None, ONE):
        return None
    return (a[0] if a[0] is not None else ZERO), a[1]


def cut(t):
    """(tensor, how many of the first entries are kept, along which dimension) of a slice, or None"""
    o = opcall(t)
    if not o:
        return None
    n, a = o
    if n == 'index' and len(a) == 2 and a[1][0] == 'list':
        xs = indices(a[1])
        sl = slice_of(xs[-1]) if xs else None
        if sl and sl[0] == ZERO and sl[1] is not None:
            if len(xs) == 1:
                return a[0], sl[1], 0
            if len(xs) == 2 and xs[0] == ELL:
                return a[0], sl[1], -1
    if n == 'narrow' and len(a) == 4 and a[2] == ZERO and is_c(a[1]):
        return a[0], a[3], a[1][1]
    if n == 'slice' and len(a) in (4, 5) and a[2] == ZERO and is_c(a[1]) and a[4:] in ((), (ONE,)):
        return a[0], a[3], a[1][1]
    return None


def entry_at(t):
    """(tensor, i) of the i-th entry along the last dimension"""
    o = opcall(t)
    if not o:
        return None
    n, a = o
    if n == 'index' and len(a) == 2 and a[1][0] == 'list':
        xs = indices(a[1])
        if len(xs) == 2 and xs[0] == ELL and slice_of(xs[1]) is None:
            return a[0], xs[1]
    if n == 'select' and len(a) == 3 and a[1] == ('c', -1):
        return a[0], a[2]
    return None


NUMW = ('to', 'toDouble', 'toFloat', 'item', 'toLong', 'toBool', 'toInt', 'is_nonzero')


def number(t):
    """a number without its wrappings"""
    while True:
        o = opcall(t)
        if o and o[0].split('::')[-1] in NUMW and o[1]:
            t = o[1][0]
        elif t[0] == 'ctor' and len(t[2]) == 1 and t[1].split('::')[-1] in ('Scalar', 'optional'):
            t = t[2][0]
        elif o and o[0] == 'mul' and len(o[1]) == 2 and unit(o[1][0]):
            t = o[1][1]
        elif o and o[0] == 'mul' and len(o[1]) == 2 and unit(o[1][1]):
            t = o[1][0]
        elif o and o[0] in ('full', 'scalar_tensor', 'tensor') and o[1]:
            t = o[1][1 if o[0] == 'full' else 0]
        else:
            return t


def unit(t):
    o = opcall(t)
    return bool(o and o[0] == 'ones')


def power(t):
    """(base, exponent)"""
    o = opcall(number(t))
    return (number(o[1][0]), number(o[1][1])) if o and o[0].split('::')[-1] == 'pow' and len(o[1]) == 2 else None


def last_extent(N, d):
    S = ('op', 'sizes', (d,))
    return [N(x) for x in (('at', S, sub(('call', 'size', (S,)), ONE)), ('op', 'size', (d, ('c', -1))), ('at', S, sub(('op', 'dim', (d,)), ONE)))]


def summands(t):
    o = opcall(t)
    if o and o[0] == 'add' and len(o[1]) == 2:
        return summands(o[1][0]) + summands(o[1][1])
    if o and o[0] in ('zeros', 'zeros_like'):
        return []
    return [t]


def replaced(t, m):
    if not isinstance(t, tuple) or not t:
        return t
    if t in m:
        return m[t]
    if t[0] == 'aff':
        r = ('c', t[1])
        for x, k in t[2]:
            r = add(r, replaced(x, m), k)
        return r
    if t[0] in ('begin', 'L', 'c'):
        return t
    return tuple(replaced(x, m) if isinstance(x, tuple) else x for x in t)


def last_index_rule(ctx, F):
    n = 0
    for fn in F.q(LAQ + 'compute_last_index'):
        R = Run(F, fn, (), LA)
        w = W(fn)
        ob = lambda name, ok, why='': ctx.ob('compute_last_index: ' + name, ok, w, why)
        n += 1
        ps = [p['n'] for p in fn.params]
        d, tol, pw, mn, mx = (('sym', x) for x in ps)
        loops = [r for r in R.I.loops]
        if not ob('one loop over the values, from the last one', len(loops) == 1, 'found %d loops' % len(loops)):
            continue
        rec = loops[0]
        it = ('iter', rec['site'])
        N = R.N
        rets = [N(strip_copies(value(R.I, s, v))) for s, k, v in R.outs if k == 'return']
        ext = last_extent(N, N(d))
        ok = bool(rets) and all(any(r == sub(sub(x, ONE), it) for x in ext) for r in rets)
        ob('what is returned counts down by one from the last index', ok, 'returns %s' % [fmt(r, 6) for r in rets])
        if not ok:
            continue
        m = next(x for x in ext if rets[0] == sub(sub(x, ONE), it))
        last = rets[0]

        def facts(fs):
            L = {(k, N(x)): v for (k, x), v in fs.items()}
            f = {'pos': known_lt(L, ZERO, last), 'max': known_lt(L, last, mx)}
            b = known_lt(L, last, mn)
            f['min'] = None if b is None else not b
            f['big'], cmp = None, None
            for (k, x), v in L.items():
                if k != 'eq0':
                    continue
                v = not v
                y = x
                while True:
                    if y[0] in ('un', 'not', 'lnot'):
                        y, v = y[-1], not v
                        continue
                    o = opcall(y)
                    if o and o[0].split('::')[-1] in NUMW and o[1]:
                        y = o[1][0]
                    else:
                        break
                if o and o[0] in ('any', 'all') and len(o[1]) == 1:
                    c = opcall(o[1][0])
                    if c and c[0] in ('gt', 'le', 'lt', 'ge') and len(c[1]) == 2:
                        g, (a, b) = c[0], c[1]
                        if g in ('lt', 'ge'):      # a < b is b > a
                            g, a, b = {'lt': 'gt', 'ge': 'le'}[g], b, a
                        if (g, o[0]) == ('gt', 'any'):
                            f['big'], cmp = v, (a, b)
                        elif (g, o[0]) == ('le', 'all'):
                            f['big'], cmp = not v, (a, b)
                        else:
                            f['big'], cmp = 'other', (a, b)
            return f, cmp
        cmps = set()
        bad = []
        for e in rec['ends']:
            f, c = facts(e[1])
            cmps |= {c} - {None}
            if not (f['pos'] is True and f['min'] is True and (f['big'] is False or f['max'] is False)):
                bad.append('one more value is discarded with %s' % f)
        ob('a value is discarded only when more than one is left, more than the minimum are left, and the error allows it or more than the maximum are left', bool(rec['ends']) and not bad, '; '.join(bad[:2]))
        bad = []
        for s, k, v in R.outs:
            if k != 'return':
                continue
            f, c = facts(s.facts)
            cmps |= {c} - {None}
            if not (f['pos'] is False or f['min'] is False or f['big'] is True and f['max'] is True):
                bad.append('stops with %s' % f)
        ob('it stops only at the minimum, or when the error would be too large and at most the maximum are left', not bad, '; '.join(bad[:2]))
        if not ob('one comparison with the tolerance', len(cmps) == 1, 'found %d: %s' % (len(cmps), [fmt(c, 5) for c in cmps])):
            continue
        a, b = cmps.pop()
        ob('the error is compared with the tolerance to the given power', power(b) == (tol, pw), 'compared with %s' % fmt(b, 6))
        # the compared error is the sum over the discarded values and the next one
        phis = {p: R.I.phirec[p] for p in R.I.phirec if R.I.phirec[p] is rec}
        up = {}
        for p in phis:
            vs = {N(e[2].get(p, p)) for e in rec['ends']}
            if len(vs) == 1:
                up[p] = vs.pop()
        first = replaced(a, {**{p: N(rec['init'].get(p, p)) for p in phis}, it: ZERO})
        nxt = replaced(replaced(a, {it: add(it, ONE)}), up)

        def term(x):
            p = power(x)
            if p is None or p[1] != pw:
                return None
            o = opcall(p[0])
            e = entry_at(o[1][0]) if o and o[0] in ('abs', 'absolute') and len(o[1]) == 1 else None
            return e[1] if e and e[0] == d else None
        s0 = [term(x) for x in summands(N(first))]
        ob('the error starts with the last value', s0 == [sub(m, ONE)], 'it starts with %s' % fmt(first, 7))
        sa, sn = summands(N(a)), summands(N(nxt))
        for x in sa:
            if x in sn:
                sn.remove(x)
            else:
                sn.append(x)
        sn = [y for x in sn for y in summands(x)]
        ob('every further step adds the absolute value of the next smaller one to the given power', [term(x) for x in sn] == [sub(last, ONE)], 'it adds %s' % [fmt(x, 7) for x in sn])
    return n


def is_limit(t):
    return t[0] == 'call' and 'numeric_limits' in t[1] and t[1].endswith('::max') or t == ('c', 2 ** 64 - 1)


def knobs(fn, torch, entry):
    """(tolerance, power, minimum, maximum) as handed over by the caller, by the position of the parameters"""
    P = fn.params
    ty = [t for t in fn.ptypes()]
    sc = [p['n'] for p, t in zip(P, ty) if 'Scalar' in t]
    sz = [p['n'] for p, t in zip(P, ty) if t.strip() in ('unsigned long', 'size_t', 'std::size_t', 'int', 'const unsigned long')]
    if fn.q.split('::')[-1] != 'truncate':
        sz = sz[1:]                       # the split
    if len(sc) != 2 or len(sz) not in (0, 2):
        return None
    s = lambda x: ('sym', x)
    if not sz:
        return s(sc[0]), s(sc[1]), ONE, None
    lo, hi = sz if torch or fn.q.split('::')[-1] != 'truncate' else sz[::-1]
    return s(sc[0]), s(sc[1]), s(lo), s(hi)


def same_knobs(t, kn):
    """arguments (tol, pow, min, max) against what was asked for"""
    return all(a == b if b is not None else is_limit(a) for a, b in zip([number(x) for x in t], kn))


def sources(fn, name):
    """the decomposed pieces a truncation starts from: terms in the order they are given"""
    ty = fn.ptypes()
    P = fn.params
    if name == 'truncate':
        if 'tuple' in ty[0]:
            n = ty[0].count('at::Tensor') + ty[0].count('btensor')
            return [('get', ('sym', P[0]['n']), ('f', 'get%d' % i)) for i in range(n)], True
        return [('sym', p['n']) for p, t in zip(P, ty) if 'ensor' in t], False
    n = 3 if name == 'svd' else 2
    c = None
    return [(name, ('sym', P[0]['n']), ('sym', P[1]['n']), i) for i in range(n)], True


def piece(t):
    """get_i(svd(A, split)) as (name, A, split, i)"""
    if t[0] == 'get' and t[2][0] == 'f' and t[2][1].startswith('get'):
        b = t[1]
        if b[0] == 'call' and len(b[2]) == 2 and b[1] in (LAQ + 'svd', LAQ + 'eigh'):
            return (b[1].split('::')[-1], b[2][0], b[2][1], int(t[2][1][3:]))
    return t


def forward_rule(ctx, F):
    n = 0
    for name in ('truncate', 'svd', 'eigh'):
        fns = [f for f in F.q(LAQ + name) if 'BOOL' not in f.sig() and any('Scalar' in t for t in f.ptypes())]
        ctx.need(fns, 'the truncating overloads of ' + name)
        for fn in fns:
            R = Run(F, fn, (), LA)
            w = W(fn)
            torch = 'btensor' not in fn.sig()
            ob = lambda nm, ok, why='': ctx.ob('%s(%s): %s' % (name, ', '.join(fn.ptypes()), nm), ok, w, why)
            n += 1
            kn = knobs(fn, torch, name)
            if not ob('parameters: two scalars, and a minimum and maximum or none', kn is not None, 'found %s' % fn.sig()):
                continue
            src, tup = sources(fn, name)
            # where the values are among the pieces
            v = 1 if len(src) == 3 or not tup and torch else 0
            rets = [R.val(s, x) for s, k, x in R.outs if k == 'return']
            if not ob('returns', bool(rets) and all(r[0] == 'tuple' and len(r[1]) == len(src) for r in rets), 'returns %s' % [fmt(r, 3) for r in rets]):
                continue
            for r in rets:
                if torch:
                    cuts = [cut(x) for x in r[1]]
                    ob('every piece is a leading part of itself along the bond', all(c and c[2] == -1 and piece(c[0]) == s for c, s in zip(cuts, src)), 'returns %s' % fmt(r, 6))
                    want = {sub(c[1], ONE) for c in cuts if c}
                    x = want.pop() if len(want) == 1 else ZERO
                    ok = x[:2] == ('call', LAQ + 'compute_last_index') and len(x[2]) == 5
                    ob('all are cut after the same last index', ok, 'cut at %s' % [fmt(c[1], 4) for c in cuts if c])
                    if ok:
                        ob('the last index is computed from the values', piece(x[2][0]) == src[v], 'from %s' % fmt(x[2][0], 4))
                        ob('for the tolerance, power, minimum and maximum asked for', same_knobs(x[2][1:], kn), 'for %s' % [fmt(y, 3) for y in x[2][1:]])
                else:
                    ts = {y for x in r[1] for y in subterms(x) if len(y) > 2 and y[:2] == ('call', LAQ + 'truncate_impl')}
                    t = ts.pop() if len(ts) == 1 else None
                    if not ob('the pieces are truncated together', t is not None and len(t[2]) == 6, 'returns %s' % fmt(r, 5)):
                        continue
                    g = lambda y, i: ('get', y, ('f', 'get%d' % i))
                    us = [i for i in range(len(src)) if i != v]
                    a = t[2]
                    ob('the values are truncated as values', piece(a[0]) == src[v], 'the values are %s' % fmt(a[0], 4))
                    if name == 'eigh':
                        ctx.ob('the block eigenvalues are given to the truncation in descending order of magnitude', piece(a[0])[0] not in ('eigh',), w,
                               'they are given as quantit::eigh orders them, ascending', key='truncated block eigh: order of the values')
                    ob('the others are truncated along with them', a[1][0] == 'tuple' and [piece(x) for x in a[1][1]] == [src[i] for i in us], 'the others are %s' % fmt(a[1], 5))
                    ob('for the tolerance, power, minimum and maximum asked for', same_knobs((a[4], a[5], a[3], a[2]), kn), 'for %s' % [fmt(y, 3) for y in a[2:]])
                    want = [None] * len(src)
                    want[v] = g(t, 0)
                    for j, i in enumerate(us):
                        want[i] = g(g(t, 1), j)
                    ob('every piece is returned at its place', list(r[1]) == want, 'returns %s' % fmt(r, 6))
    return n


def block_at(N, lst, p):
    return N(('get', lst, ('i', p)))


def poly(t, atoms):
    """a product/sum over the given atoms as {sorted atom names: factor}; None when something else is involved"""
    if t in atoms:
        return {(atoms[t],): 1}
    t = number(t)
    if t in atoms:
        return {(atoms[t],): 1}
    if t[0] == 'c' or t[0] == 'fl':
        return {(): float(t[1])}
    if t[0] == 'aff':
        r = {(): float(t[1])}
        for x, k in t[2]:
            p = poly(x, atoms)
            if p is None:
                return None
            for m, c in p.items():
                r[m] = r.get(m, 0) + k * c
        return {m: c for m, c in r.items() if c}
    if t[0] == 'bin' and t[1] in '+-*':
        n, a = {'+': 'add', '-': 'sub', '*': 'mul'}[t[1]], t[2:4]
    else:
        o = opcall(t)
        if not o or o[0] not in ('add', 'sub', 'mul', 'neg', 'rsub'):
            return None
        n, a = o
    ps = [poly(x, atoms) for x in a]
    if any(p is None for p in ps):
        return None
    if n == 'neg':
        return {m: -c for m, c in ps[0].items()}
    r = {}
    if n in ('add', 'sub', 'rsub'):
        f = {'add': (1, 1), 'sub': (1, -1), 'rsub': (-1, 1)}[n]
        for p, g in zip(ps, f):
            for m, c in p.items():
                r[m] = r.get(m, 0) + g * c
    else:
        for m, c in ps[0].items():
            for m2, c2 in ps[1].items():
                k = tuple(sorted(m + m2))
                r[k] = r.get(k, 0) + c * c2
    return {m: c for m, c in r.items() if c}


def total_rows(R, t, D):
    """t counts the values of all the blocks of D"""
    N = R.N
    if t[0] != 'phi' or t not in R.I.phirec:
        return False
    rec = R.I.phirec[t]
    if N(rec['init'].get(t, t)) != ZERO or not full_walk(R.I, R.C, rec, ('get', D, ('f', 'blocks_list'))) and N(('call', 'size', (('get', D, ('f', 'blocks_list')),))) not in (R.trips.get(('iter', rec['site'])) or ()):
        return False
    E = element(R, rec, ('get', D, ('f', 'blocks_list')))
    sizes = {N(x) for e in E for x in (('at', ('op', 'sizes', (e,)), ZERO), ('op', 'size', (e, ZERO)), ('op', 'numel', (e,)))}
    return bool(rec['ends']) and all(N(sub(e[2].get(t, t), t)) in sizes for e in rec['ends'])


def element(R, rec, lst):
    """the block an iteration is about, in the forms it can have"""
    it = ('iter', rec['site'])
    return [R.N(('get', ('E', lst, ('pos', rec['site'])), ('f', 'get1'))), ('E', R.N(lst), ('pos', rec['site']), 'get1'),
            R.N(('get', ('get', lst, ('i', it)), ('f', 'get1')))]


def gathered(R, t, D, ob):
    """t holds the values of all the blocks of D, one after the other"""
    N = R.N
    if t[0] != 'phi' or t not in R.I.phirec:
        return ob('the values of all the blocks are collected', False, 'collected in %s' % fmt(t, 4))
    rec = R.I.phirec[t]
    init = opcall(N(rec['init'].get(t, t)))
    n = init[1][0] if init and init[0] in ('zeros', 'empty', 'ones', 'full') and init[1] else None
    if n is not None and n[0] == 'list' and len(n[1]) == 1:
        n = n[1][0]
    while n is not None and n[0] == 'ctor' and len(n[2]) == 1:
        n = n[2][0]
        if n[0] == 'list':
            n = n[1][0]
    ob('room for the values of all the blocks', n is not None and total_rows(R, n, D), 'room for %s' % fmt(n, 4) if n else '')
    lst = ('get', D, ('f', 'blocks_list'))
    full = full_walk(R.I, R.C, rec, lst) or N(('call', 'size', (lst,))) in (R.trips.get(('iter', rec['site'])) or ())
    bad = [] if full and not rec.get('rets') else ['the loop may skip blocks']
    pos = None
    for e in rec['ends']:
        o = opcall(N(e[2].get(t, t)))
        sl = None
        if o and o[0] in ('index_put',) and len(o[1]) == 3 and o[1][0] == t and o[1][1][0] == 'list':
            xs = indices(o[1][1])
            sl = slice_of(xs[-1]) if len(xs) == 1 or len(xs) == 2 and xs[0] == ELL else None
        if not sl:
            bad.append('a block is not written: %s' % fmt(N(e[2].get(t, t)), 5))
            continue
        E = element(R, rec, lst)
        if o[1][2] not in E:
            bad.append('%s is written instead of the block' % fmt(o[1][2], 4))
            continue
        pos = sl[0]
        sizes = [N(x) for y in E for x in (('at', ('op', 'sizes', (y,)), ZERO), ('op', 'size', (y, ZERO)), ('op', 'numel', (y,)))]
        if sub(sl[1], sl[0]) not in sizes:
            bad.append('a block is written to %s' % fmt(o[1][1], 6))
        if sl[0][0] != 'phi' or not total_rows(R, sl[0], D):
            bad.append('a block is written after %s' % fmt(sl[0], 4))
    ob('the values of all the blocks are collected, one block after the other', not bad, '; '.join(bad[:2]))
    return pos


def impl_cut_rule(ctx, F):
    n = 0
    fns = F.q(LAQ + 'truncate_impl')
    ctx.need(fns, 'truncate_impl')
    for fn in fns:
        R = Run(F, fn, (), LA)
        I, N = R.I, R.N
        nu = fn.ptypes()[1].count('quantit::btensor')
        w = W(fn)
        ob = lambda nm, ok, why='': ctx.ob('truncate_impl, %d unitaries: %s' % (nu, nm), ok, w, why)
        n += 1
        D, U, MX, MN, TOL, POW = (('sym', p['n']) for p in fn.params)
        DL = ('get', D, ('f', 'blocks_list'))
        sz = N(('call', 'size', (DL,)))
        b0 = ('begin', ('o', fn.params[0]['n']), (('f', 'blocks_list'),))
        main = None
        for r in I.loops:
            ph = [p for p in r['init'] if p[0] == 'phi' and p[2] == (('o', fn.params[0]['n']), ('f', 'blocks_list')) and r['init'][p] in (DL, N(DL))]
            if ph and r['depth'] == 1:
                main, PD = r, ph[0]
        if not ob('a pass over the blocks of the values', main is not None, 'no loop changes the blocks'):
            continue
        it = ('iter', main['site'])
        p = sub(sub(sz, ONE), it)
        ob('it visits all of them, from the last to the first', sz in (R.trips.get(it) or ()) and not main.get('rets'), 'it runs %s times' % [fmt(x, 3) for x in R.trips.get(it, ())])
        # unchanged when there is nothing
        early = [(s, N(strip_copies(value(I, s, v))), {(k, N(x)): t for (k, x), t in s.facts.items()}) for s, k, v in R.outs if k == 'return']
        late = []
        for s, v, L in early:
            if v == ('tuple', (D, U)):
                ob('unchanged only without any value', any(k == 'eq0' and t and total_rows(R, x, D) or k == 'eq0' and t and x == sz for (k, x), t in L.items()), 'returned unchanged when %s' % [fmt(x, 4) for k, x in L])
            else:
                late.append((s, v))
        phi = lambda root, *f: next((q for q in main['init'] if q[0] == 'phi' and q[2] == (root,) + f), None)
        ur = ('o', fn.params[1]['n'])
        ku = [(('f', 'get%d' % i),) for i in range(nu)]
        PB = [phi(ur, *k, ('f', 'blocks_list')) for k in ku]
        PS = [phi(ur, *k, ('f', 'sections_sizes')) for k in ku]
        PDS = phi(('o', fn.params[0]['n']), ('f', 'sections_sizes'))
        if not ob('blocks and section sizes of the values and of all unitaries follow', all(PB) and all(PS) and PDS is not None, 'unitaries: %s %s' % (PB, PS)):
            continue
        for s, v in late:
            good = v[0] == 'tuple' and len(v[1]) == 2
            if good:
                dv, uv = v[1]
                good = dv == ('upd', D, ((('f', 'blocks_list'), PD), (('f', 'sections_sizes'), PDS)))
                want = tuple((('f', 'get%d' % i), ('upd', ('get', U, ('f', 'get%d' % i)), ((('f', 'blocks_list'), PB[i]), (('f', 'sections_sizes'), PS[i])))) for i in range(nu))
                good = good and uv == ('upd', U, want)
            ob('the truncated tensors are returned', good, 'returns %s' % fmt(v, 6))
        ob('returns', bool(late), 'never returns the truncated tensors')
        blk = N(('get', PD, ('i', p)))
        get = lambda k: N(('get', ('get', PD, ('i', p)), ('f', k)))
        B, IX = get('get1'), get('get0')
        sec = [N(('at', IX, sub(('call', 'size', (IX,)), ONE))), N(('at', IX, ZERO))]
        thr = set()
        nzs = set()
        for e in main['ends']:
            L = {(k, N(x)): t for (k, x), t in e[1].items()}
            # what is kept of the block
            kept, nz = None, None
            lbs = {y for k, x in L for y in subterms(x) if len(y) > 2 and y[:2] == ('call', LAQ + 'lower_bound')} | \
                  {y for x in e[2].values() for y in subterms(N(x)) if len(y) > 2 and y[:2] == ('call', LAQ + 'lower_bound')}
            lb = lbs.pop() if len(lbs) == 1 else None
            if not ob('the values above the threshold are counted', lb is not None and len(lb[2]) == 2 and lb[2][0] == B, 'counted: %s' % [fmt(x, 4) for x in lbs]):
                break
            thr.add(number(lb[2][1]))
            counters = [q for q in main['init'] if q[0] == 'phi' and q[2][0][0] == 'v' and q != PD and any(('lt0', mul(q, ('c', -1))) == x for x in L)]
            if not ob('a remaining number of exact zeros decides about the values at the threshold', len(counters) == 1, 'candidates: %s' % [fmt(x, 3) for x in counters]):
                break
            nz = counters[0]
            nzs.add(nz)
            rest = [sub(N(y), lb) for y in (('op', 'size', (B, ZERO)), ('op', 'numel', (B,)), ('at', ('op', 'sizes', (B,)), ZERO))]
            new = N(e[2].get(nz, nz))
            if L['lt0', mul(nz, ('c', -1))]:
                m = sub(nz, new)
                more = m[:2] == ('call', 'std::min') and len(m[2]) == 2 and nz in m[2] and any(x in m[2] for x in rest) or \
                    any(m == x and at_most(L, x, nz) or m == nz and at_most(L, nz, x) for x in rest)
                ob('zeros kept in a block are subtracted from the remaining number', more, 'the remaining number becomes %s' % fmt(new, 6))
                kept = add(lb, m) if more else lb
            else:
                ob('no zeros are kept once none remain', new == nz, 'the remaining number becomes %s' % fmt(new, 6))
                kept = lb
            gone = eq_lit(L, kept, ZERO)
            if gone is None:
                gone = {True: False, False: True}.get(known_lt(L, ZERO, kept))
            if not ob('whether anything is kept of the block decides', gone is not None, 'undecided: %s' % [fmt(x, 5) for k, x in L]):
                continue
            x = N(e[2].get(PD, PD))
            xs = [N(e[2].get(q, q)) for q in PB]
            ss = [N(e[2].get(q, q)) for q in PS]
            ds = N(e[2].get(PDS, PDS))
            if gone:
                ob('nothing kept: the block is erased', x[0] == 'mut' and x[1].split('::')[-1] == 'erase' and x[3][0] == PD and sub(x[3][1], b0) == p and len(x[3]) == 2, 'the blocks become %s' % fmt(x, 5))
                ob('nothing kept: all section sizes stay', ss == PS and ds == PDS, 'they become %s %s' % (fmt(ds, 5), [fmt(y, 5) for y in ss]))
                for i, y in enumerate(xs):
                    ok, why = removed(R, y, PB[i], sec)
                    ob('nothing kept: exactly the blocks of that section are removed from unitary %d' % i, ok, why)
            else:
                ps = peel(x, PD)
                c = None
                if ps and len(ps) == 1 and ps[0][:2] == ('idx', p) and ps[0][2][0] == 'upd' and ps[0][2][1] == blk and len(ps[0][2][2]) == 1 and ps[0][2][2][0][0] == ('f', 'get1'):
                    c = cut(ps[0][2][2][0][1])
                ob('the block is cut to the values kept', c is not None and c[0] == B and c[1] == kept and c[2] in (0, -1), 'the blocks become %s' % fmt(x, 7))
                ps = peel(ds, PDS)
                ob('the size of its section is the number of values kept', bool(ps) and len(ps) == 1 and ps[0][1] in sec and ps[0][2] == kept, 'the section sizes become %s' % fmt(ds, 5))
                dl = N(('call', 'size', (('get', D, ('f', 'sections_sizes')),)))
                for i in range(nu):
                    ul = N(('call', 'size', (('get', ('get', U, ku[i][0]), ('f', 'sections_sizes')),)))
                    ps = peel(ss[i], PS[i])
                    ob('so is the size of that section of the last dimension of unitary %d' % i, bool(ps) and len(ps) == 1 and ps[0][2] == kept and any(sub(ps[0][1], y) == sub(ul, dl) for y in sec), 'the section sizes become %s' % fmt(ss[i], 6))
                    ok, why = trimmed(R, xs[i], PB[i], sec, kept)
                    ob('the blocks of that section of unitary %d are cut to as many, the others stay' % i, ok, why)
        if not ob('one threshold', len(thr) == 1, 'found %d' % len(thr)) or len(nzs) != 1:
            continue
        t = thr.pop()
        nz = nzs.pop()
        cl = {y for y in subterms(t) if len(y) > 2 and y[:2] == ('call', LAQ + 'compute_last_index')}
        if not ob('the threshold is the last value to keep', len(cl) == 1, 'threshold %s' % fmt(t, 6)):
            continue
        cl = cl.pop()
        a = cl[2]
        ob('for the tolerance, power, minimum and maximum asked for', len(a) == 5 and [number(y) for y in a[1:]] == [TOL, POW, MN, MX], 'for %s' % [fmt(y, 3) for y in a[1:]])
        S = a[0]
        o = opcall(S[1]) if S[0] == 'get' and S[2] == ('f', 'get0') else None
        ok = o and o[0] == 'sort' and len(o[1]) == 3 and o[1][1] in (ZERO, ('c', -1)) and o[1][2] == ONE
        if not ok and o and o[0] == 'topk':
            ok = False
        ob('among all values in descending order', bool(ok), 'among %s' % fmt(S, 5))
        if not ok:
            continue
        gathered(R, o[1][0], D, ob)
        vs = {y for y in subterms(t) if entry_at(y) == (S, cl) or (opcall(y) and opcall(y)[0] in ('index', 'operator[]', 'select') and opcall(y)[1][0] == S and any(z == cl for z in subterms(opcall(y)[1])))}
        atoms = {y: 'v' for y in vs if entry_at(y) in ((S, cl),) or first_dim(y) == (S, cl)}
        eps = {y: 'e' for y in subterms(t) if len(y) > 2 and y[0] == 'call' and y[1] == LAQ + 'epsilon'}
        po = poly(t, {**atoms, **eps})
        ok = po is not None and po.get(('v',)) == 1 and set(po) <= {('v',), ('e', 'v')} and -8 <= po.get(('e', 'v'), 0) < 0
        ob('the threshold is that value, lowered by no more than rounding', ok, 'threshold %s' % (po if po is not None else fmt(t, 8)))
        init = number(N(main['init'].get(nz, nz)))
        o = opcall(init)
        ok = False
        if o and o[0] in ('sum', 'count_nonzero') and o[1]:
            c = opcall(o[1][0])
            if c and c[0] == 'eq' and len(c[1]) == 2 and number(c[1][1]) in (ZERO, ('fl', 0.0), ('fl', '0.0')):
                k = cut(c[1][0])
                ok = k is not None and k[0] == S and k[1] == add(cl, ONE)
        ob('the exact zeros to keep are those among the values to keep', ok, 'their number is %s' % fmt(init, 8))
    return n


def at_most(L, a, b):
    return known_lt(L, b, a) is False or known_lt(L, a, b) is True


def first_dim(t):
    o = opcall(t)
    if o and o[0] in ('operator[]',) and len(o[1]) == 2:
        return o[1]
    if o and o[0] == 'select' and len(o[1]) == 3 and o[1][1] == ZERO:
        return o[1][0], o[1][2]
    if o and o[0] == 'index' and len(o[1]) == 2 and o[1][1][0] == 'list' and len(indices(o[1][1])) == 1:
        return o[1][0], indices(o[1][1])[0]
    return None


def removed(R, y, old, sec):
    """y is old without the blocks whose last index is sec"""
    if y[0] != 'filter' or y[1] != old:
        return False, 'the blocks become %s' % fmt(y, 5)
    ix = R.N(('get', X, ('f', 'get0')))
    last = R.N(('at', ix, sub(('call', 'size', (ix,)), ONE)))
    for new, val in y[2]:
        L = {(k, R.N(x)): t for (k, x), t in new}
        m = {eq_lit(L, last, s) for s in sec} - {None}
        if val[0] != 'c' or len(m) != 1 or m.pop() != bool(val[1]):
            return False, 'a block is removed: %s, when %s' % (fmt(val, 4), [(fmt(x, 6), t) for (k, x), t in L.items()])
    return bool(y[2]), 'nothing decides about a block'


def trimmed(R, y, old, sec, kept):
    """y is old with the blocks whose last index is sec cut to the first kept entries of the last dimension"""
    N = R.N
    y = strip_copies(y)
    if y[0] != 'phi' or y not in R.I.phirec:
        return False, 'the blocks become %s' % fmt(y, 5)
    rec = R.I.phirec[y]
    if N(rec['init'].get(y, y)) != old:
        return False, 'other blocks are cut'
    it = ('iter', rec['site'])
    if N(('call', 'size', (old,))) not in (R.trips.get(it) or ()) and N(('call', 'size', (y,))) not in (R.trips.get(it) or ()) or rec.get('rets'):
        return False, 'some of the blocks may be skipped: %s passes' % [fmt(t, 3) for t in R.trips.get(it, ())]
    for e in rec['ends']:
        L = {(k, N(x)): t for (k, x), t in e[1].items()}
        k = {'E': None}
        own = set()
        for q in {z for kk, d in L for z in subterms(d)}:
            pass
        pos = [it, ('pos', rec['site'])]
        ix = [N(('get', ('get', y, ('i', it)), ('f', 'get0'))), ('E', y, pos[1], 'get0'), ('E', old, pos[1], 'get0'), N(('get', ('get', old, ('i', it)), ('f', 'get0')))]
        last = [N(('at', z, sub(('call', 'size', (z,)), ONE))) for z in ix]
        m = {eq_lit(L, a, s) for a in last for s in sec} - {None}
        ps = peel(N(e[2].get(y, y)), y)
        if len(m) != 1 or ps is None:
            return False, 'a block is cut when %s' % [(fmt(d, 6), t) for (kk, d), t in L.items()]
        if m.pop():
            if len(ps) != 1 or ps[0][0] != 'idx' or ps[0][1] not in pos:
                return False, 'the block is not cut'
            nv = ps[0][2]
            c = cut(nv[2][0][1]) if nv[0] == 'upd' and len(nv[2]) == 1 and nv[2][0][0] == ('f', 'get1') else None
            mine = [N(('get', ('get', y, ('i', it)), ('f', 'get1'))), ('E', y, pos[1], 'get1')]
            if c is None or c[0] not in mine or c[1] != kept or c[2] != -1:
                return False, 'the block becomes %s' % fmt(nv, 7)
        elif ps:
            return False, 'a block of another section is changed'
    return bool(rec['ends']), 'no pass'


def search_rule(ctx, F):
    n = 0
    fns = F.q(LAQ + 'lower_bound')
    ctx.need(fns, 'lower_bound')
    for fn in fns:
        R = Run(F, fn, (LAQ + 'lower_bound_dev', LAQ + 'lower_bound_impl'), LA)
        w = W(fn)
        ob = lambda nm, ok, why='': ctx.ob('lower_bound: ' + nm, ok, w, why)
        n += 1
        T, V = (('sym', p['n']) for p in fn.params)
        rets = [(s, R.val(s, v)) for s, k, v in R.outs if k == 'return']
        bad = []
        for s, v in rets:
            o = opcall(v[2][0]) if v[:2] == ('call', LAQ + 'lower_bound_impl2') and len(v[2]) == 2 else None
            if not o or 'accessor' not in o[0] or o[1][:1] != (T,) or number(v[2][1]) != V:
                bad.append('returns %s' % fmt(v, 5))
            if any(s.env.get(('o', p['n'])) != ('sym', p['n']) for p in fn.params):
                bad.append('changes its arguments')
        ob('every element type and device is searched for the value', bool(rets) and not bad, '; '.join(bad[:2]))
    fns = F.q(LAQ + 'lower_bound_impl2')
    ctx.need(fns, 'lower_bound_impl2')
    for fn in fns:
        R = Run(F, fn, (), LA)
        N = R.N
        n += 1
        A, V = (('sym', p['n']) for p in fn.params)
        el = fn.ptypes()[1]
        recs = R.I.loops
        ok = len(recs) == 1
        why = 'found %d loops' % len(recs)
        if ok:
            it = ('iter', recs[0]['site'])

            def small(fs):
                """(still in the list, greater than the value)"""
                a = g = None
                for (k, x), v in ((kx, v) for kx, v in fs.items()):
                    x = N(x)
                    c, m = aff(x)
                    at = [y for y in m if opcall(y) and opcall(y)[0].split('::')[-1] in ('operator[]', 'at') and opcall(y)[1] == (A, it)]
                    sz = [y for y in m if opcall(y) and opcall(y)[0].split('::')[-1] == 'size' and opcall(y)[1] == (A, ZERO)]
                    if k == 'lt0' and sz and x == sub(it, sz[0]):
                        a = v
                    elif k == 'eq0' and sz and x in (sub(it, sz[0]), sub(sz[0], it)):
                        a = not v
                    elif k == 'lt0' and at and x == sub(V, at[0]):
                        g = v
                    elif k == 'lt0' and at and x == sub(add(at[0], ('c', -1)), V) or k == 'lt0' and at and x == sub(at[0], V):
                        g = 'other'
                return a, g
            bad = ['goes on with %s' % (small(e[1]),) for e in recs[0]['ends'] if small(e[1]) != (True, True)]
            for s, k, v in R.outs:
                if k != 'return':
                    continue
                f = small(s.facts)
                r = N(strip_copies(value(R.I, s, v)))
                if f[0] is not False and f[1] is not False:
                    bad.append('stops with %s' % (f,))
                if r != it and not (f[0] is False and opcall(r) and opcall(r)[0].split('::')[-1] == 'size' and opcall(r)[1] == (A, ZERO)):
                    bad.append('returns %s' % fmt(r, 4))
            ok, why = not bad and bool(recs[0]['ends']), '; '.join(bad[:2])
        ctx.ob('first position whose value is not greater, for %s' % el, ok, W(fn), why, key='lower_bound_impl2:' + fn.sig())
    return n


def a18(ctx):
    F = load(['btensor_linalg.cpp', 'LinearAlgebra.cpp'], True)
    ctx.assumption('at::sort, index, index_put_, narrow, pow, abs, any, sum and numel do what torch documents')
    ctx.assumption('the values handed to truncate() are sorted in descending order within each block, as torch::svd gives them')
    ctx.meta = {'stopping rules': last_index_rule(ctx, F), 'entry points': forward_rule(ctx, F), 'block truncations': impl_cut_rule(ctx, F), 'searches': search_rule(ctx, F)}
