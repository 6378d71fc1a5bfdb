"""A17 decompositions of block tensors sector by sector"""
from rules.linalg import *

H = LAQ + 'LA_helpers::'


class DE(LA):
    def want_inline(self, fn, st, node, args):
        if fn.q in (H + 'build_index_slice',):
            return True
        if fn.q in (LAQ + 'svd', LAQ + 'eigh'):
            return False
        return super().want_inline(fn, st, node, args)

    opaque = True

    def lambda_body(self, ft, n):
        b = super().lambda_body(ft, n)
        if b is not None and self.opaque and len(b.params) == 2 and all('vector<long' in t for t in b.ptypes()):
            return None             # comparisons of block indices are judged by themselves
        return b

    def on_fnvalue(self, st, node, ft, locs):
        if len(locs) == 2 and (ft[0] in ('lam', 'sym') or ft[0] == 'get'):
            return [(st, ('call', '#same', (ft,) + tuple(self.read(st, l) for l in locs)))]
        return super().on_fnvalue(st, node, ft, locs)

    def arg_readonly(self, e, name, i, kind):
        return name.startswith((H + 'compact_tensor_count',)) or super().arg_readonly(e, name, i, kind)


def run(F, fn, deep=()):
    """analysed function in which a local list of groups that nothing writes to is the list compact_dense returned"""
    R = Run(F, fn, deep, DE)
    seen = {}
    states = [s for s, _, _ in R.outs] + [e[3] for r in R.I.loops for e in r['ends'] + r['exits']]
    for s in states:
        for root, v in s.env.items():
            if root[0] == 'v':
                seen.setdefault(root, set()).add(strip_copies(v))
    for root, vs in seen.items():
        v = next(iter(vs))
        if len(vs) == 1 and v[0] == 'call' and v[1].startswith(H):
            R.N.ren.setdefault(('sym', root), v)
    return R


def canon(t):
    """component of an element of a list: one spelling for the element the loop is at"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'aff':
        r = ('c', t[1])
        for a, k in t[2]:
            r = add(r, canon(a), k)
        return r
    t = tuple(canon(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'get' and len(t) == 3 and t[2][0] == 'f' and t[1][0] == 'at' and t[1][2][0] == 'iter':
        return ('E', t[1][1], ('pos', t[1][2][1]), t[2][1])
    return t


class Seq:
    """an integer vector as a concatenation of pieces: ('run', list, first, n), ('one', value), ('fill', value, n)"""

    def __init__(self, R, st=None):
        self.R, self.st = R, st

    def N(self, t):
        """normal form, in which the size of a vector with known pieces is their total"""
        t = canon(self.R.N(t))
        if t[0] == 'aff' or t[0] == 'call':
            c, m = aff(t)
            r = ('c', c)
            for a, k in m.items():
                if a[0] == 'call' and a[1] == 'size' and strip_copies(a[2][0])[0] in ('mut', 'upd', 'ctor', 'phi'):
                    p = self.go(a[2][0])
                    a = self.total(p) if p is not None else a
                r = add(r, a, k)
            return r
        return t

    def __call__(self, t):
        p = self.go(t)
        return None if p is None else self.tidy(p)

    def tidy(self, p):
        out = []
        for x in p:
            n = self.length(x)
            if n == ZERO:
                continue
            if x[0] == 'fill' and n == ONE:
                x = ('one', x[1])
            if x[0] == 'run' and n == ONE:
                x = ('one', self.N(('at', x[1], x[2])))
            out.append(x)
        return out

    def length(self, x):
        return ONE if x[0] == 'one' else x[-1]

    def total(self, p):
        r = ZERO
        for x in p:
            r = add(r, self.length(x))
        return r

    def go(self, t):
        N = self.N
        t = strip_copies(t)
        if t[0] == 'list':
            return [('one', N(x)) for x in t[1]]
        if t[0] == 'ctor' and t[1] in ('std::vector', 'c10::SmallVector'):
            a = [x for x in t[2] if not (x[0] == 'ctor' and 'allocator' in x[1])]
            if not a:
                return []
            if len(a) == 1 and self.go(a[0]) is not None:
                return self.go(a[0])
            if len(a) == 1:
                return [('fill', ZERO, N(a[0]))]
            if len(a) == 2 and self.head(a[0]):
                return self.span(a[0], a[1])
            if len(a) == 2:
                return [('fill', N(a[1]), N(a[0]))]
            return None
        if t[0] == 'upd' and all(k[0] == 'i' and (not isinstance(k[1], tuple) or k[1][0] != 'key') for k, _ in t[2]):
            p = self.go(t[1])
            for k, v in t[2]:
                p = p and self.put(p, N(k[1]), ('one', N(v)))
            return p
        if t[0] == 'op' and t[1] == 'sizes' and len(t[2]) == 1 or t[0] == 'call' and short(t[1]) == 'sizes' and len(t[2]) == 1:
            t = ('op', 'sizes', t[2])
            return [('run', t, ZERO, ('call', 'size', (t,)))]
        if t[0] == 'call' and t[1].startswith('c10::ArrayRef') and short(t[1]) == 'slice' and len(t[2]) in (2, 3):
            p = self.go(t[2][0])
            if p is None:
                return None
            lo = N(t[2][1])
            return self.part(p, lo, add(lo, N(t[2][2])) if len(t[2]) == 3 else self.total(p))
        if t[0] == 'call' and t[1] == LAQ + 'concat' and len(t[2]) == 2:
            p, q = self.go(t[2][0]), self.go(t[2][1])
            return None if p is None or q is None else p + q
        if t[0] == 'mut' and len(t) > 3:
            n = t[1].split('::')[-1]
            if n in ('reserve', 'shrink_to_fit') and t[2] == 'obj':
                return self.vector(t[3][0])
            if n in ('push_back', 'emplace_back') and t[2] == 'obj' and len(t[3]) == 2:
                p = self.vector(t[3][0])
                return None if p is None else p + [('one', N(t[3][1]))]
            if n == 'insert' and t[2] == 'obj' and len(t[3]) == 4 and at_end(self.R, deconv(t[3][1]), t[3][0]):
                p, q = self.vector(t[3][0]), self.span(deconv(t[3][2]), deconv(t[3][3]))
                return None if p is None or q is None else p + q
            if t[1] == 'std::copy' and t[2] == 'out' and len(t[3]) == 4:
                p, q = self.vector(t[3][0]), self.span(t[3][1], t[3][2])
                h = self.head(t[3][3])
                if p is None or q is None or h is None:
                    return None
                pos = N(sub(t[3][3], h))
                for x in q:
                    p = p and self.put(p, pos, x)
                    pos = add(pos, self.length(x))
                return p
        if t[0] == 'phi' and t in self.R.I.phirec:
            return self.filled(t)
        return None

    def vector(self, t):
        """the same for a term that is known to be a vector"""
        p = self.go(t)
        t = self.N(strip_copies(t))
        if p is None and t[0] in ('E', 'get', 'at', 'sym'):
            p = [('run', t, ZERO, ('call', 'size', (t,)))]
        return p

    def head(self, b):
        h = [a for a, k in aff(b)[1].items() if a[0] == 'begin' and k == 1]
        return h[0] if len(h) == 1 else None

    def span(self, b, e):
        N = self.N
        h, g = self.head(b), self.head(e)
        if h is None or h != g:
            return None
        lo, hi = N(sub(b, h)), N(sub(e, h))
        v = None
        if self.st is not None and h[1][0] != 'o':
            v = self.st.env.get(h[1])
            for k in h[2]:
                v = None if v is None else proj(strip_copies(v), k)
        p = self.go(v) if v is not None else None
        if p is None:
            r = span(self.R, b, e)
            return r and [('run', r[0], r[1], sub(r[2], r[1]))]
        return self.part(p, lo, hi)

    def part(self, p, lo, hi):
        """entries lo..hi of the pieces"""
        p = list(p)
        i, off = self.locate(p, lo) if lo != self.total(p) else (len(p), ZERO)
        if i is None:
            return None
        q = p[i:]
        if off != ZERO:
            q[0] = self.drop(q[0], off)
        n, out = sub(hi, lo), []
        while n != ZERO:
            if not q:
                return None
            k = self.length(q[0])
            if is_c(n) and n[1] < 0:
                return None
            d = sub(n, k)
            if is_c(d) and d[1] < 0 or len(q) == 1 and not is_c(d):
                out.append(self.take(q[0], n))
                return out
            out.append(q.pop(0))
            n = d
            if len(out) > 8:
                return None
        return out

    def drop(self, x, n):
        return ('run', x[1], add(x[2], n), sub(x[3], n)) if x[0] == 'run' else ('fill', x[1], sub(x[2], n))

    def take(self, x, n):
        return ('run', x[1], x[2], n) if x[0] == 'run' else ('fill', x[1], n)

    def locate(self, p, pos, k=None):
        """piece that holds the position, and how far into it: a known distance from its first or its last entry,
        or k entries before its end; the only piece holds every position"""
        c = ZERO
        for i, x in enumerate(p):
            n = self.length(x)
            d = sub(pos, c)
            e = sub(n, d)
            if d == ZERO and n != ZERO:
                return i, ZERO
            if is_c(e) and e[1] > 0 or is_c(d) and d[1] > 0 and is_c(n) and d[1] < n[1]:
                return i, d
            if k is not None and n != ZERO and sub(add(d, k), n) == ZERO or len(p) == 1 and not is_c(d) and not is_c(n):
                return i, d
            c = add(c, n)
        return None, None

    def put(self, p, pos, x):
        i, off = self.locate(p, pos, self.length(x))
        if i is None:
            return None
        y, n, k = p[i], self.length(p[i]), self.length(x)
        if y[0] == 'one':
            return p[:i] + [x] + p[i + 1:] if k == ONE else None
        rest = sub(n, add(off, k))
        if is_c(rest) and rest[1] < 0:
            return None
        out = []
        if off != ZERO:
            out.append(self.take(y, off))
        out.append(x)
        if rest != ZERO:
            out.append(self.drop(y, add(off, k)))
        return p[:i] + out + p[i + 1:]

    def done(self, t, rec):
        """counters of loops that are over by then"""
        return canon(self.R.fin(t, {('iter', r['site']) for r in self.R.I.loops if r is rec or r['depth'] < rec['depth']}))

    def filled(self, t):
        """a loop that writes one value to consecutive entries"""
        R, N = self.R, self.N
        rec = R.I.phirec[t]
        it = ('iter', rec['site'])
        tr = R.trips.get(it)
        if not tr or rec.get('rets') or any(e[2].get(t, t) != t for e in rec['exits']):
            return None
        p = self.go(rec['init'].get(t, t))
        if p is None:
            return None
        got = set()
        for e in rec['ends']:
            ps = peel(e[2].get(t, t), t)
            if not ps or len(ps) != 1 or ps[0][0] != 'idx':
                return None
            got.add((self.done(sub(N(ps[0][1]), it), rec), N(ps[0][2])))
        if len(got) != 1:
            return None
        lo, v = got.pop()
        n = self.done(canon(sorted(tr, key=repr)[0]), rec)
        if v[0] == 'at' and any(y == it for y in subterms(v[2])) and not any(y == it for y in subterms(v[1])) and is_c(sub(v[2], it)):
            return self.put(p, lo, ('run', v[1], sub(v[2], it), n))
        if any(y[0] == 'iter' for y in subterms(v)) or any(y == it for y in subterms(lo)):
            return None
        return self.put(p, lo, ('fill', v, n))


def group_writes(R, t, base=None):
    """what the loops over the groups store into a list of blocks: ([(loop over groups, [(keys/values per end)])], initial list).
    Every end is a list of (loop over rows or columns or None, key, value, state)"""
    I, N = R.I, R.N
    layers = []
    t = strip_copies(t)
    while t[0] == 'phi' and t in I.phirec:
        rec = I.phirec[t]
        ends = []
        for e in rec['ends']:
            w, x = [], strip_copies(e[2].get(t, t))
            while x != t:
                if x[0] == 'phi' and x in I.phirec and x != t:
                    r2 = I.phirec[x]
                    for e2 in r2['ends']:
                        ps = peel(e2[2].get(x, x), x)
                        if ps is None or any(k != 'key' for k, _, _ in ps):
                            return None
                        w += [(r2, k, v, e2[3]) for _, k, v in ps]
                        if not ps:
                            w.append((r2, None, None, e2[3]))
                    x = strip_copies(r2['init'].get(x, x))
                elif x[0] == 'upd' and all(k[0] == 'i' and k[1][0] == 'key' for k, _ in x[2]):
                    w += [(None, k[1][1], v, e[3]) for k, v in x[2]]
                    x = strip_copies(x[1])
                elif x[0] == 'mut' and x[1].split('::')[-1] == 'reserve':
                    x = strip_copies(x[3][0])
                else:
                    return None
            ends.append((e, w))
        layers.append((rec, ends))
        if any(e[2].get(t, t) != t for e in rec['exits']):
            return None
        t = strip_copies(rec['init'].get(t, t))
        while t[0] == 'mut' and t[1].split('::')[-1] in ('reserve', 'reserve_space_'):
            t = strip_copies(t[3][0])
    return layers, t


def short(n):
    return n.split('::')[-1].split('#')[0]


class Shapes:
    """dimensions, selection rule and number type of an empty tensor made from dimensions of `tensor` and a bond dimension.
    A dimension part is (what, first, count, modification)"""
    FLIP = {'': 'inverse', 'inverse': '', 'neutral': 'neutral'}

    def __init__(self, R, st, base, more=()):
        self.R, self.st, self.base, self.seq = R, st, base, Seq(R, st)
        self.more = dict(more)

    def __call__(self, t):
        t = strip_copies(t)
        if t == self.base:
            return [(t, ZERO, ('get', t, ('f', 'rank')), '')], 'own', None
        if t in self.more:
            return [(t, ZERO, self.more[t], '')], 'factor', None
        if t[0] == 'upd' and all(k == ('f', 'blocks_list') for k, _ in t[2]):
            return self(t[1])
        if t[0] == 'ctor' and t[1] == BTQ[:-2]:
            a = t[2]
            if len(a) == 1:
                return self(a[0])
            if len(a) >= 4:
                c = self.seq(a[0])
                cv = strip_copies(a[1])
                while cv[0] == 'ctor' and len(cv[2]) == 1:
                    cv = strip_copies(cv[2][0])
                if c and len(c) == 1 and c[0][0] == 'one':
                    return [(('bond', cv, strip_copies(a[2]), c[0][1]), ZERO, ONE, '')], self.rule(a[3]), None
            return None
        if t[0] not in ('call', 'mut', 'op'):
            return None
        a = t[3] if t[0] == 'mut' else t[2]
        n = short(t[1])
        if n == 'shape_from' and len(a) == 2 and 'btensor::' in t[1]:
            x, p = self(a[0]), self.seq(a[1])
            return x and p is not None and self.kept(x[0], p) or None
        if n in ('shape_from', 'disambiguated_shape_from'):
            if len(a) == 1 and a[0][0] == 'ctor' and a[0][2] and a[0][2][0][0] == 'list':
                a = a[0][2][0][1]
            if len(a) == 1 and a[0][0] == 'list':
                a = a[0][1]
            xs = [self(x) for x in a]
            if not xs or None in xs:
                return None
            return sum((x[0] for x in xs), []), 'product', xs[0][2]
        x = self(a[0]) if a else None
        if x is None:
            return None
        d, r, ty = x
        if n in ('neutral_shape_', 'neutral_shape'):
            return [(w, lo, k, 'neutral') for w, lo, k, m in d], 'neutral', ty
        if n in ('inverse_cvals_', 'inverse_cvals'):
            return [(w, lo, k, self.FLIP[m]) for w, lo, k, m in d], 'neutral' if r == 'neutral' else ('inverse', r), ty
        if n in ('set_selection_rule_', 'set_selection_rule') and len(a) == 2:
            return d, self.rule(a[1]), ty
        if n in ('neutral_selection_rule_', 'neutral_selection_rule'):
            return d, 'neutral', ty
        if n == 'to' and len(a) >= 2:
            return d, r, a[1]
        return None

    def rule(self, t):
        t = strip_copies(t)
        while t[0] == 'ctor' and len(t[2]) == 1:
            t = t[2][0]
        if t[0] in ('call', 'op') and short(t[1]) == 'neutral':
            return 'neutral'
        if t[0] == 'get' and t[2] == ('f', 'value'):
            t = strip_copies(t[1])
        return 'own' if t == ('get', self.base, ('f', 'selection_rule')) else ('rule', t)

    def kept(self, d, p):
        """dimensions at which the vector has -1; the entry 0 elsewhere takes a dimension out"""
        if len(d) != 1 or any(x[0] == 'run' or x[1] not in (('c', -1), ZERO) for x in p):
            return None
        w, lo, n, m = d[0]
        out, pos = [], ZERO
        for x in p:
            k = self.seq.length(x)
            if x[1] != ZERO:
                out.append((w, add(lo, pos), k, m))
            pos = add(pos, k)
        return (out, 'part', None) if pos == n or n is None else None


def merged(d):
    out = []
    for w, lo, n, m in d:
        if n == ZERO:
            continue
        if out and out[-1][0] == w and out[-1][3] == m and add(out[-1][1], out[-1][2]) == lo:
            out[-1] = (w, out[-1][1], add(out[-1][2], n), m)
        else:
            out.append((w, lo, n, m))
    return out


def sector_rule(ctx, F):
    n = 0
    for q, factors, made in (('svd', ('U', 'd', 'V'), ('svd', 'linalg_svd')), ('eigh', ('d', 'U'), ('eigh', 'linalg_eigh'))):
        fns = [f for f in F.q(LAQ + q) if 'BOOL' in f.sig()]
        ctx.need(fns, q)
        for fn in fns:
            n += 1
            sectors(ctx, F, fn, q, factors, made)
    return n


def sectors(ctx, F, fn, q, factors, made):
    R = run(F, fn)
    w = W(fn)
    ob = lambda nm, ok, why='': ctx.ob('%s of a block tensor: %s' % (q, nm), bool(ok), w, why)
    P = [('sym', p['n']) for p in fn.params]
    X = P[0]
    L = ('call', H + 'compact_dense', (X,))
    G = ('call', 'size', (L,))
    rank = ('get', X, ('f', 'rank'))
    rets = [(s, strip_copies(value(R.I, s, v))) for s, k, v in R.outs if k == 'return']
    ob('returns its factors', rets and all(v[0] == 'tuple' and len(v[1]) == len(factors) for _, v in rets), 'returns %s' % [fmt(v, 3) for _, v in rets])
    for s, k, v in R.outs:
        if any(s.env.get(('o', p['n']), ('sym', p['n'])) != ('sym', p['n']) for p in fn.params):
            ob('leaves its argument as it was', False)
    for s, v in rets:
        if v[0] != 'tuple' or len(v[1]) != len(factors):
            continue
        for name, x in zip(factors, v[1]):
            blocks(ctx, R, X, L, G, ob, q, name, factors.index(name), x, s, made, P)
            shape(R, X, L, G, rank, ob, q, name, x, s, P)


def whole(R, rec, n):
    """the loop visits the n elements"""
    return not rec.get('rets') and {canon(t) for t in R.trips.get(('iter', rec['site']), ())} >= {n}


def blocks(ctx, R, X, L, G, ob, q, name, k, x, s, made, P):
    phis = {y for y in subterms(x) if len(y) == 3 and y[0] == 'phi' and y[2][-1:] == (('f', 'blocks_list'),) and y in R.I.phirec}
    # the list the result ends with is the one all others are inside of
    phis = {p for p in phis if not any(p in set(subterms(R.I.phirec[o]['init'].get(o, o))) for o in phis if o != p)}
    g = group_writes(R, next(iter(phis))) if len(phis) == 1 else None
    ob('blocks of %s are written group by group' % name, g and g[0], 'found %d lists' % len(phis))
    if not g or not g[0]:
        return
    layers, base = g
    fresh = base[0] == 'get' and base[2] == ('f', 'blocks_list') and Shapes(R, s, X)(base[1])
    ob('%s starts without blocks' % name, fresh and fresh[1] != 'own' or fresh and len(merged(fresh[0])) > 1, 'starts from %s' % fmt(base, 4))
    keys = []
    for depth, (rec, ends) in enumerate(layers):
        it = ('iter', rec['site'])
        cell = lambda f: ('E', L, ('pos', rec['site']), f)
        label = '%s: %s' % (name, 'blocks' if depth == 0 else 'prepared blocks')
        ob(label + ' for every group', whole(R, rec, G), 'loop at %s runs %s times' % (rec['site'][1], [fmt(t, 5) for t in R.trips.get(it, ())]))
        lines = {'U': 'get2', 'V': 'get3'}.get(name)
        bad, got = [], False
        for e, ws in ends:
            if not ws:
                bad.append('a group is skipped')
            for r2, key, v, st in ws:
                if key is None:
                    bad.append('a line of a group is skipped')
                    continue
                want = [('run', cell('get1'), ZERO, ('call', 'size', (cell('get1'),)))]
                row = None
                if lines:
                    row = r2 and ('E', cell(lines), ('pos', r2['site']), 'get0')
                    if r2 is None or not whole(R, r2, ('call', 'size', (cell(lines),))):
                        bad.append('not every %s of the group is written' % ('row' if name == 'U' else 'column'))
                        continue
                    want.append(('one', row))
                elif r2 is not None:
                    bad.append('written in an inner loop')
                    continue
                want.append(('one', it))
                sq = Seq(R, st)(key)
                if sq != want:
                    bad.append('block index is %s' % (sq and [fmt(p[1], 4) for p in sq],))
                if depth == 0:
                    bad += value_of(R, name, q, k, canon(R.N(v)), cell, r2, lines, made, P)
        ob(label + (' hold the result of their group' if depth == 0 else ' are the ones filled later'), ends and not bad, '; '.join(bad[:2]))


def value_of(R, name, q, k, v, cell, r2, lines, made, P):
    v = strip_copies(v)
    if lines:
        o = opcall(v)
        xs = indices(o[1][1]) if o and o[0] == 'index' and len(o[1]) == 2 and o[1][1][0] == 'list' else None
        if xs and len(xs) == 1 and xs[0][0] == 'list':
            xs = indices(xs[0])
        if not xs:
            return ['block is %s' % fmt(v, 5)]
        rows = ('E', cell(lines), ('pos', r2['site']), 'get1')
        if len(xs) != 3 or xs[0] != ELL or xs[1] != rows or slice_of(xs[2]) != (ZERO, None):
            return ['block is cut at %s' % [fmt(y, 4) for y in xs]]
        v = strip_copies(o[1][0])
    if v[0] != 'get' or v[2] != ('f', 'get%d' % k):
        return ['block is %s' % fmt(v, 4)]
    o = opcall(v[1])
    if not o or short(o[0]) not in made or o[1][0] != cell('get0'):
        return ['decomposes %s' % fmt(v[1], 5)]
    want = [P[1:]]
    flags = [truth(y) for y in o[1][1:]]
    if q == 'svd' and (o[0].split('::')[-1] != 'svd' or flags != P[1:]):
        return ['svd with options %s' % [fmt(y, 4) for y in o[1][1:]]]
    return []


def truth(t):
    while t[0] in ('call', 'op') and 'operator bool' in t[1] and len(t[2]) == 1 or t[0] == 'get' and t[2][1] == 'value':
        t = t[2][0] if t[0] != 'get' else t[1]
    return t


def shape(R, X, L, G, rank, ob, q, name, x, s, P):
    S = Shapes(R, s, X)
    r = S(x)
    ob('shape of %s is made from that of the tensor and a bond' % name, r, 'is %s' % fmt(x, 6))
    if not r:
        return
    d, rule, ty = merged(r[0]), r[1], r[2]
    one = lambda t, k: add(t, ('c', k))
    outer = (X, ZERO, one(rank, -2))
    want = {'U': [(X, ZERO, one(rank, -1), '')], 'd': [outer + ('neutral',)], 'V': [outer + ('neutral',), (X, one(rank, -1), ONE, 'inverse')]}[name]
    ob('dimensions of %s' % name, d[:-1] == want, 'are %s' % [(fmt(p[0], 2), fmt(p[1], 3), fmt(p[2], 3), p[3]) for p in d[:-1]])
    ob('selection rule of %s' % name, rule == ('own' if name == 'U' else 'neutral'), 'is %s' % (rule,))
    bd = d[-1] if d and d[-1][0][0] == 'bond' else None
    if name == 'd':
        types = ty and [short(y[1]) for y in subterms(ty) if len(y) > 2 and y[0] in ('call', 'op')]
        ob('d holds real numbers of the precision of the tensor', types and 'toValueType' in types and any(len(y) > 2 and y == ('get', X, ('f', '_options')) for y in subterms(ty)), 'is %s' % (ty and fmt(ty, 4)))
    ob('last dimension of %s is the bond' % name, bd and canon(R.N(bd[0][3])) == G, 'is %s' % (d and fmt(d[-1][0], 3)))
    if not bd:
        return
    _, cv, sz, cnt = bd[0]
    mod = bd[3]
    e = per_group(R, cv, L, G)
    ob('bond of %s: one quantity per group' % name, e, 'quantities are %s' % fmt(cv, 4))
    if e:
        bad = []
        for it, fs, v in e:
            inv = False
            while v[0] in ('call', 'op') and short(v[1]) == 'inverse' and len(v[2]) == 1:
                inv, v = not inv, strip_copies(v[2][0])
            if mod == 'inverse':
                inv = not inv
            col = ('E', ('E', L, ('pos', it), 'get3'), ZERO, 'get0')
            if name != 'd' and (inv or v[:2] != ('call', BTQ + 'section_conserved_qtt') or v[2] != (X, one(rank, -1), col)):
                bad.append('is %s of %s' % ('inverse' if inv else 'value', fmt(v, 6)))
        ob('bond of %s carries the quantity of the columns of the group' % name, not bad, '; '.join(bad[:2]))
    e = per_group(R, sz, L, G)
    ob('bond of %s: one size per group' % name, e, 'sizes are %s' % fmt(sz, 4))
    if e:
        bad = []
        for it, fs, v in e:
            b = ('E', L, ('pos', it), 'get0')
            rows, cols = extents(R, b, 2), extents(R, b, 1)
            if q == 'eigh':
                ok = v in rows + cols
            else:
                some = {truth(y): val for (k, y), val in fs.items() if k == 'eq0'}.get(P[1])
                if some is True:
                    continue
                ok = some is False and v[:2] == ('call', 'std::min') and len(v[2]) >= 2 and {True} == {any(y in c for y in v[2][:2]) for c in (rows, cols)}
                ok = ok or some is False and minimum(fs, v, rows, cols)
            if not ok:
                bad.append('is %s' % fmt(v, 6))
        ob('bond of %s: as many values as the decomposition of the group has' % name, not bad, '; '.join(bad[:2]))


def minimum(fs, v, rows, cols):
    """v is the smaller of the extents under the facts"""
    a, b = (rows, cols) if v in rows else (cols, rows) if v in cols else (None, None)
    if a is None:
        return False
    for (k, d), val in fs.items():
        if k == 'lt0' and (not val and any(d == sub(y, v) for y in b) or val and any(d == sub(v, y) for y in b)):
            return True
    return False


def extents(R, b, k):
    S = ('op', 'sizes', (b,))
    r = [('at', S, sub(('call', 'size', (S,)), ('c', k))), ('op', 'size', (b, ('c', -k))), ('at', S, sub(('op', 'dim', (b,)), ('c', k))),
         ('at', S, ('c', -k))]
    return [canon(R.N(x)) for x in r]


def per_group(R, t, L, G):
    """[(loop, facts, element)] when the list has one element per group, written in a loop over the groups"""
    t = strip_copies(t)
    if t[0] != 'phi' or t not in R.I.phirec:
        return None
    rec = R.I.phirec[t]
    it = ('iter', rec['site'])
    i = strip_copies(rec['init'].get(t, t))
    if not whole(R, rec, G) or any(e[2].get(t, t) != t for e in rec['exits']):
        return None
    empty = starts_empty(i) if i[0] == 'ctor' and not [y for y in i[2] if not (y[0] == 'ctor' and 'allocator' in y[1])] else False
    if not empty:
        if i[0] != 'ctor' or not i[2] or canon(R.N(i[2][0])) != G:
            return None
    out = []
    for e in rec['ends']:
        v = e[2].get(t, t)
        ps = peel(v, t)
        fs = {(k, canon(R.N(d))): val for (k, d), val in e[1].items()}
        if ps and len(ps) == 1 and ps[0][0] == 'idx' and canon(R.N(ps[0][1])) == it and not empty:
            out.append((rec['site'], fs, strip_copies(canon(R.N(ps[0][2])))))
        elif empty and v[0] == 'mut' and short(v[1]) in ('push_back', 'emplace_back') and v[3][0] == t and len(v[3]) == 2:
            out.append((rec['site'], fs, strip_copies(canon(R.N(v[3][1])))))
        else:
            return None
    return out or None


def flags_on(a):
    return all(x == ONE or x[0] == 'ctor' and len(x[2]) == 1 and x[2][0] == ONE for x in a)


def split_rule(ctx, F):
    n = 0
    for q, k in (('svd', {'U': 0, 'd': 1, 'V': 2}), ('eigh', {'d': 0, 'U': 1})):
        fns = [f for f in F.q(LAQ + q) if len(f.params) == 2 and 'unsigned long' in f.ptypes()[1]]
        ctx.need([f for f in fns if 'btensor' in f.ptypes()[0]] and [f for f in fns if 'Tensor' in f.ptypes()[0]], q)
        for fn in fns:
            n += 1
            (split_blocks if 'btensor' in fn.ptypes()[0] else split_dense)(ctx, F, fn, q, k)
    return n


def split_blocks(ctx, F, fn, q, at):
    R = run(F, fn)
    w = W(fn)
    ob = lambda nm, ok, why='': ctx.ob('%s of a block tensor at a split: %s' % (q, nm), bool(ok), w, why)
    T, SP = (('sym', p['n']) for p in fn.params)
    rank = ('get', T, ('f', 'rank'))
    rets = [(s, canon(R.val(s, v))) for s, k, v in R.outs if k == 'return']
    ob('returns its factors', rets and not R.throws() and all(v[0] == 'tuple' and len(v[1]) == len(at) for _, v in rets), 'returns %s' % [fmt(v, 3) for _, v in rets])
    for s, v in rets:
        if v[0] != 'tuple' or len(v[1]) != len(at):
            continue
        d = strip_copies(v[1][at['d']])
        c = d[1] if d[0] == 'get' and d[2] == ('f', 'get%d' % at['d']) else None
        o = opcall(c) if c else None
        ok = o and c[1] == LAQ + q and flags_on(o[1][1:]) and o[1][0][:1] == ('call',) and short(o[1][0][1]) == 'reshape' and o[1][0][2][0] == T \
            and Seq(R, s)(o[1][0][2][1]) == [('one', SP)] and 'overwrite' not in repr(o[1][0][2][2:])
        ob('decomposes the matrix of the first dimensions and the others', ok, 'd is %s' % fmt(d, 5))
        if not ok:
            continue
        for name in [x for x in at if x != 'd']:
            x = strip_copies(v[1][at[name]])
            f = ('get', c, ('f', 'get%d' % at[name]))
            good = x[0] == 'call' and short(x[1]) == 'reshape_as' and x[2][0] == f
            S = Shapes(R, s, T, {f: ('c', 2)})(x[2][1]) if good else None
            lo, n, m = (ZERO, SP, '') if name == 'U' else (SP, sub(rank, SP), 'inverse')
            ob('dimensions of the tensor are back in %s, then the bond' % name, S and merged(S[0]) == [(T, lo, n, m), (f, ONE, ONE, '')],
               'has %s' % (S and [(fmt(p[0], 1), fmt(p[1], 3), fmt(p[2], 3), p[3]) for p in merged(S[0])] or fmt(x, 4)))


def split_dense(ctx, F, fn, q, at):
    R = run(F, fn)
    w = W(fn)
    ob = lambda nm, ok, why='': ctx.ob('%s of a torch tensor at a split: %s' % (q, nm), bool(ok), w, why)
    A, SP = (('sym', p['n']) for p in fn.params)
    S = ('op', 'sizes', (A,))
    left, right = ('run', S, ZERO, SP), ('run', S, SP, sub(('call', 'size', (S,)), SP))
    rets = [(s, canon(R.val(s, v))) for s, k, v in R.outs if k == 'return']
    ob('returns its factors', rets and all(v[0] == 'tuple' and len(v[1]) == len(at) for _, v in rets), 'returns %s' % [fmt(v, 3) for _, v in rets])

    def prods(t, s):
        """the pieces a number is the product of"""
        return Seq(R, s)(t[2][0]) if t[0] == 'call' and t[1] == LAQ + 'prod' and len(t[2]) == 1 else None
    if q == 'eigh':
        def square(s):
            for (k, d), v in s.facts.items():
                c, m = aff(canon(R.N(d)))
                if k == 'eq0' and c == 0 and len(m) == 2 and sorted(m.values()) == [-1, 1]:
                    p = [prods(y, s) for y in m]
                    if [left] in p and [right] in p:
                        return v
            return None
        ob('only square matrices', [square(s) for s, k, v in R.outs if k == 'return'] in ([True],) and {square(s) for s, k, v in R.outs if k == 'throw'} == {False},
           'returns when square is %s' % [square(s) for s, k, v in R.outs])
    else:
        ob('accepts every matrix', not R.throws())
    for s, v in rets:
        if v[0] != 'tuple' or len(v[1]) != len(at):
            continue
        d = strip_copies(v[1][at['d']])
        c = d[1] if d[0] == 'get' and d[2] == ('f', 'get%d' % at['d']) else None
        o = opcall(c) if c else None
        ok = bool(o and short(o[0]) == q and (q != 'svd' or o[0] == 'svd' and flags_on(o[1][1:])))
        r = opcall(o[1][0]) if ok else None
        rows = r[1][1] if r and r[0] in ('reshape', 'view') and r[1][0] == A else None
        ok = rows and rows[0] == 'list' and len(rows[1]) == 2 and [prods(y, s) for y in rows[1]] in ([[left], [right]],) or \
            rows and rows[0] == 'list' and len(rows[1]) == 2 and (rows[1][0] == ('c', -1) and prods(rows[1][1], s) == [right] or rows[1][1] == ('c', -1) and prods(rows[1][0], s) == [left])
        ob('decomposes the matrix of the first dimensions and the others', ok, 'd is %s' % fmt(d, 6))
        if not ok:
            continue
        for name in [x for x in at if x != 'd']:
            x = opcall(strip_copies(v[1][at[name]]))
            f = ('get', c, ('f', 'get%d' % at[name]))
            p = Seq(R, s)(x[1][1]) if x and x[0] in ('reshape', 'view') and x[1][0] == f else None
            DS = ('op', 'sizes', (d,))
            bond = p and (p[1:] == [('run', DS, ZERO, ('call', 'size', (DS,)))] or len(p) == 2 and p[1][0] == 'one' and p[1][1] in (('c', -1), ('op', 'size', (d, ZERO)), ('op', 'size', (d, ('c', -1))), ('at', DS, ZERO), ('op', 'numel', (d,))))
            ob('dimensions of the tensor are back in %s, then the bond' % name, p and bond and p[0] == (left if name == 'U' else right),
               'has %s' % (p and [fmt(y[1], 4) for y in p],))


A_, B_ = ('sym', '#A'), ('sym', '#B')


def lambdas(t):
    return [y for y in subterms(t) if len(y) > 2 and y[0] == 'lam']


def outcomes(R, lam, st, n=2):
    """[(literals of the call alone, result)] of a function object on two unknown arguments"""
    I = R.I
    s0 = st.copy()
    s0.env[('p', 'A')], s0.env[('p', 'B')] = A_, B_
    known = set(s0.facts)
    I.opaque = False
    try:
        m = len(I.loops)
        outs = I.call_value(s0, lam, [('l', (('p', 'A'), ())), ('l', (('p', 'B'), ()))][:n], {'l': 0, 'a': []})
    finally:
        I.opaque = True
    for r in I.loops[m:]:
        t = trip(I, R.N, r)
        if t:
            R.trips[('iter', r['site'])] = t if isinstance(t, set) else {t}
    res = []
    for s, v in outs:
        L = lits(R.N, {k: x for k, x in s.facts.items() if k not in known})
        v = R.N(strip_copies(v))
        if v[0] == 'c':
            res.append((L, v[1] != 0))
        else:
            for z in (False, True):
                if L.get(('eq0', v), z) is z:
                    res.append(({**L, ('eq0', v): z}, not z))
    return res


class Worlds:
    """truth of a function object of two blocks when their other indices and the quantities of row and column compare as given:
    a world is (other indices equal, row relation, column relation) with relations '<', '=' and '>'"""
    # with equal other indices the selection rule leaves one quantity to the columns for each of the rows
    ALL = [(o, r, c) for o in (True, False) for r in '<=>' for c in '<=>' if not o or (r == '=') == (c == '=')]

    def __init__(self, R, X):
        self.R, self.X, self.memo = R, X, {}
        self.rank = ('get', X, ('f', 'rank'))

    def qtt(self, t):
        """(argument, 1 for columns and 2 for rows) when the term is the quantity of a block's last section"""
        t = strip_copies(t)
        if t[0] != 'deref':
            return None
        c, m = aff(t[1])
        start = [a for a, k in m.items() if k == 1 and a[0] == 'get' and a[2] == ('f', 'get0') and a[1][:1] == ('call',) and short(a[1][1]) == 'section_conserved_qtt_range']
        at = [a for a, k in m.items() if k == 1 and a[0] == 'at']
        if c or len(m) != 2 or len(start) != 1 or len(at) != 1 or start[0][1][2][0] != self.X:
            return None
        o = at[0][1]
        who = o if o in (A_, B_) else o[1] if o[0] == 'get' and o[2] in (('f', 'get0'), ('f', 'first')) and o[1] in (A_, B_) else None
        for k in (1, 2):
            if who and start[0][1][2][1] == sub(self.rank, ('c', k)) and self.last(at[0][2], o, k):
                return who, k
        return None

    def last(self, pos, o, k):
        return pos in (sub(self.rank, ('c', k)), sub(('call', 'size', (o,)), ('c', k)))

    def value(self, d, world):
        """number or truth of a term in a world; None when it says nothing about it"""
        d = strip_copies(d)
        if d[0] == 'c':
            return d[1]
        if d[0] == 'bin' and d[1] in ('|', '&') and len(d) == 4:
            x, y = self.value(d[2], world), self.value(d[3], world)
            if None in (x, y):
                return None
            return int(bool(x) or bool(y)) if d[1] == '|' else int(bool(x) and bool(y))
        if d[0] in ('call', 'op') and short(d[1]) in REL and len(d[2]) == 2:
            x, y = self.qtt(d[2][0]), self.qtt(d[2][1])
            if x and y and x[1] == y[1] and x[0] != y[0]:
                r = world[3 - x[1]]
                r = {'<': '>', '>': '<', '=': '='}[r] if x[0] == B_ else r
                return int(r in REL[short(d[1])])
        if d[0] == 'call' and d[1] == 'std::equal' and len(d[2]) >= 3:
            h, e, g = (Seq(self.R).head(y) for y in d[2][:3])
            who = {('p', 'A'): A_, ('p', 'B'): B_}
            if h and h == e and g and h[2] == g[2] == () and {h[1], g[1]} == set(who) and sub(d[2][0], h) == ZERO and sub(d[2][2], g) == ZERO and sub(d[2][1], e) in self.ends(who[h[1]]):
                return int(world[0])
        return None

    def ends(self, o):
        return sub(self.rank, ('c', 2)), sub(('call', 'size', (o,)), ('c', 2))

    def others(self, L):
        """True or False when the literals tell whether all entries but the last two are equal"""
        R = self.R
        for (k, d), v in L.items():
            e = self.entries(d)
            if k == 'eq0' and e and v is False:
                return False
        for n in {n for o in (A_, B_) for n in self.ends(o)}:
            r, _ = for_all(R, L, n, lambda R, L, it: next((v for (k, d), v in L.items() if k == 'eq0' and self.entries(d) == it), None))
            if r is not None:
                return r
        if any(k == 'lt0' and v is False and d == sub(('c', 2), self.rank) for (k, d), v in L.items()):
            return 'none'
        return None

    def entries(self, d):
        """counter of the entries the two arguments are compared at"""
        c, m = aff(canon(d))
        if c == 0 and len(m) == 2 and sorted(m.values()) == [-1, 1]:
            x, y = sorted(m, key=repr)
            if x[0] == y[0] == 'at' and {x[1], y[1]} == {A_, B_} and x[2] == y[2] and x[2][0] == 'iter':
                return x[2]
            if x[0] == y[0] == 'E' and {x[1], y[1]} == {A_, B_} and x[2:] == y[2:] and len(x) == 3:
                return ('iter', x[2][1])
        return None

    def call(self, lam, world, st, swap=False):
        """result of the function object in a world: True, False, or None when it is not known"""
        key = (lam, st is None)
        if key not in self.memo:
            self.memo[key] = outcomes(self.R, lam, st)
        got = set()
        for L, v in self.memo[key]:
            o = self.others(L)
            ok = o is None or o == 'none' or o == world[0]
            for (k, d), x in L.items():
                t = self.value(d, world) if k == 'eq0' else None
                if t is not None and (t == 0) != x:
                    ok = False
            if ok:
                got.add(v)
        return got.pop() if len(got) == 1 else None


REL = {'operator==': '=', 'operator!=': '<>', 'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>='}


def predicate(d):
    """(function object, first, second) of the result of calling a function object of two arguments"""
    if d[0] == 'call' and (short(d[1]) == 'operator()' or d[1] == '#same') and len(d[2]) == 3:
        return d[2]
    return None


def group_rule(ctx, F):
    sorted_rule(ctx, F)
    runs_rule(ctx, F)
    count_rule(ctx, F)
    return 1


def sorted_rule(ctx, F):
    fns = F.q(H + 'reorder_by_cvals')
    ctx.need(fns, 'reorder_by_cvals')
    for fn in fns:
        R = run(F, fn)
        X = ('sym', fn.params[0]['n'])
        ob = lambda nm, ok, why='': ctx.ob('blocks ordered by the sector of the matrix they belong to: ' + nm, bool(ok), W(fn), why)
        rets = [(s, strip_copies(value(R.I, s, v))) for s, k, v in R.outs if k == 'return']
        for s, v in rets:
            while v[0] == 'ctor' and len(v[2]) == 1:
                v = strip_copies(v[2][0])
            ok = v[0] == 'mut' and v[1] == 'std::stable_sort' and len(v[3]) == 4
            ob('equal sectors keep the order of the block list', ok, 'returns %s' % fmt(v, 4))
            if not ok:
                continue
            old, b, e, lam = v[3]
            h = Seq(R).head(b)
            ob('all of them', h and sub(b, h) == ZERO and (sub(e, h) == ('call', 'size', (strip_copies(old),)) or at_end(R, e, old)), 'sorts %s to %s' % (fmt(b, 4), fmt(e, 4)))
            src = strip_copies(old)
            sp = span(R, src[2][0], src[2][1]) if src[0] == 'ctor' and len(src[2]) >= 2 else None
            ob('of the tensor', src == ('get', X, ('f', 'blocks_list')) or sp and sp[0] == ('get', X, ('f', 'blocks_list')) and sp[1] == ZERO and sp[2] == ('call', 'size', (sp[0],)), 'sorts %s' % fmt(src, 6))
            Wd = Worlds(R, X)
            got = {(r, c): Wd.call(lam, (True, r, c), s) for r in '<=>' for c in '<=>'}
            orders = [{w: w[k] == up for w in got} for k in (0, 1) for up in '<>']
            for first in (0, 1):
                for up in ('<', '>'):
                    for up2 in ('<', '>'):
                        orders.append({w: w[first] == up or w[first] == '=' and w[1 - first] == up2 for w in got})
            ob('one quantity after the other', got in orders, 'a block comes first when the quantities of row and column compare as %s' % sorted(w for w in got if got[w] or got[w] is None))


def runs_rule(ctx, F):
    fns = F.q(H + 'compact_dense')
    ctx.need(fns, 'compact_dense')
    for fn in fns:
        R = run(F, fn)
        N = R.N
        X = ('sym', fn.params[0]['n'])
        ob = lambda nm, ok, why='': ctx.ob('matrices of a block tensor: ' + nm, bool(ok), W(fn), why)
        L = ('call', H + 'reorder_by_cvals', (X,))
        n = ('call', 'size', (L,))
        st = R.outs[0][0]
        Wd = Worlds(R, X)
        some = False
        for rec in R.I.loops:
            if rec['depth'] != 1 or not rec['ends']:
                continue
            groups(R, rec, ob, L, n, Wd, st)
            some = True
        ob('found by one pass over the ordered blocks', some)
        for s, k, v in R.outs:
            if k == 'return':
                v = strip_copies(value(R.I, s, v))
                ob('all are returned', v[0] == 'phi' and v in R.I.phirec, 'returns %s' % fmt(v, 4))


def groups(R, rec, ob, L, n, Wd, st):
    N = R.N
    it = ('iter', rec['site'])
    phis = list(rec['init'])

    def single(v):
        v = strip_copies(v)
        return v if v[0] == 'call' and v[1] == H + 'compact_dense_single' else None
    lists = [p for p in phis for e in rec['ends'] if any(len(y) > 2 and single(y) for y in subterms(e[2].get(p, p)))]
    if len(set(lists)) != 1:
        return ob('one list of matrices', False, 'found %d' % len(set(lists)))
    out = lists[0]
    # where the current group starts: the iterator that is only moved when a group is written
    base = [p for p in phis if p != out and any(y == p for e in rec['ends'] for y in subterms(e[2].get(out, out))) and Seq(R).head(N(rec['init'][p])) is not None and
            any(single(y) and y[2][0] == p for e in rec['ends'] for y in subterms(e[2].get(out, out)) if len(y) > 2)]
    if len(base) != 1:
        return ob('every matrix starts at the first block of its group', False)
    start = base[0]
    i0 = N(rec['init'][start])
    h = Seq(R).head(i0)
    ob('the first group starts at the first block', sub(i0, h) == ZERO, 'starts at %s' % fmt(i0, 4))
    nxt = add(add(h, it), ONE)
    first = sub(start, h)
    bad = []
    for w in Wd.ALL:
        for end in (True, False):
            for e in rec['ends']:
                hold, why = True, ''
                for (k, d), v in lits(N, e[1]).items():
                    d = canon(d)
                    if k == 'eq0' and d in (sub(sub(n, it), ONE), add(sub(it, n), ONE)):
                        hold &= v == end
                    elif k == 'lt0' and d in (add(sub(it, n), ONE),):
                        hold &= v != end
                    p = predicate(d)
                    if p and k == 'eq0':
                        cell = lambda pos: ('E', L, pos, 'get0')
                        a, b = cell(first), [cell(add(it, ONE)), cell(('pos', it[1]))]
                        if p[1] == a and p[2] in b[:1] or p[2] == a and p[1] in b[:1]:
                            x = Wd.call(p[0], w, st)
                            if x is None:
                                why = 'what %s tells is not known' % fmt(p[0], 2)
                            hold &= x is None or (not x) == v
                        else:
                            why = 'compares blocks %s and %s' % (fmt(p[1], 5), fmt(p[2], 5))
                if not hold:
                    continue
                if why:
                    bad.append(why)
                    continue
                same = w == (True, '=', '=')
                nv = e[2].get(out, out)
                ns = N(e[2].get(start, start))
                if nv == out and ns == start:
                    if end:
                        bad.append('the last group is lost')
                    elif not same:
                        bad.append('blocks of different matrices are put together: %s' % why_world(w))
                    continue
                if ns == start or ns != nxt:
                    bad.append('the next group starts at %s' % fmt(ns, 4))
                if not end and same:
                    bad.append('a matrix is split in two')
                c = [single(y) for y in subterms(nv) if len(y) > 2 and single(y)]
                if not c or any(y[2][0] != start or N(y[2][1]) != nxt for y in c):
                    bad.append('a matrix is made of blocks %s' % [fmt(y[2], 4) for y in c])
                ps = peel(nv, out)
                if ps and len(ps) == 1 and ps[0][0] == 'idx':
                    pos = [p for p in phis if p not in (out, start) and N(e[2].get(p, p)) == add(p, ONE) and Seq(R).head(rec['init'][p]) == rec['init'][p] and
                           N(ps[0][1]) == sub(p, rec['init'][p])]
                    if not pos:
                        bad.append('matrices are written at %s' % fmt(ps[0][1], 4))
                    elif any(e2[2].get(out, out) == out and e2[2].get(pos[0], pos[0]) != pos[0] for e2 in rec['ends']):
                        bad.append('entries of the list are skipped')
                elif not (nv[0] == 'mut' and short(nv[1]) in ('push_back', 'emplace_back') and nv[3][0] == out):
                    bad.append('stored as %s' % fmt(nv, 4))
    ob('consecutive blocks with equal other indices and equal quantities, and no others', not bad, '; '.join(sorted(set(bad))[:3]))
    over = {('eq0', sub(add(h, n), start)), ('eq0', sub(start, add(h, n)))}
    ob('all blocks are in one', rec['exits'] and all(any(lits(N, e[1]).get(k) is True for k in over) or through(R, lits(N, e[1]), it, sub(n, ONE)) or through(R, lits(N, e[1]), it, n) for e in rec['exits'])
       and not rec.get('rets'), 'the pass ends with %s' % [fmt(d, 4) for e in rec['exits'] for (k, d) in lits(N, e[1])][:3])
    i = strip_copies(rec['init'][out])
    if i[0] == 'ctor' and i[2] and not (len(i[2]) == 1 and 'allocator' in repr(i[2][0])):
        c = strip_copies(i[2][0])
        lam = {p[0] for e in rec['ends'] for (k, d) in lits(N, e[1]) for p in [predicate(canon(d))] if p}
        ok = c[0] == 'call' and c[1].startswith(H + 'compact_tensor_count') and c[2][0] == L and lam <= {N(y) for y in c[2]} | set(c[2])
        ob('as many as there are groups', ok, 'the list has %s' % fmt(c, 4))


def why_world(w):
    return 'other indices %s, row quantities %s, column quantities %s' % ('equal' if w[0] else 'differ', *('equal' if x == '=' else 'differ' for x in w[1:]))


def count_rule(ctx, F):
    fns = F.q(H + 'compact_tensor_count')
    for fn in fns:
        R = run(F, fn)
        N = R.N
        X = ('sym', fn.params[0]['n'])
        n = ('call', 'size', (X,))
        ob = lambda nm, ok, why='': ctx.ob('number of matrices: ' + nm, bool(ok), W(fn), why)
        for s, k, v in R.outs:
            L = lits(N, s.facts)
            if k != 'return' or any(d[0] == 'c' and kk == 'eq0' and (d[1] == 0) != val for (kk, d), val in L.items()):
                continue
            v = N(strip_copies(value(R.I, s, v)))
            empty = L.get(('eq0', n))
            if empty is True:
                ob('none without blocks', v == ZERO, 'is %s' % fmt(v, 4))
                continue
            c, m = aff(v)
            ph = [a for a in m if a[0] == 'phi' and a in R.I.phirec]
            ok = empty is False and c == 1 and len(m) == 1 and len(ph) == 1 and m[ph[0]] == 1 and N(R.I.phirec[ph[0]]['init'][ph[0]]) == ZERO
            ob('one more than there are changes of group', ok, 'is %s' % fmt(v, 4))
            if not ok:
                continue
            rec = R.I.phirec[ph[0]]
            it = ('iter', rec['site'])
            ob('every pair of consecutive blocks is looked at', whole(R, rec, sub(n, ONE)), 'runs %s' % [fmt(t, 4) for t in R.trips.get(it, ())])
            bad = []
            lam = {p['n'] for p in fn.params} - {fn.params[0]['n']}
            used = set()
            for e in rec['ends']:
                vals = []
                for (kk, d), val in lits(N, e[1]).items():
                    p = predicate(canon(d))
                    if not p or kk != 'eq0':
                        continue
                    cell = lambda pos: ('E', X, pos, 'get0')
                    if {p[1], p[2]} != {cell(('pos', it[1])), cell(add(it, ONE))}:
                        bad.append('compares %s and %s' % (fmt(p[1], 4), fmt(p[2], 4)))
                    used.add(p[0])
                    vals.append((p[0], not val))
                step = sub(N(e[2].get(ph[0], ph[0])), ph[0])
                if step == ZERO and (len(vals) < 2 or not all(x for _, x in vals)):
                    bad.append('no change although the blocks differ')
                if step != ZERO and (step != ONE or all(x for _, x in vals)):
                    bad.append('%s more between blocks of one matrix' % fmt(step, 2))
            ob('a change is a pair of blocks that differ', not bad and len(used) == 2, '; '.join(bad[:2]))


class Group:
    """the blocks from `start` to `end` of an ordered list that make one matrix"""

    def __init__(self, R, fn, ob):
        self.R, self.N, self.ob = R, R.N, ob
        self.start, self.end = (('sym', p['n']) for p in fn.params)

    def offset(self, b):
        """which block: its distance from the first"""
        b = strip_copies(b)
        if b[0] != 'deref':
            return None
        d = sub(b[1], self.start)
        return d if not any(y == self.start for y in subterms(d)) else None

    def rank_minus(self, pos):
        """k when the position is the number of dimensions minus k"""
        c, m = aff(pos)
        if len(m) == 1:
            a, k = next(iter(m.items()))
            if k == 1 and a[0] == 'call' and a[1] == 'size' and (self.part(a[2][0], 'get0') is not None or a[2][0][:2] == ('op', 'sizes') and self.part(a[2][0][2][0], 'get1') is not None):
                return -c
            if k == 1 and a[:2] == ('op', 'dim') and self.part(a[2][0], 'get1') is not None:
                return -c
        return -c if not m and c < 0 else None

    def part(self, t, f):
        return self.offset(t[1]) if t[0] == 'get' and t[2] == ('f', f) else None

    def index(self, t):
        """(block, k): block index of a block along the k-th last dimension"""
        if t[0] == 'at' and self.part(t[1], 'get0') is not None:
            k = self.rank_minus(t[2])
            return (self.part(t[1], 'get0'), k) if k is not None else None
        return None

    def extent(self, t):
        if t[0] == 'at' and t[1][:2] == ('op', 'sizes') and self.part(t[1][2][0], 'get1') is not None:
            k = self.rank_minus(t[2])
            return (self.part(t[1][2][0], 'get1'), k) if k is not None else None
        if t[:2] == ('op', 'size') and len(t[2]) == 2 and is_c(t[2][1]) and t[2][1][1] < 0 and self.part(t[2][0], 'get1') is not None:
            return self.part(t[2][0], 'get1'), -t[2][1][1]
        return None

    def difference(self, d):
        """literal about a - b as the two sides"""
        c, m = aff(d)
        if c == 0 and len(m) == 2 and sorted(m.values()) == [-1, 1]:
            return sorted(m, key=lambda a: m[a])
        return None

    def over_blocks(self, rec):
        return not rec.get('rets') and {canon(t) for t in self.R.trips.get(('iter', rec['site']), ())} >= {sub(self.end, self.start)}

    def slice(self, t):
        t = strip_copies(t)
        if t[0] == 'ctor' and t[1] == 'at::indexing::Slice' and len(t[2]) >= 2:
            return self.N(t[2][0]), self.N(t[2][1])
        return None

    def pushed(self, v, t):
        """(position or None, index, slice) of an element added to a list"""
        v = strip_copies(v)
        n = short(v[1]) if v[0] == 'mut' else ''
        if n in ('emplace_back', 'push_back', 'emplace', 'insert') and v[2] == 'obj' and v[3][0] == t:
            a = list(v[3][1:])
            pos = a.pop(0) if n in ('emplace', 'insert') else None
            if len(a) == 1:
                x = strip_copies(a[0])
                a = list(x[1]) if x[0] in ('tuple', 'pair') else list(x[2]) if x[0] == 'ctor' and len(x[2]) == 2 else a
            if len(a) == 2:
                return pos, canon(self.N(strip_copies(a[0]))), a[1]
        return None

    def lines(self, t, k):
        """[problems], the total extent as a term of a loop or None"""
        R, N = self.R, self.N
        t = strip_copies(t)
        if t[0] != 'phi' or t not in R.I.phirec:
            return ['are %s' % fmt(t, 4)], None
        rec = R.I.phirec[t]
        i = strip_copies(rec['init'].get(t, t))
        if i[0] == 'phi' and i in R.I.phirec:
            return self.numbered(t, rec, i, k)
        bad = self.listed(t, rec, k, True)
        return bad

    def numbered(self, t, rec, inner, k):
        """the places are given afterwards, in the order of the list"""
        N = self.N
        it = ('iter', rec['site'])
        bad, acc = [], None
        if not whole(self.R, rec, ('call', 'size', (inner,))) and not whole(self.R, rec, ('call', 'size', (t,))):
            bad.append('not all get a place')
        for e in rec['ends']:
            ps = peel(e[2].get(t, t), t)
            v = ps[0] if ps and len(ps) == 1 and ps[0][0] == 'idx' and canon(N(ps[0][1])) == it else None
            v = v and strip_copies(v[2])
            old = ('at', t, it)
            f = dict(v[2]) if v and v[0] == 'upd' and canon(N(v[1])) == old else {}
            sl = self.slice(f[('f', 'get1')]) if set(f) == {('f', 'get1')} else None
            if not sl:
                bad.append('places are %s' % fmt(e[2].get(t, t), 6))
                continue
            a = [p for p in rec['init'] if p != t and sl[0] == p]
            stop = sub(sl[1], sl[0])
            own = ('E', t, ('pos', rec['site']), 'get1')
            if not a or N(rec['init'][a[0]]) != ZERO or canon(stop) != ('op', 'indexing::Slice::stop', (own,)) and canon(N(stop)) != N(('op', 'indexing::Slice::stop', (own,))):
                bad.append('a place is %s to %s' % (fmt(sl[0], 3), fmt(sl[1], 5)))
                continue
            acc = a[0]
            if N(e[2].get(acc, acc)) != sl[1]:
                bad.append('the next place starts at %s' % fmt(N(e[2].get(acc, acc)), 4))
        b2, _ = self.listed(inner, self.R.I.phirec[inner], k, False)
        return bad + b2, acc

    def listed(self, t, rec, k, places):
        R, N = self.R, self.N
        it = ('iter', rec['site'])
        bad, accs, last = [], set(), set()
        if not self.over_blocks(rec):
            bad.append('not all blocks are looked at')
        for e in rec['ends']:
            v = e[2].get(t, t)
            L = {(kk, canon(d)): val for (kk, d), val in lits(N, e[1]).items()}
            p = self.pushed(v, t) if v != t else None
            if v != t and p is None:
                bad.append('changed to %s' % fmt(v, 4))
                continue
            isnew, c = self.new(L, t, it, k)
            if isnew is None:
                bad.append('an index is %s without a look at the list' % ('added' if p else 'left out'))
                continue
            if bool(p) != isnew:
                bad.append('an index is %s' % ('listed twice' if p else 'missing'))
                continue
            if c[0] == 'last':
                last.add(c[1])
                if p and N(e[2].get(c[1], c[1])) != c[2] or not p and N(e[2].get(c[1], c[1])) not in (c[1], c[2]):
                    bad.append('the index looked for is not the last one listed')
            if not p:
                for a in list(accs):
                    pass
                continue
            pos, x, sl = p
            if self.index(x) != (it, k):
                bad.append('lists %s' % fmt(x, 4))
            if c[0] == 'last' and pos is not None and not at_end(R, pos, t) or c[0] == 'place' and (pos is None or canon(N(pos)) != c[1]):
                bad.append('put at %s' % (pos and fmt(pos, 4)))
            sl = self.slice(sl)
            d = sl and sub(sl[1], sl[0])
            if not sl or self.extent(canon(d)) != (it, k):
                bad.append('a place of %s' % (d and fmt(d, 4)))
            elif places:
                accs.add(sl[0])
            elif sl[0] != ZERO:
                bad.append('a place starts at %s' % fmt(sl[0], 4))
        i = strip_copies(rec['init'].get(t, t))
        while i[0] == 'mut' and short(i[1]) == 'reserve':
            i = strip_copies(i[3][0])
        p = self.pushed(i, i[3][0]) if i[0] == 'mut' else None
        if p:
            i = strip_copies(i[3][0])
            while i[0] == 'mut' and short(i[1]) == 'reserve':
                i = strip_copies(i[3][0])
            sl = self.slice(p[2])
            if self.index(p[1]) != (ZERO, k) or not sl or sl[0] != ZERO or self.extent(self.known(sl[1])) != (ZERO, k):
                bad.append('begins with %s' % fmt(p[1], 4))
        if not starts_empty(i):
            bad.append('begins as %s' % fmt(i, 4))
        for c in last:
            c0 = N(rec['init'].get(c, c))
            if p and self.index(canon(c0)) != (ZERO, k) or not p and c0 != ('c', -1):
                bad.append('the index looked for begins as %s' % fmt(c0, 4))
        acc = None
        if places:
            if len(accs) == 1:
                acc = accs.pop()
                bad += self.running(rec, acc, None, t, k, bool(p)) if acc in rec['init'] else ['places start at %s' % fmt(acc, 4)]
            elif not bad:
                bad.append('places start at different totals')
        return bad, acc

    def new(self, L, t, it, k):
        """whether the index of the block is not in the list yet, and how that is known"""
        N = self.N
        for (kk, d), val in L.items():
            if kk != 'eq0':
                continue
            if any(len(y) > 2 and y[:2] == ('call', 'std::lower_bound') for y in subterms(d)):
                lb = next(y for y in subterms(d) if len(y) > 2 and y[:2] == ('call', 'std::lower_bound'))
                if not self.searched(lb, t, it, k):
                    continue
                ends = [a for a, m in aff(d)[1].items() if a == lb]
                if ends and val is True and at_end(self.R, sub(lb, sub(d, ZERO)) if aff(d)[1][lb] == 1 else add(lb, d), t):
                    return True, ('place', lb)
                x = self.difference(d)
                if x and any(self.index(y) == (it, k) for y in x) and any(y == ('get', ('deref', lb), ('f', 'get0')) for y in x):
                    return not val, ('place', lb)
                continue
            x = self.difference(d)
            if x:
                for a, b in (x, x[::-1]):
                    if self.index(a) == (it, k) and b[0] == 'phi' and b[1] == it[1]:
                        return not val, ('last', b, a)
        return None, None

    def searched(self, lb, t, it, k):
        b, e, x, *f = lb[2]
        h = Seq(self.R).head(b)
        if not h or sub(b, h) != ZERO or not at_end(self.R, e, t) or self.index(canon(x)) != (it, k) or len(f) != 1:
            return False
        st = self.R.outs[0][0]
        self.R.I.opaque = False
        o = outcomes(self.R, f[0], st)
        want = sub(('get', A_, ('f', 'get0')), B_)
        return bool(o) and all(L.get(('lt0', want)) is v or L.get(('lt0', sub(ZERO, add(want, ONE)))) is (not v) for L, v in o)

    def running(self, rec, p, j, t, k, begun, like=None):
        """problems with a number that should be the total extent of the listed lines, or follow another that is"""
        N = self.N
        it = ('iter', rec['site'])
        bad = []
        i = rec['init'].get(p, p)
        i = self.known(i if j is None else self.entry(i, j) or p)
        if (self.extent(i) != (ZERO, k)) if begun else i != ZERO:
            bad.append('the total begins at %s' % fmt(i, 4))
        for e in rec['ends']:
            new = like and N(e[2].get(like, like))
            if j is None:
                d = sub(N(e[2].get(p, p)), p)
            else:
                ps = peel(e[2].get(p, p), p)
                if ps is None:
                    return bad + ['the total becomes %s' % fmt(e[2].get(p, p), 4)]
                d = ZERO
                for kind, key, v in ps:
                    if kind == 'idx' and N(key) == j:
                        d = sub(new, like) if new and N(v) == new else sub(N(v), ('at', p, j))
                    elif self.rank_minus(N(key)) in (None, k):
                        return bad + ['the total is overwritten at %s' % fmt(key, 3)]
            if e[2].get(t, t) != t and self.extent(canon(d)) != (it, k) or e[2].get(t, t) == t and d != ZERO:
                bad.append('the total grows by %s with %s' % (fmt(d, 5), 'a new line' if e[2].get(t, t) != t else 'no new line'))
        return bad

    def known(self, t):
        """a number, with the entries of integer vectors resolved"""
        c, m = aff(canon(self.N(t)))
        r = ('c', c)
        for a, n in m.items():
            x = self.entry(a[1], a[2]) if a[0] == 'at' and a[1][0] in ('phi', 'upd') else None
            r = add(r, canon(self.N(x)) if x and x[0] != 'total' else a, n)
        return r

    def entry(self, t, j):
        """value of an entry of an integer vector, or ('total', loop, vector, position)"""
        N = self.N
        t = strip_copies(t)
        if t[0] == 'upd':
            for kk, v in reversed(t[2]):
                if N(kk[1]) == j:
                    return v
                if self.rank_minus(N(kk[1])) is None:
                    return None
            return self.entry(t[1], j)
        if t[0] == 'phi' and t in self.R.I.phirec:
            rec = self.R.I.phirec[t]
            hit = False
            for e in rec['ends']:
                ps = peel(e[2].get(t, t), t)
                if ps is None or any(kind != 'idx' for kind, _, _ in ps):
                    return None
                for _, key, _ in ps:
                    if N(key) == j:
                        hit = True
                    elif self.rank_minus(N(key)) is None and not (N(key) == ('iter', rec['site']) and all(
                            self.rank_minus(y) == 2 for y in self.R.trips.get(('iter', rec['site']), (None,)))):
                        return None
            return ('total', rec, t, j) if hit else self.entry(rec['init'].get(t, t), j)
        if t[0] == 'ctor':
            return ZERO
        return None

    def lower(self, t):
        """pieces of a vector of sizes before its last two entries"""
        N = self.N
        t = strip_copies(t)
        while True:
            if t[0] == 'upd' and all(self.rank_minus(N(kk[1])) in (1, 2) for kk, _ in t[2]):
                t = strip_copies(t[1])
            elif t[0] == 'phi' and t in self.R.I.phirec and all(
                    (peel(e[2].get(t, t), t) is not None and all(self.rank_minus(N(key)) in (1, 2) for _, key, _ in peel(e[2].get(t, t), t)))
                    for e in self.R.I.phirec[t]['ends']):
                t = strip_copies(self.R.I.phirec[t]['init'].get(t, t))
            else:
                break
        return Seq(self.R)(t)


def single_rule(ctx, F):
    fns = F.q(H + 'compact_dense_single')
    ctx.need(fns, 'compact_dense_single')
    for fn in fns:
        R = run(F, fn)
        ob = lambda nm, ok, why='': ctx.ob('matrix of a group of blocks: ' + nm, bool(ok), W(fn), why)
        G = Group(R, fn, ob)
        rets = [(s, canon(R.N(strip_copies(value(R.I, s, v))))) for s, k, v in R.outs if k == 'return']
        ob('returns the matrix, the other indices, its rows and its columns', rets and all(v[0] == 'tuple' and len(v[1]) == 4 for s, v in rets))
        for s, v in rets:
            if v[0] != 'tuple' or len(v[1]) != 4 or any(d[0] == 'c' and kk == 'eq0' and (d[1] == 0) != val for (kk, d), val in lits(R.N, s.facts).items()):
                continue
            one_matrix(R, G, ob, s, *(strip_copies(x) for x in v[1]))
    return len(fns)


def one_matrix(R, G, ob, s, M, others, rows, cols):
    N = R.N
    first = ('deref', G.start)
    idx, blk = ('get', first, ('f', 'get0')), ('get', first, ('f', 'get1'))
    L = lits(N, s.facts)
    rank = ('call', 'size', (idx,))
    two = L.get(('eq0', sub(rank, ('c', 2)))) is True or L.get(('lt0', sub(('c', 2), rank))) is False
    p = Seq(R, s)(others)
    p = p and [('run', idx, *y[2:]) if y[:2] == ('run', ('get', ('sym', ('p', G.start)), ('f', 'get0'))) else y for y in p]
    ob('other indices are those of its first block', p == [('run', idx, ZERO, sub(rank, ('c', 2)))] or two and (p == [] or p is not None and Seq(R).total(p) in (ZERO, sub(rank, ('c', 2)))),
       'are %s' % (p and [fmt(y[1], 4) for y in p],))
    tot = {}
    for what, t, k in (('rows', rows, 2), ('columns', cols, 1)):
        bad, acc = G.lines(t, k)
        tot[k] = acc
        ob('%s: every block index once, in increasing order, with a place after the one before' % what, not bad, '; '.join(sorted(set(bad))[:3]))
    rec = R.I.phirec.get(M)
    ob('every block is put into it', rec and G.over_blocks(rec) and rec['ends'])
    if not rec:
        return
    z = opcall(strip_copies(rec['init'].get(M, M)))
    ok = z and z[0] == 'zeros' and z[1]
    ob('is zero elsewhere', ok, 'begins as %s' % fmt(rec['init'].get(M, M), 4))
    if ok:
        o = opcall(strip_copies(canon(N(z[1][1])))) if len(z[1]) > 1 else None
        ob('has the number type of its blocks', o and o[0] == 'options' and G.part(o[1][0], 'get1') is not None, 'has %s' % [fmt(y, 4) for y in z[1][1:]])
        lo = G.lower(z[1][0])
        S = ('op', 'sizes', (blk,))
        ob('has the other dimensions of its blocks', two or lo and lo[0][:3] == ('run', S, ZERO) and G.rank_minus(lo[0][3]) == 2, 'has %s' % (lo and [fmt(y[1], 4) for y in lo],))
        for what, t, k in (('rows', rows, 2), ('columns', cols, 1)):
            x = G.entry(z[1][0], sub(rank, ('c', k)))
            x = canon(N(x)) if x and x[0] != 'total' else x
            bad = ['is %s' % (x and fmt(x, 3))]
            if x and x == tot[k]:
                bad = []
            elif x and x[0] == 'total' and x[1] is R.I.phirec.get(t):
                bad = G.running(*x[1:], t, k, bool(strip_copies(x[1]['init'][t])[0] == 'mut' and G.pushed(strip_copies(x[1]['init'][t]), strip_copies(x[1]['init'][t])[3][0])), tot[k] if tot[k] in x[1]['init'] else None)
            ob('extent is the total of its %s' % what, not bad, '; '.join(bad[:2]))
    it = ('iter', rec['site'])
    bad = []
    for e in rec['ends']:
        o = opcall(strip_copies(e[2].get(M, M)))
        xs = indices(o[1][1]) if o and o[0] == 'index_put' and len(o[1]) == 3 and o[1][0] == M and o[1][1][0] == 'list' else None
        if not xs or len(xs) != 3 or xs[0] != ELL:
            bad.append('a block is stored by %s' % fmt(e[2].get(M, M), 4))
            continue
        if G.part(strip_copies(canon(N(o[1][2]))), 'get1') != it:
            bad.append('stores %s' % fmt(o[1][2], 4))
        for x, t, k in ((xs[1], rows, 2), (xs[2], cols, 1)):
            w = found(R, G, x, t, e[3], it, k)
            if w:
                bad.append(w)
    ob('a block is stored at the place of its row and column', not bad, '; '.join(sorted(set(bad))[:2]))


def found(R, G, x, t, st, it, k):
    x = strip_copies(x)
    while x[0] == 'ctor' and len(x[2]) == 1:
        x = strip_copies(x[2][0])
    c = x[1][1] if x[0] == 'get' and x[2] == ('f', 'get1') and x[1][0] == 'deref' else None
    if not c or c[0] != 'call' or c[1] not in ('std::find_if', 'std::lower_bound'):
        return 'place %s' % fmt(x, 5)
    h = Seq(R).head(c[2][0])
    v = h and st.env.get(h[1])
    if not v or strip_copies(canon(R.N(v))) != t or sub(c[2][0], h) != ZERO or not at_end(R, c[2][1], v):
        return 'looks for the place in %s' % fmt(c[2][0], 4)
    if c[1] == 'std::lower_bound':
        return '' if G.index(canon(R.N(c[2][2]))) == (it, k) else 'looks for %s' % fmt(c[2][2], 5)
    for L, val in outcomes(R, c[2][2], st, 1):
        ok = False
        for (kk, d), z in L.items():
            p = G.difference(canon(d))
            if kk == 'eq0' and p and any(G.index(y) == (it, k) for y in p) and ('get', A_, ('f', 'get0')) in p and z is val:
                ok = True
        if not ok:
            return 'the place is that of another line'
    return ''


def a17(ctx):
    F = load(['btensor_linalg.cpp', 'LinearAlgebra.cpp'], True)
    ctx.meta = {'groupings': group_rule(ctx, F) + single_rule(ctx, F), 'decompositions': sector_rule(ctx, F), 'splits': split_rule(ctx, F)}
    ctx.assumption('torch: svd, linalg_eigh, zeros, index, index_put_, reshape as documented; std::stable_sort, std::lower_bound, std::find_if')
    ctx.assumption('every block of a tensor satisfies its selection rule and the list of blocks is ordered by index, as other properties state')
