"""Where the sections of a dimension live: lookups, views, enumeration of the blocks (A08)."""
from rules.broadcast import *

GROUPOP = {'operator+', 'operator*', 'operator+=', 'operator*=', 'op', 'op_to'}
LOOKUPS = {BTQ + x for x in ('section_size', 'section_sizes', 'section_conserved_qtt', 'section_conserved_qtt_range', 'section_size_cqtt',
                             'section_cqtts', 'section_sizes_cqtts', 'section_number', 'section_numbers', 'sizes', 'get_cvals', 'dim')} | {'quantit::throw_on_bad_arg_blocks'}


class SN(Norm):
    """Norm that also names sums over a run of a list: ('sum', list, first, last)"""

    def close(self, t):
        if isinstance(t, tuple) and t and t[0] == 'phi' and len(t) == 3 and t in self.I.phirec:
            r = self.run_sum(t)
            if r is not None:
                return r
        return super().close(t)

    def run_sum(self, t):
        """a loop variable that adds up consecutive entries of a list"""
        rec = self.I.phirec[t]
        if t not in rec['init'] or not rec['ends']:
            return None
        it = ('iter', rec['site'])
        got = set()
        for e in rec['ends']:
            d = sub(e[2].get(t, t), t)
            if any(x == t for x in subterms(d)):
                return None
            got.add(self.simp(self.C(self.close(d))))
        if len(got) != 1:
            return None
        x = got.pop()
        if x[0] == 'at':
            o = sub(x[2], it)
            if not any(y == it for y in subterms(o)):
                return add(self.close(rec['init'][t]), ('sum', x[1], o, add(o, it)))
        return None

    def simp(self, t):
        t = super().simp(t)
        if isinstance(t, tuple) and t and t[0] == 'call' and t[1] in ('std::reduce', 'std::accumulate') and len(t[2]) == 3:
            r = self.range(t[2][0], t[2][1])
            if r is not None:
                return add(t[2][2], ('sum',) + r) if r[1] != r[2] else t[2][2]
        if isinstance(t, tuple) and t and t[0] == 'sum' and t[2] == t[3]:
            return ZERO
        return t

    def range(self, b, e):
        c = self.split(b)
        d = self.split(e)
        if c and d and c[0] == d[0]:
            return c[0], c[1], d[1]
        return None

    def split(self, t):
        """iterator -> (container, position)"""
        _, m = aff(t)
        h = [(a, k) for a, k in m.items() if a[0] == 'begin']
        if len(h) != 1 or h[0][1] != 1:
            return None
        return self.simp(self.C.loc(h[0][0][1], h[0][0][2], None)), sub(t, h[0][0])


class Run:
    """one analysed function with closed forms"""

    def __init__(self, F, fn, deep=(), cls=BT, ren=()):
        self.fn = fn
        self.I = I = cls(F, deep)
        self.outs = I.analyse(fn)
        self.C = Canon(I)
        self.N = N = SN(I, self.C, ren)
        byval = {('v', 1, p['d']): ('sym', p['n']) for p in fn.params if p['pk'] not in ('ref', 'cref', 'rref')}
        for root, x in byval.items():       # a by-value parameter nothing is written to is still the argument
            if self.outs and all(s.env.get(root, x) == x for s, k, v in self.outs):
                N.ren.setdefault(('sym', root), x)
        self.trips = {}
        for r in I.loops:
            t = trip(I, N, r)
            if t:
                t = t if isinstance(t, set) else {t}
                self.trips[('iter', r['site'])] = t

    def val(self, s, v):
        return self.fin(self.N(strip_copies(value(self.I, s, v))))

    def fin(self, t, within=()):
        """after their loop, iteration counters are trip counts"""
        def go(t):
            if not isinstance(t, tuple) or not t:
                return t
            if t[0] == 'iter' and t not in within and t in self.trips and len(self.trips[t]) == 1:
                return go(next(iter(self.trips[t])))
            if t[0] == 'aff':
                r = ('c', t[1])
                for a, k in t[2]:
                    r = add(r, go(a), k)
                return r
            if t[0] in ('begin', 'L', 'c', 'iter'):
                return t
            return tuple(go(x) if isinstance(x, tuple) else x for x in t)
        return go(t)

    def lits(self, facts, within=()):
        return {(k, self.fin(d, within)): v for (k, d), v in lits(self.N, facts).items()}

    def rets(self):
        return [(s, self.val(s, v), self.lits(s.facts)) for s, k, v in self.outs if k == 'return']

    def throws(self):
        return [(s, self.lits(s.facts)) for s, k, v in self.outs if k == 'throw']


def known_lt(L, a, b):
    """truth of a < b among the literals"""
    d = sub(a, b)
    if is_c(d):
        return d[1] < 0
    if ('lt0', d) in L:
        return L[('lt0', d)]
    r = sub(ZERO, d)
    if L.get(('lt0', r)) is True or L.get(('eq0', d)) is True or L.get(('eq0', r)) is True:
        return False
    for lit, truth in L.items():     # integers: x < 0 is x <= -1
        if lit[0] != 'lt0':
            continue
        c = sub(lit[1], d)              # (a - b) + c < 0
        if is_c(c) and (truth and c[1] >= 0 or not truth and c[1] <= 0):
            return truth
        c = add(lit[1], d)              # (b - a) + c < 0
        if is_c(c) and (truth and c[1] >= -1 or not truth and c[1] <= -1):
            return not truth
    return None


def fields(x):
    g = lambda f: ('get', x, ('f', f))
    return g('sections_by_dim'), g('sections_sizes'), g('c_vals'), g('rank'), g('selection_rule')


T = ('sym', 'this')
SBD, SIZES, CV, RANK, RULE = fields(T)


def ssum(lo, hi):
    return ('sum', SBD, lo, hi) if lo != hi else ZERO


def lookups(ctx, F):
    """each lookup reads the entry (or run of entries) of the section it was asked for"""
    def arg(fn, i):
        return ('sym', fn.params[i]['n'])

    def ori(d):
        return ssum(ZERO, d)
    one = {'section_size': lambda d, b: ('at', SIZES, add(ori(d), b)), 'section_conserved_qtt': lambda d, b: ('at', CV, add(ori(d), b)),
           'section_size_cqtt': lambda d, b: ('tuple', (('at', SIZES, add(ori(d), b)), ('at', CV, add(ori(d), b)))),
           'section_number': lambda d: ('at', SBD, d), 'section_numbers': lambda: SBD, 'get_cvals': lambda: CV, 'dim': lambda: RANK}
    beg = lambda f: ('begin', ('o', 'this'), (('f', f),))
    rng = lambda f, d: (add(beg(f), ori(d)), add(add(beg(f), ori(d)), ('at', SBD, d)))
    many = {'section_conserved_qtt_range': lambda d: ('tuple', rng('c_vals', d)), 'section_cqtts': lambda d: ('tuple', rng('c_vals', d)),
            'section_sizes': lambda d: ('tuple', rng('sections_sizes', d)), 'section_sizes_cqtts': lambda d: ('tuple', rng('sections_sizes', d) + rng('c_vals', d))}
    bounded = {'section_size', 'section_conserved_qtt', 'section_size_cqtt', 'section_conserved_qtt_range'}
    n = 0
    for name, want in list(one.items()) + list(many.items()):
        fns = F.q(BTQ + name)
        ctx.need(fns, '%s not found' % name)
        for fn in fns:
            n += 1
            R = Run(F, fn, LOOKUPS)
            a = [arg(fn, i) for i in range(len(fn.params))]
            w = W(fn)
            rets = R.rets()
            ctx.ob('%s returns' % name, bool(rets), w, 'no normal outcome')
            for s, v, L in rets:
                ctx.ob('%s: the entry asked for' % name, v == want(*a), w, 'returns %s' % fmt(v, 6))
                if name in bounded:
                    ok = known_lt(L, a[0], RANK) is True and (len(a) < 2 or known_lt(L, a[1], ('at', SBD, a[0])) is True)
                    ctx.ob('%s: out of range is refused' % name, ok, w, 'a request outside the structure is answered')
            for s, L in R.throws():
                ok = known_lt(L, a[0], RANK) is False or len(a) > 1 and known_lt(L, a[1], ('at', SBD, a[0])) is False
                ctx.ob('%s: only out of range is refused' % name, ok, w, 'a valid request is refused when %s' % [(k[0], fmt(k[1], 4), v) for k, v in L.items()])
            for s, k, v in R.outs:
                this = s.env.get(('o', 'this'), T)
                ctx.ob('%s leaves the tensor alone' % name, R.C(this) == T, w, 'the tensor becomes %s' % fmt(R.C(this), 4))
    # sizes(): total size of every dimension
    for fn in F.q(BTQ + 'sizes'):
        R = Run(F, fn, LOOKUPS)
        w = W(fn)
        for s, k, v in R.outs:
            if k != 'return':
                continue
            x = strip_copies(value(R.I, s, v))
            e = filled(R, x)
            if not ctx.ob('sizes: one entry per dimension', e is not None and e[0] == RANK, w, 'returns %s' % fmt(R.N(x), 5)):
                continue
            _, it, val, _ = e
            want = ('sum', SIZES, ori(it), add(ori(it), ('at', SBD, it)))
            ctx.ob('sizes: each entry adds up the sections of its dimension', val == want, w, 'entry is %s' % fmt(val, 7))
    # the quantity of one element
    for fn in F.q(BTQ + 'element_conserved_qtt'):
        R = Run(F, fn, LOOKUPS)
        w = W(fn)
        element(ctx, R, fn, w, ori)
    return n


def filled(R, x):
    """vector built entry by entry: (length, counter, value of the entry at the counter, loop)"""
    I, N = R.I, R.N
    if x[0] != 'phi' or x not in I.phirec:
        return None
    rec = I.phirec[x]
    init = strip_copies(rec['init'].get(x, x))
    it = ('iter', rec['site'])
    t = R.trips.get(it)
    if not t or len(t) != 1:
        return None
    vals = set()
    for e in rec['ends']:
        nv = e[2].get(x, x)
        if nv[0] == 'mut' and nv[1].split('::')[-1] in ('push_back', 'emplace_back') and nv[3][0] == x:
            if not empty_container(init):
                return None
            vals.add((it, R.fin(N(nv[3][1]), (it,))))
        else:
            sz = N(('call', 'size', (init,)))
            v = entry(R, nv, x, init, it)
            if v is None:
                v = backwards(R, nv, x, it, next(iter(t)))
            if v is None or not (sz in t or {same_size(R, sz)} == {same_size(R, y) for y in t}):
                return None
            vals.add((it, R.fin(v, (it,))))
    if len(vals) != 1:
        return None
    return next(iter(t)), it, vals.pop()[1], rec


def same_size(R, n):
    z = getattr(R, 'sizes', {})
    if z and n[0] == 'call' and n[1] == 'size' and n[2][0][0] == 'E' and n[2][0][1] == ('get', T, ('f', 'blocks_list')) and n[2][0][3:] == ('get0',):
        return RANK
    return z.get(n, n)


def backwards(R, nv, x, it, n):
    """entries written from the last to the first: the value of entry number `it`"""
    ps = peel(nv, x)
    m = sub(sub(n, ONE), it)
    if ps is None or len(ps) != 1 or same_size(R, add(R.N(ps[0][1]), add(it, ONE))) != same_size(R, n):
        return None
    v = R.N(ps[0][2])
    if any(y == R.N(x) for y in subterms(v)):
        return None
    return R.N(swapped(v, it, m))


def swapped(t, a, b):
    if not isinstance(t, tuple) or not t:
        return t
    if t == a:
        return b
    if t[0] == 'aff':
        r = ('c', t[1])
        for x, k in t[2]:
            r = add(r, swapped(x, a, b), k)
        return r
    if t[0] in ('L', 'c', 'iter', 'phi'):
        return t
    return tuple(swapped(x, a, b) if isinstance(x, tuple) else x for x in t)


def entry(R, nv, x, init, it):
    """value of entry number `it` after one iteration that changes only this entry"""
    N = R.N
    if nv == x:
        if init[0] == 'ctor' and init[1] == 'std::vector' and len(init[2]) in (2, 3):
            return N(init[2][1]) if len(init[2]) == 3 else ZERO
        return None
    ps = peel(nv, x)
    if ps is not None and len(ps) == 1 and N(ps[0][1]) == it:
        v = N(ps[0][2])
        old = ('at', N(x), it)
        if any(y == old for y in subterms(v)):
            o = entry(R, x, x, init, it)
            return None if o is None else rebase(v, [(old, o)])
        return v
    if nv[0] == 'phi' and nv in R.I.phirec and nv[1] != x[1]:
        rec = R.I.phirec[nv]
        j = ('iter', rec['site'])
        base = entry(R, rec['init'].get(nv, x), x, init, it)
        add_ = set()
        for e in rec['ends']:
            ps = peel(e[2].get(nv, nv), nv)
            if ps is None or len(ps) != 1 or N(ps[0][1]) != it:
                return None
            add_.add(R.fin(sub(N(ps[0][2]), ('at', N(nv), it)), (it, j)))
        tr = R.trips.get(j)
        if base is None or len(add_) != 1 or not tr or len(tr) != 1:
            return None
        d = add_.pop()
        if d[0] == 'at' and not any(y == j for y in subterms(sub(d[2], j))):
            o = sub(d[2], j)
            return add(base, ('sum', d[1], o, add(o, next(iter(tr)))))
    return None


def element(ctx, R, fn, w, ori):
    """walk the sections of the dimension until the element's offset falls inside one"""
    d, el = (('sym', p['n']) for p in fn.params)
    I, N = R.I, R.N
    found = 0
    for s, k, v in R.outs:
        if k != 'return':
            continue
        found += 1
        x = N(strip_copies(value(I, s, v)))
        its = [y for y in subterms(x) if y[0] == 'iter']
        ok = x[0] == 'at' and x[1] == CV and len(set(its)) == 1 and x[2] == add(ori(d), its[0])
        if not ctx.ob('element_conserved_qtt: a quantity of the dimension', ok, w, 'returns %s' % fmt(x, 6)):
            continue
        it = its[0]
        rec = next(r for r in I.loops if r['site'] == it[1])
        size = ('at', SIZES, add(ori(d), it))
        L = R.lits(s.facts, (it,))
        # what is left of the element, or how much has been passed
        left = [nm for nm in rec['init'] if rec['init'][nm] == el]
        passed = [nm for nm in rec['init'] if rec['init'][nm] == ZERO]
        good = why = None
        for nm in left:
            steps_ = {R.fin(N(sub(e[2].get(nm, nm), nm)), (it,)) for e in rec['ends']}
            if steps_ == {sub(ZERO, size)}:
                good = known_lt(L, N(nm), size) is True
                cont = [known_lt(R.lits(e[1], (it,)), N(nm), size) is False for e in rec['ends']]
                good = good and all(cont)
        for nm in passed:
            y = N(nm)
            if y == ('sum', SIZES, ori(d), add(ori(d), it)):
                end = add(y, size)
                good = known_lt(L, el, end) is True and all(known_lt(R.lits(e[1], (it,)), el, end) is False for e in rec['ends'])
        ctx.ob('element_conserved_qtt: the section holding the element', good is True, w, 'the section is not chosen by where the element falls')
    ctx.ob('element_conserved_qtt returns', found > 0, w, 'no normal outcome')


# ------------------------------------------------------------------ views of one block
def views(ctx, F):
    n = 0
    base = 'quantit::btensor::'
    G = lambda f: ('get', T, ('f', f))
    vi, sbd, bi = G('val_iter'), G('section_by_dim'), G('block_index')
    dr = lambda x: ('deref', x)
    inl = {base + c + '::' + m for c in ('block_prop_iter', 'const_block_prop_iter', 'block_prop_view', 'const_block_prop_view')
           for m in ('operator*', 'operator++', 'operator--', 'operator==', 'begin', 'end', 'get_val_iter', 'get_section', 'get_bi', 'get_index')}
    want = {'val_iter': add(vi, dr(sbd)), 'section_by_dim': add(sbd, ONE), 'block_index': add(bi, ONE)}
    back = {'val_iter': sub(vi, dr(sub(sbd, ONE))), 'section_by_dim': sub(sbd, ONE), 'block_index': sub(bi, ONE)}
    for cls in ('block_prop_iter', 'const_block_prop_iter'):
        for op, exp in (('operator++', want), ('operator--', back)):
            for fn in F.q(base + cls + '::' + op):
                R = Run(F, fn, inl)
                w = W(fn)
                for s, k, v in R.outs:
                    if k != 'return':
                        continue
                    n += 1
                    after = s.env.get(('o', 'this'), T)
                    for f, x in exp.items():
                        y = R.N(proj(after, ('f', f)))
                        ctx.ob('block view: %s moves %s by one dimension' % (op, f), y == x, w, 'it becomes %s' % fmt(y, 5))
                    r = value(R.I, s, v)
                    post = len(fn.params) == 1
                    for f, x in exp.items():
                        y = R.N(proj(r, ('f', f)))
                        ctx.ob('block view: %s returns the %s position' % (op, 'old' if post else 'new'), y == (G(f) if post else x), w, '%s is %s' % (f, fmt(y, 5)))
        for fn in F.q(base + cls + '::operator*'):
            R = Run(F, fn, inl)
            for s, v, L in R.rets():
                n += 1
                ctx.ob('block view: reads the section of the block in the current dimension', v == dr(add(vi, dr(bi))), W(fn), 'reads %s' % fmt(v, 5))
        for fn in F.q(base + cls + '::operator=='):
            R = Run(F, fn, inl)
            o = ('sym', fn.params[0]['n'])
            for s, v, L in R.rets():
                n += 1
                eq = [eq_lit(L, ('get', o, ('f', f)), G(f)) for f in want]
                ok = is_c(v) and (all(x is True for x in eq) if v[1] else any(x is False for x in eq))
                ctx.ob('block view: positions are equal when all their parts are', ok, W(fn), 'answers %s when the parts compare %s' % (fmt(v, 3), eq))
        for fn in F.q(base + cls + '::' + cls):
            if len(fn.params) == 3 and fn.body:
                R = Run(F, fn, inl)
                for s, k, v in R.outs:
                    n += 1
                    x = s.env.get(('o', 'this'), T)
                    for f, p in zip(('val_iter', 'section_by_dim', 'block_index'), fn.params):
                        y = R.N(proj(x, ('f', f)))
                        ctx.ob('block view: position made of its parts', y == ('sym', p['n']), W(fn), '%s is %s' % (f, fmt(y, 4)))
    # what a view starts from
    for nm, f in (('block_quantities', 'c_vals'), ('block_sizes', 'sections_sizes')):
        fns = F.q(BTQ + nm)
        ctx.need(fns, nm + ' not found')
        for fn in fns:
            R = Run(F, fn, inl)
            b = ('begin', ('o', 'this'), (('f', f),))
            key = ('sym', fn.params[0]['n'])
            for s, v, L in R.rets():
                n += 1
                ok = v[0] == 'ctor' and len(v[2]) == 4 and v[2][0] == b and v[2][2] == SBD and v[2][3] == key
                ctx.ob('%s: view over the sections picked by the block index' % nm, ok, W(fn), 'built from %s' % fmt(v, 5))
    for fn in F.q(base + 'block_prop_view::block_prop_view'):
        if len(fn.params) < 4:
            continue
        R = Run(F, fn, inl)
        P = [('sym', p['n']) for p in fn.params]
        for s, k, v in R.outs:
            n += 1
            x = s.env.get(('o', 'this'), T)
            for part, i, at in (('first', 0, 'begin'), ('last', 1, 'end')):
                y = proj(x, ('f', part))
                y = R.N(y)
                a = y[2] if y[0] == 'ctor' else None
                own = ('begin', ('o', 'this'), (('f', 'block_index'),))
                if not ctx.ob('block view: %s position built from its parts' % part, a is not None and len(a) == 3, W(fn), 'it is %s' % fmt(y, 4)):
                    continue
                good = a[0] == P[i]
                if len(P) == 5:
                    good = good and a[1] == P[2 + i]
                else:
                    sb = ('begin', ('o', fn.params[2]['n']), ())
                    good = good and (a[1] == sb if i == 0 else 'begin' in repr(a[1]) and sub(a[1], sb) in (('call', 'size', (P[2],)),))
                good = good and (a[2] == own if i == 0 else sub(a[2], own) == R.N(('call', 'size', (P[-1],))))
                ctx.ob('block view: %s position spans the whole index' % part, good, W(fn), 'built from %s' % fmt(y, 6))
    return n


# ------------------------------------------------------------------ enumeration
def bitval(t, sub_):
    """value of a term under a valuation of some subterms; None when unknown"""
    if t in sub_:
        return sub_[t]
    if is_c(t):
        return int(t[1])
    if t[0] == 'aff':
        r = t[1]
        for a, k in t[2]:
            x = bitval(a, sub_)
            if x is None:
                return None
            r += k * x
        return r
    if t[0] in ('bin', 'bit', 'call') and t[1] in ('&', '|', '^', '*', '&&', '||'):
        a = t[2] if t[0] == 'call' else t[2:4]
        x, y = (bitval(z, sub_) for z in a)
        if t[1] in ('&', '*', '&&') and (x == 0 or y == 0):
            return 0
        if t[1] in ('|', '||') and (x == 1 or y == 1) and t[1] == '||':
            return 1
        if x is None or y is None:
            return None
        return {'&': x & y, '|': x | y, '^': x ^ y, '*': x * y, '&&': int(bool(x and y)), '||': int(bool(x or y))}[t[1]]
    if t[0] == 'un' and t[1] == '!':
        x = bitval(t[2], sub_)
        return None if x is None else int(not x)
    return None


def odometer(ctx, F, fn, limit, idx, rank):
    """one step of a mixed-radix counter: every digit is visited until one does not wrap"""
    R = Run(F, fn, LOOKUPS | {'quantit::increment_index_left', 'quantit::increment_index_right'})
    I, N = R.I, R.N
    w = W(fn)
    ob = lambda n, ok, why='': ctx.ob('%s: %s' % (fn.name, n), ok, w, why)
    rec = next((r for r in I.loops if r['depth'] == min(q['depth'] for q in I.loops)), None)
    if not ob('one loop over the dimensions', rec is not None and len([r for r in I.loops if r['depth'] == min(q['depth'] for q in I.loops)]) == 1, 'found %d loops' % len(I.loops)):
        return
    it = ('iter', rec['site'])
    x = next((nm for nm, i0 in rec['init'].items() if i0 == idx), None)
    if not ob('the loop updates the index', x is not None, 'the index is not carried by the loop'):
        return
    carry = [nm for nm, i0 in rec['init'].items() if i0 in (ONE, ZERO) and nm != x and
             any(not is_c(sub(e[2].get(nm, nm), nm)) for e in rec['ends'])]
    carry = carry[0] if len(carry) == 1 else None
    pos0 = rec['init'][carry] if carry else None        # value meaning "carry"
    t = set()
    for log, facts, vals, st in rec['exits']:
        L = R.lits(facts, (it,))
        if any(k == 'lt0' and aff(d)[1].get(it) in (1, -1) for (k, d) in L) or any(k == 'eq0' and v and it in aff(d)[1] for (k, d), v in L.items()):
            pass
    dims = {}
    cases = {}
    paths = [('go', e) for e in rec['ends']] + [('stop', e) for e in rec['exits']] + [('ret', (s2.log, dict(s2.facts), {x: I.read(s2, rec['names'][x])}, s2))
                                                                                      for s2, kind, v in rec.get('rets') or () if kind == 'return']
    for how, (log, facts, vals, st) in paths:
        L = R.lits(facts, (it,))
        nv = vals.get(x, x)
        ps = peel(nv, x)
        if how != 'go' and nv == x:
            # leaving without touching the digit: the digits are exhausted, or nothing is carried
            ex = any((k == 'lt0' and a in aff(d)[1]) or (k == 'eq0' and v) for (k, d), v in L.items() for a in [it] if a in aff(d)[1])
            cz = carry is not None and eq_lit(L, N(carry), pos0) is False or carry is not None and L.get(('eq0', N(carry))) == (pos0 == ONE)
            ob('stops at the last dimension or when nothing is carried', ex or cz, 'the walk stops early')
            continue
        # which digit, and what it was
        d = None
        for a in subterms(nv):
            if a[0] == 'get' and a[1] == x and a[2][0] == 'i':
                d = a[2][1]
        if ps:
            d = ps[-1][1]
        for (k, dd), v in facts.items():
            for a in subterms(dd):
                if d is None and a[0] == 'get' and a[1] == x and a[2][0] == 'i':
                    d = a[2][1]
        dn = N(d) if d is not None else None
        if dn not in (it, sub(sub(rank, ONE), it)) and dn is not None:
            ob('visits the dimensions one after the other', False, 'digit %s' % fmt(dn, 4))
            continue
        if dn is not None:
            dims[dn] = True
        digit = ('at', N(x), dn) if dn is not None else None
        new = N(ps[-1][2]) if ps else digit
        for c in (0, 1):
            sb = {}
            if carry is not None:
                sb[N(carry)] = c if pos0 == ONE else 1 - c
                f = L.get(('eq0', N(carry)))
                if f is not None and f == bool(sb[N(carry)]):
                    continue
            elif c == 0:
                continue
            for last in (0, 1):
                lim = limit(dn) if dn is not None else None
                if dn is not None:
                    lt = known_lt(L, digit, sub(lim, ONE))
                    if lt is None:
                        e1 = eq_lit(L, digit, sub(lim, ONE))
                        lt = None if e1 is None else not e1
                    if lt is None:
                        e1 = known_lt(L, add(digit, ONE), lim)
                        lt = e1
                    if lt is None:
                        e1 = eq_lit(L, add(digit, ONE), lim)
                        lt = None if e1 is None else not e1
                    if lt is not None and lt == bool(last):
                        continue
                o = sub(new, digit) if digit is not None else ZERO
                diff_ = bitval(o, sb)
                absv = bitval(new, sb) if new is not None else None
                nc = None
                if carry is not None:
                    y = bitval(N(vals.get(carry, carry)), sb)
                    nc = None if y is None else int(y == (1 if pos0 == ONE else 0))
                    if how != 'go':
                        nc = 0
                else:
                    nc = 1 if how == 'go' else 0
                good = (diff_ == 0 and nc == 0) if not c else (absv == 0 and nc == 1) if last else (diff_ == 1 and nc == 0)
                ob('digit %s' % ('kept when nothing is carried' if not c else 'wraps and carries' if last else 'advances and ends the carry'), good,
                   'it becomes %s, carry %s' % (fmt(new, 4) if new is not None else '?', nc))
    ob('all dimensions in turn', len(dims) == 1, 'digits %s' % [fmt(k, 3) for k in dims])
    tr = R.trips.get(it)
    lim_ = [e for e in rec['exits'] if e[2].get(x, x) == x]
    ok = False
    for log, facts, vals, st in lim_:
        for (k, dd), v in R.lits(facts, (it,)).items():
            if it in aff(dd)[1] and (sub(rank, it) in (dd, sub(ZERO, dd))):
                ok = True
    ob('the walk covers the whole rank', ok, 'it stops after %s' % [fmt(y, 3) for y in tr or ()])


def enumeration(ctx, F):
    n = 0
    for nm in (BTQ + 'block_increment', 'quantit::increment_index_right', 'quantit::increment_index_left'):
        fns = F.q(nm)
        for fn in fns:
            n += 1
            idx = ('sym', fn.params[0]['n'])
            if nm.startswith(BTQ):
                odometer(ctx, F, fn, lambda d: ('at', SBD, d), idx, RANK)
            else:
                odometer(ctx, F, fn, lambda d: ('at', ('sym', fn.params[1]['n']), d), idx, ('sym', fn.params[2]['n']))
    ctx.need(F.q(BTQ + 'block_increment'), 'block_increment not found')
    for fn in F.q('quantit::any_truth'):
        n += 1
        R = Run(F, fn, cls=BC)
        any_truth(ctx, R, W(fn), ('sym', fn.params[0]['n']))
    return n


def any_truth(ctx, R, w, src):
    I, N = R.I, R.N
    b = ('begin', ('o', src[1]), ())
    for s, k, v in R.outs:
        if k != 'return':
            continue
        x = value(I, s, v)
        y = N(x)
        want = ('call', 'std::any_of', (b, N(add(b, ('call', 'size', (src,)))), ('table', (False, True, True, True))))
        if y == want:
            ctx.ob('any_truth: answers whether an entry is non-zero', True, w)
            continue
        recs = [r for r in I.loops if r['depth'] == 1]
        if not ctx.ob('any_truth: answers whether an entry is non-zero', len(recs) == 1, w, 'answers %s' % fmt(y, 5)):
            continue
        rec = recs[0]
        it = ('iter', rec['site'])
        el = ('at', src, it)
        ok, why = True, ''
        full = (R.trips.get(it) or set()) == {N(('call', 'size', (src,)))} or rec['kind'] == 'rfor'
        early = any(s is z[0] for z in rec.get('rets') or ())
        if early:
            z = R.lits(s.facts, (it,)).get(('eq0', el))
            ok = is_c(x) and bool(x[1]) and z is False
            why = 'stops at an entry with answer %s' % fmt(y, 3)
        elif is_c(x):
            # the walk is over (or was left): zero entries only
            left = [e for e in rec['exits'] if e[3] is s]
            brk = R.lits(s.facts, (it,)).get(('eq0', el))
            ok = full and brk is not True and (bool(x[1]) == (brk is False))      # brk: the walk was left at this entry
            for e in rec['ends']:
                ok = ok and R.lits(e[1], (it,)).get(('eq0', el)) is True
            why = 'answers %s after the walk' % fmt(y, 3)
        elif x[0] == 'phi' and x in rec['init']:
            ok = full and rec['init'][x] == ZERO
            why = 'answer starts as %s' % fmt(rec['init'][x], 3)
            for e in rec['ends'] + [e for e in rec['exits'] if e[2].get(x, x) != x or R.lits(e[1], (it,)).get(('eq0', el)) is not None]:
                L = R.lits(e[1], (it,))
                z, o = L.get(('eq0', el)), L.get(('eq0', N(x)))
                nv = N(e[2].get(x, x))
                for ev in (0, 1):
                    for ov in (0, 1):
                        if z is not None and z == bool(ev) or o is not None and o == bool(ov):
                            continue
                        if nv == N(x):
                            r = ov
                        elif is_c(nv):
                            r = int(bool(nv[1]))
                        else:
                            r = bitval(nv, {N(x): ov, el: ev})
                        if r != int(bool(ev or ov)):
                            ok, why = False, 'entry %s, answer so far %d: becomes %s' % ('non-zero' if ev else 'zero', ov, fmt(nv, 4))
        else:
            ok, why = False, 'answers %s' % fmt(y, 4)
        ctx.ob('any_truth: answers whether an entry is non-zero', ok, w, why)


def a08(ctx):
    F = load(['btensor.cpp'], True)
    a = lookups(ctx, F)
    b = views(ctx, F)
    c = enumeration(ctx, F)
    ctx.meta['lookups'] = a
    ctx.meta['view_outcomes'] = b
    ctx.meta['enumerators'] = c
