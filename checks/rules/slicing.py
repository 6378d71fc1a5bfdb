"""Slices: which elements a view or an indexed assignment addresses (A19)."""
from rules.contraction import *

LOC = 'quantit::to_block_basis'
NEG = ('c', -1)
DIMS = ('sym', 'dims')


def kept(L, x):
    """the literals say that the entry x stands for a whole dimension (True), one element (False)"""
    v = L.get(('eq0', add(x, ('c', 1))))
    if v is None:
        v = L.get(('eq0', sub(NEG, x)))
    return L.get(('lt0', x)) if v is None else v


class Kept:
    """a loop over the entries of `seq`, where -1 keeps the dimension"""

    def __init__(self, R, seqs):
        self.R, self.seqs = R, seqs

    def lit(self, L, it):
        return next((k for k in (kept(L, ('at', s, it)) for s in self.seqs) if k is not None), None)

    def number(self, L, n):
        """n is the number of entries of the list"""
        return n in self.sizes

    def ends(self, rec):
        """[(kept?, end)] of a loop over every entry, or a reason"""
        it = ('iter', rec['site'])
        out = []
        for e in rec['ends']:
            k = self.lit(lits(self.R.N, e[1]), it)
            out.append((k, e))
        return out

    def tally(self, p, want):
        """p = start + the sum of want(it) over the kept entries before `it`: the start, or None.  want: a term in `it`"""
        R = self.R
        c, m = aff(R.N(p))
        ph = [a for a in m if a[0] == 'phi']
        if len(ph) != 1 or m[ph[0]] != 1:
            return None
        ph = ph[0]
        rec = R.I.phirec.get(ph)
        if rec is None:
            return None
        it = ('iter', rec['site'])
        for k, e in self.ends(rec):
            d = sub(R.N(e[2].get(ph, ph)), ph)
            w = want(it)
            if k is None and d != ZERO or k is True and d not in w or k is False and d != ZERO:
                return None
        start = sub(R.N(p), ph)
        return add(start, R.N(rec['init'].get(ph, ph)))

    def at_start(self, s, x=None):
        """s is 0, or the first position of the list x"""
        if s is None:
            return False
        c, m = aff(s)
        if c or not m:
            return c == 0
        b = next(iter(m))
        return len(m) == 1 and m[b] == 1 and b[0] == 'begin' and x is not None and (b[1],) + tuple(b[2]) == tuple(x[2])


def relative(R, p, x):
    """position of an iterator or an index relative to its own list"""
    c, m = aff(R.N(p))
    for a, k in m.items():
        if a[0] == 'begin':
            p = add(p, a, -k)
    return R.N(p)


def whole_pass(R, rec, sizes):
    it = ('iter', rec['site'])
    t = R.trips.get(it)
    return bool(t) and len(t) == 1 and R.N(next(iter(t))) in sizes and not [1 for x in rec.get('rets') or () if x[1] == 'return']


def settle_list(R, x, st=None):
    """(list, length it was cut to or None)"""
    x = bare(x)
    cut_ = None
    if len(x) > 3 and x[0] == 'mut' and x[1].split('::')[-1] == 'resize' and x[2] == 'obj':
        cut_, x = x[3][1], bare(x[3][0])
    return x, cut_


def selected(R, K, x, entry, widths, sizes, total=None, through_=None):
    """why x is not the list of entry(it) [widths None] or of the runs entry(it)=(list, lo, hi) of the kept entries in order; None if it is.
    widths: acceptable terms for the length of a run"""
    N = R.N
    x, cut_ = settle_list(R, x)
    if x[0] != 'phi' or x not in R.I.phirec:
        return 'it is %s' % fmt(N(x), 5)
    rec = R.I.phirec[x]
    it = ('iter', rec['site'])
    if not (through_(rec) if through_ else whole_pass(R, rec, sizes)):
        return 'the loop at line %s does not run over every dimension' % rec['line']
    one = lambda it: [('c', 1)]
    wd = widths or one
    modes = set()
    for k, e in K.ends(rec):
        z = e[2].get(x, x)
        w = None
        while len(z) > 3 and z[0] == 'mut' and z[1].split('::')[-1] == 'reserve':
            z = z[3][0]
        if z == x or N(z) == x:
            if k is not False:
                return 'an iteration at line %s records nothing for a kept dimension' % rec['line']
            continue
        y = strip_copies(z)
        if len(y) > 3 and y[0] == 'mut':
            nm, a = y[1].split('::')[-1], y[3]
            if nm in ('push_back', 'emplace_back') and a[0] == x and len(a) == 2 and not widths:
                w = ('append', None, N(unassign(a[1])))
            elif nm == 'insert' and y[2] == 'obj' and len(a) == 4 and bare(a[0]) == x and widths and at_end(R, deconv(a[1]), a[0]):
                w = ('append', None, span(R, N(deconv(a[2])), N(deconv(a[3]))))
            elif nm == 'copy' and y[2] == 'out' and a[0] == x and widths:
                w = ('write', a[3], span(R, N(a[1]), N(a[2])))
            elif nm == 'copy_n' and y[2] == 'out' and a[0] == x and widths:
                w = ('write', a[3], span(R, N(a[1]), N(add(a[1], a[2]))))
        if w is None:
            ps = peel(y, x)
            if ps and len(ps) == 1 and not widths:
                w = ('write', ps[0][1], N(unassign(ps[0][2])))
        if w is None and widths:
            r = appended(R, z, x)
            if r and len(r) == 1:
                w = ('append', None, r[0])
        if w is None:
            return 'an iteration at line %s makes it %s' % (rec['line'], fmt(N(z), 4))
        modes.add(w[0])
        if w[0] == 'write' and not K.at_start(K.tally(w[1], wd), x):
            return 'line %s writes at %s, not at the number of kept entries before' % (rec['line'], fmt(N(w[1]), 5))
        if k is False and (w[0] == 'append' or widths):
            return 'line %s records a dimension that is not kept' % rec['line']
        if k is None:
            return 'line %s records without looking whether the dimension is kept' % rec['line']
        if k is True and not entry(it, w[2]):
            return 'line %s records %s' % (rec['line'], fmt(w[2], 5))
    if len(modes) != 1:
        return 'nothing is recorded' if not modes else 'entries are recorded in two ways'
    i = rec['init'].get(x, x)
    if modes == {'append'}:
        if not starts_empty(i):
            return 'it does not start empty'
        return None if cut_ is None else 'it is cut to %s' % fmt(N(cut_), 4)
    i = bare(i)
    if not (i[0] == 'ctor' and i[1] in LISTS and i[2]):
        return 'it starts as %s' % fmt(N(i), 4)
    n = N(i[2][0])
    okn = n in sizes if not widths else False
    done = lambda t: K.at_start(K.tally(t, one)) if t is not None else False
    if not widths:
        if done(n):
            return None if cut_ is None else 'it is cut to %s' % fmt(N(cut_), 4)
        if okn and (cut_ is None and sizes == K.fits or cut_ is not None and done(cut_)):
            return None
        return 'it has %s entries' % fmt(N(cut_) if cut_ is not None else n, 5)
    return None if total and total(n) else 'it has %s entries' % fmt(n, 5)


def section_before(R, t, d, sizes_at):
    """replaces the running sums of a search loop by the size of the sections before the current one"""
    N = R.N
    c, m = aff(N(t))
    r = ('c', c)
    for a, k in m.items():
        if a[0] == 'phi' and a in R.I.phirec:
            rec = R.I.phirec[a]
            it = ('iter', rec['site'])
            ds = {N(sub(N(e[2].get(a, a)), a)) for e in rec['ends']}
            if len(ds) == 1:
                dd = ds.pop()
                for sg in (1, -1):
                    if size_of(R, dd if sg == 1 else sub(ZERO, dd), d, it, sizes_at):
                        r = add(r, add(N(rec['init'].get(a, a)), ('before', it), sg), k)
                        break
                else:
                    return None
                continue
            return None
        if a[0] == 'sum' and len(a) == 4:
            it = sub(a[3], a[2])
            if it[0] == 'iter' and ('at', a[1], a[3]) in sizes_at(d, it):
                r = add(r, ('before', it), k)
                continue
        if a[0] != 'iter' and any(y[0] == 'iter' for y in subterms(a)):
            its = {y for y in subterms(a) if len(y) == 2 and y[0] == 'iter' and size_of(R, a, d, y, sizes_at)}
            if its:
                r = add(r, ('here', its.pop()), k)
                continue
        r = add(r, a, k)
    return r


def size_of(R, t, d, it, at):
    """t is the size of section `it` of dimension d"""
    x = R.N(t)
    if x[0] == 'aff' and x[1] == 0 and len(x[2]) == 1 and x[2][0][1] == 1:
        x = x[2][0][0]
    return x in at(d, it)


def located(R, L, pos, d, a, sizes_at, ends_at):
    """pos is the section of dimension d that holds element a, by a search that ended before: None, or why not"""
    pos = R.N(pos)
    if pos[0] != 'iter':
        return 'it is %s' % fmt(pos, 5)
    recs = [r for r in R.I.loops if ('iter', r['site']) == pos]
    if len(recs) < 1:
        return 'no search found'
    for rec in recs:
        if [1 for x in rec.get('rets') or () if x[1] == 'return']:
            return 'the search at line %s has another way out' % rec['line']
        for e in rec['ends']:
            if not any(k == 'lt0' and v is False and section_before(R, x, d, sizes_at) == sub(sub(a, ('before', pos)), ('here', pos)) or
                       k == 'lt0' and v is True and section_before(R, x, d, sizes_at) == add(sub(add(('before', pos), ('here', pos)), a), NEG)
                       for (k, x), v in lits(R.N, e[1]).items()):
                return 'the search at line %s passes a section without knowing that the element lies behind it' % rec['line']
    for (k, x), v in L.items():
        if k == 'eq0' and v is True and any(x in (sub(n, pos), sub(pos, n)) for n in ends_at(d)):
            return None
        if k == 'lt0' and v is False and any(x == sub(pos, n) for n in ends_at(d)):
            return None
        s = section_before(R, x, d, sizes_at)
        if k == 'lt0' and v is True and s == sub(sub(a, ('before', pos)), ('here', pos)):
            return None
        if k == 'lt0' and v is False and s == add(sub(add(('before', pos), ('here', pos)), a), NEG):
            return None
    return 'the search may stop at an earlier section'


def of_tensor(x):
    """sizes and number of the sections of a dimension of tensor x"""
    sbd, sz, cv, rank, rule = fields(x)
    ss = lambda d: ('call', BTQ + 'section_sizes', (x, d))
    g = lambda d, k: ('get', ss(d), ('f', k))

    def at(d, it):
        b, e = g(d, 'get0'), g(d, 'get1')
        return [('deref', add(b, it)), ('at', sz, add(('sum', sbd, ZERO, d), it)), ('call', BTQ + 'section_size', (x, d, it)), ('deref', add(it, b))]

    def ends(d):
        return [sub(g(d, 'get1'), g(d, 'get0')), ('at', sbd, d)]
    return at, ends


def of_lists(sbd, sz):
    def at(d, it):
        return [('at', sz, add(('sum', sbd, ZERO, d), it)), ('at', sz, it)] if d == ZERO else [('at', sz, add(('sum', sbd, ZERO, d), it))]

    def ends(d):
        return [('at', sbd, d)]
    return at, ends


def no_blocks(R, s, x):
    x = strip_copies(x)
    return x[0] == 'ctor' and all(y[0] == 'ctor' and 'allocator' in y[1] for y in x[2]) or emptyish(R, s, x)      # a list made of nothing but its allocator


def shape_rule(ctx, F):
    n = 0
    fns = [f for f in F.q(BTQ + 'shape_from') if len(f.params) == 1]
    ctx.need(fns, 'btensor::shape_from not found')
    for fn in fns:
        R = Run(F, fn, ())
        N, w = R.N, W(fn)
        dims = ('sym', fn.params[0]['n'])
        ob = lambda nm, ok, why='': ctx.ob('shape of a slice: %s' % nm, ok, w, why or '')
        K = Kept(R, [dims])
        lens = [('call', 'size', (dims,)), RANK, ('call', 'size', (SBD,))]
        K.fits = None
        at, ends = of_tensor(T)
        sizes = ('call', BTQ + 'sizes', (T,))

        def fits(R, L, it):
            x = ('at', dims, it)
            k = kept(L, x)
            eq = L.get(('eq0', add(x, ('c', 1))))
            if eq is True:
                return True
            lo, hi = L.get(('lt0', x)), None
            for s in (('at', sizes, it), ('call', BTQ + 'size', (T, it)), ('call', BTQ + 'dim_size', (T, it))):
                hi = known_lt(L, x, s) if hi is None else hi
            low = L.get(('lt0', add(x, ('c', 1))))          # x < -1
            if hi is True and (lo is False or low is False):
                return True
            return False if hi is False or low is True or lo is True and eq is False else None

        for s, k, v in R.outs:
            L = lits(N, s.facts)
            same = eq_lit(L, ('call', 'size', (dims,)), RANK)
            if k == 'throw':
                if v[0] != 'throw':
                    continue
                r = False if same is False else some([for_all(R, L, m, fits)[0] for m in lens])
                ob('refused only for a wrong number of indices or one out of range', r is False, 'line %s throws for acceptable indices' % v[2])
                continue
            if k != 'return':
                continue
            n += 1
            ob('a wrong number of indices is refused', same is True, 'the number of indices is not compared with the rank')
            r = [for_all(R, L, m, fits) for m in lens]
            ob('an index outside of its dimension is refused', any(x[0] is True for x in r), '; '.join(x[1] for x in r if x[1]))
            c = strip_copies(value(R.I, s, v))
            if not ob('a tensor without blocks is built', c[0] == 'ctor' and c[1] == 'quantit::btensor' and len(c[2]) == 7 and no_blocks(R, s, c[2][1]), 'it returns %s' % fmt(N(c), 3)):
                continue
            rank, bl, sbd, sz, cv, rule, opt = c[2]
            one = lambda it: [('c', 1)]
            osbd, _ = settle_list(R, sbd)
            is_out = lambda y: N(y) == N(sbd) or settled(s, y) == sbd or settle_list(R, settled(s, y))[0] == osbd
            counted = lambda t: K.at_start(K.tally(t, one)) or N(t)[0] == 'call' and N(t)[1] == 'size' and is_out(N(t)[2][0])
            ob('its rank is the number of kept dimensions', counted(rank), 'it is %s' % fmt(N(rank), 4))
            why = selected(R, K, sbd, lambda it, x: x == ('at', SBD, it), None, lens)
            ob('the numbers of sections are those of the kept dimensions in order', why is None, why)
            width = lambda it: [('at', SBD, it)]

            def total(n):
                if n[0] == 'sum' and n[2] == ZERO:
                    return is_out(n[1]) and (counted(n[3]) or n[3][0] == 'call' and n[3][1] == 'size')
                return K.at_start(K.tally(n, width))
            for nm, x, src in (('sizes', sz, SIZES), ('quantities', cv, CV)):
                def run_of(it, x, src=src):
                    return x is not None and x[0] == src and x[1] == ('sum', SBD, ZERO, it) and sub(x[2], x[1]) == ('at', SBD, it)
                why = selected(R, K, x, run_of, width, lens, total)
                ob('the %s of the sections are those of the kept dimensions in order' % nm, why is None, why)
            why = folded(R, K, rule, RULE, dims, lens, at, ends, L)
            ob('the quantities of the fixed indices are taken out of the selection rule', why is None, why)
            ob('it keeps the options', N(opt) == ('get', T, ('f', '_options')), 'options become %s' % fmt(N(opt), 4))
    return n


def folded(R, K, t, start, dims, lens, at, ends, L0):
    N = R.N
    t = strip_copies(t)
    if t[0] != 'phi' or t not in R.I.phirec:
        return 'it is %s' % fmt(N(t), 5)
    rec = R.I.phirec[t]
    it = ('iter', rec['site'])
    if not whole_pass(R, rec, lens):
        return 'the loop at line %s does not run over every dimension' % rec['line']
    if N(strip_copies(rec['init'].get(t, t))) not in (start, ('get', start, ('f', 'value'))):
        return 'it starts as %s' % fmt(N(rec['init'].get(t, t)), 4)
    for k, e in K.ends(rec):
        L = lits(N, e[1])
        z = strip_copies(e[2].get(t, t))
        if N(z) == t:
            if k is not False:
                continue
            return 'line %s leaves it unchanged for a fixed index' % rec['line']
        if k is not False:
            return 'line %s changes it for a kept dimension' % rec['line']
        q = None
        for y in unrolled(z):
            nm = y[1].split('::')[-1]
            a = y[3] if y[0] == 'mut' else y[2]
            if nm in ('operator*=', 'op', 'operator+=', 'operator*', 'operator+') and len(a) == 2:
                for u, w in ((a[0], a[1]), (a[1], a[0])):
                    if strip_copies(u) == t:
                        q = strip_copies(w)
        q = q and unconv(N(q))
        if not (q and q[0] == 'call' and q[1].split('::')[-1] == 'inverse'):
            return 'line %s makes it %s' % (rec['line'], fmt(N(z), 5))
        q = unconv(q[2][0])
        x = ('at', dims, it)
        if q[0] == 'call' and q[1] == BTQ + 'element_conserved_qtt' and q[2] == (T, it, x):
            continue
        if q[0] == 'call' and q[1] == BTQ + 'section_conserved_qtt' and len(q[2]) == 3 and q[2][:2] == (T, it):
            p = q[2][2]
        elif q[0] == 'at' and q[1] == CV:
            p = sub(q[2], ('sum', SBD, ZERO, it))
        else:
            return 'line %s takes %s' % (rec['line'], fmt(q, 5))
        why = located(R, L, p, it, x, at, ends)
        if why:
            return why
    return None


def unrolled(z):
    if len(z) > 2 and z[0] in ('mut', 'call'):
        yield z


def entry_of(R, v, j, depth=6):
    """value of entry j of the list v"""
    N = R.N
    v = bare(v)
    if depth == 0:
        return None
    if len(v) == 3 and v[0] == 'upd':
        r = None
        ks = [x for x in v[2]]
        if all(k[0][0] == 'i' and relative(R, k[0][1], v) == j for k in ks):
            return rebuilt(R, ks[-1][1], j, depth)
        return None
    if v[0] == 'phi' and v in R.I.phirec:
        rec = R.I.phirec[v]
        if ('iter', rec['site']) == j:          # the loop that is writing entry j now: not written before
            return entry_of(R, rec['init'].get(v, v), j, depth - 1)
        ds = set()
        for e in rec['ends']:
            z = e[2].get(v, v)
            if bare(z) == v:
                ds.add(ZERO)
                continue
            if not (z[0] == 'upd' and len(z[2]) == 1 and z[2][0][0][0] == 'i' and relative(R, z[2][0][0][1], v) == j):
                return None
            ds.add(N(sub(N(z[2][0][1]), N(('at', v, j)))))
        if len(ds) != 1:
            return None
        d = ds.pop()
        i = entry_of(R, rec['init'].get(v, v), j, depth - 1)
        if i is None:
            return None
        if d == ZERO:
            return i
        return add(i, ('iter', rec['site'])) if d == ('c', 1) else None
    if v[0] == 'ctor' and v[1] in LISTS and v[2]:
        a = [x for x in v[2] if not (x[0] == 'ctor' and 'allocator' in x[1])]
        return ZERO if len(a) == 1 else a[1] if len(a) == 2 else None
    return N(('at', v, j)) if v[0] in ('sym', 'get') else None


def rebuilt(R, x, j, depth):
    """a written value that refers to the entry before the write"""
    x = R.N(x)
    c, m = aff(x)
    r = ('c', c)
    if not m:
        return x
    if x[0] != 'aff' and not (x[0] == 'at' and x[2] == j and x[1][0] in ('phi', 'upd')):
        return x
    for a, k in m.items():
        if a[0] == 'at' and a[2] == j and a[1][0] in ('phi', 'upd'):
            a2 = entry_of(R, a[1], j, depth - 1)
            if a2 is None:
                return x
            r = add(r, a2, k)
        else:
            r = add(r, a, k)
    return r


def untensor(t):
    while t[0] == 'ctor' and t[1].split('::')[-1] == 'TensorIndex' and len(t[2]) == 1:
        t = t[2][0]
    return t


def is_slice(t):
    t = untensor(strip_copies(t))
    return t[0] == 'ctor' and t[1].split('::')[-1] == 'Slice' and all('nullopt' in repr(x) for x in t[2])


def entries(R, x, rec):
    """value recorded for dimension `it` by each end of the loop: [(end, value)]"""
    it = ('iter', rec['site'])
    out = []
    for e in rec['ends']:
        z = e[2].get(x, x)
        if len(z) > 3 and z[0] == 'mut' and z[1].split('::')[-1] in ('push_back', 'emplace_back') and z[3][0] == x and len(z[3]) == 2 and starts_empty(rec['init'].get(x, x)):
            out.append((e, z[3][1]))
        else:
            out.append((e, entry_of(R, z, it)))
    return out


def locate_rule(ctx, F):
    n = 0
    fns = F.q(LOC)
    ctx.need(fns, 'to_block_basis not found')
    for fn in fns:
        R = Run(F, fn, ())
        N, w = R.N, W(fn)
        ps = [('sym', p['n']) for p in fn.params]
        dims, sbd, sz = ps[:3]
        rank = ps[3] if len(ps) > 3 else None
        ob = lambda nm, ok, why='': ctx.ob('sections of the indices: %s' % nm, ok, w, why or '')
        K = Kept(R, [dims])
        at, ends = of_lists(sbd, sz)
        lens = [('call', 'size', (dims,)), ('call', 'size', (sbd,))] + ([rank] if rank else [])
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            t = R.val(s, v)
            a = [bare(x) for x in t[1]] if t[0] == 'tuple' and len(t[1]) == 2 else []
            if not ob('sections and positions are returned', len(a) == 2 and all(x[0] == 'phi' and x in R.I.phirec for x in a), 'returns %s' % fmt(t, 4)):
                continue
            for nm, x in zip(('section', 'position'), a):
                rec = R.I.phirec[x]
                it = ('iter', rec['site'])
                ob('every dimension gets its %s' % nm, whole_pass(R, rec, lens), 'the loop at line %s' % rec['line'])
                for e, val in entries(R, x, rec):
                    L = lits(N, e[1])
                    k = K.lit(L, it)
                    val = val and N(strip_copies(val))
                    if k is True:
                        ok = val is not None and (val == NEG if nm == 'section' else is_slice(val))
                        ob('a kept dimension has no %s' % nm, ok, 'line %s records %s' % (rec['line'], val and fmt(val, 5)))
                        continue
                    q = ('at', dims, it)
                    if k is None or val is None:
                        ob('the %s of an index is recorded' % nm, False, 'line %s records %s' % (rec['line'], val and fmt(val, 5)))
                        continue
                    if nm == 'section':
                        why = located(R, L, val, it, q, at, ends)
                        ob('the section of an index is the one that holds it', why is None, why)
                    else:
                        x2 = untensor(val)
                        y = section_before(R, x2, it, at)
                        b = [z for z in (aff(y)[1] if y else ()) if z[0] == 'before']
                        ok = len(b) == 1 and y == sub(q, b[0])
                        why = located(R, L, b[0][1], it, q, at, ends) if ok else 'line %s records %s' % (rec['line'], fmt(val, 5))
                        ob('the position of an index is counted from the start of its section', why is None, why)
    return n


def filtered(R, L, blocks, index, sizes):
    """the literals say whether the block index matches the selected sections"""
    def match(R, L, it):
        b, i = ('at', blocks, it), ('at', index, it)
        k = kept(L, b)
        if k is True:
            return True
        e = eq_lit(L, b, i)
        if e is True:
            return True
        return False if k is False and e is False else None
    return [for_all(R, L, m, match) for m in sizes]


def basis(x):
    sbd, sz, cv, rank, rule = fields(x)
    c = ('call', LOC, (DIMS, sbd, sz, rank))
    return ('get', c, ('f', 'get0')), ('get', c, ('f', 'get1'))


def added(z, phi):
    """one block added to the list phi: (key, value) or None; () if nothing is"""
    z = strip_copies(z)
    if z == phi:
        return ()
    if len(z) > 3 and z[0] == 'mut' and z[3] and strip_copies(z[3][0]) == phi and z[1].split('::')[-1] in ('insert', 'emplace', 'emplace_hint', 'push_back', 'emplace_back', 'insert_or_assign'):
        a = [x for x in z[3][1:]]
        if a and a[-1][0] in ('tuple', 'list') and len(a[-1][1]) == 2:
            return a[-1][1]
        if a and a[-1][0] == 'ctor' and 'pair' in a[-1][1] and len(a[-1][2]) == 2:
            return a[-1][2]
        if len(a) >= 2 and z[1].split('::')[-1] in ('emplace', 'emplace_hint', 'insert_or_assign', 'emplace_back'):
            return tuple(a[-2:])
        return None
    if len(z) == 3 and z[0] == 'upd' and z[1] == phi and len(z[2]) == 1 and z[2][0][0][0] == 'i' and z[2][0][0][1][0] == 'key':
        return (z[2][0][0][1][1], z[2][0][1])
    return None


def view_rule(ctx, F):
    n = 0
    fns = F.q(BTQ + 'basic_create_view')
    ctx.need(fns, 'btensor::basic_create_view not found')
    for fn in fns:
        R = Run(F, fn, ())
        N, w = R.N, W(fn)
        dims, pres = (('sym', p['n']) for p in fn.params)
        ob = lambda nm, ok, why='': ctx.ob('view: %s' % nm, ok, w, why or '')
        sel, where = (('get', ('call', LOC, (dims, SBD, SIZES, RANK)), ('f', g)) for g in ('get0', 'get1'))
        shp = ('call', BTQ + 'shape_from', (T, dims))
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            L = lits(N, s.facts)
            t = unassign(strip_copies(value(R.I, s, v)))
            p = L.get(('eq0', pres))
            if p is False:
                ok = t[0] == 'call' and t[1].split('::')[-1] == 'reshape_as' and len(t[2]) == 2
                if ok:
                    to = N(t[2][1])
                    ok = to == ('call', 'quantit::rank_preserving_shape', (sel, T))
                ob('dimensions are put back when the rank is to be preserved', ok, 'it returns %s' % fmt(N(t), 4))
                t = unassign(strip_copies(t[2][0])) if ok else t
            else:
                ob('the rank is only preserved on demand', p is True and not (t[0] == 'call' and 'reshape' in t[1]), '')
            sf = N(t[1]) if t[0] == 'upd' else None
            ok = sf == shp and len(t[2]) == 1 and t[2][0][0] == ('f', 'blocks_list')
            if not ob('it has the shape of the slice', ok, 'it returns %s' % fmt(N(t), 4)):
                continue
            x = strip_copies(t[2][0][1])
            rec = R.I.phirec.get(x)
            bl = ('get', T, ('f', 'blocks_list'))
            if not ob('its blocks come from the blocks of the tensor', rec is not None and full_walk(R.I, R.C, rec, bl) and not rec.get('rets'), 'its blocks are %s' % fmt(N(x), 4)):
                continue
            i = N(strip_copies(rec['init'].get(x, x)))
            ob('it starts without blocks', i == ('get', shp, ('f', 'blocks_list')) or starts_empty(i), fmt(i, 4))
            pos = ('pos', rec['site'])
            index, block = ('E', bl, pos, 'get0'), ('E', bl, pos, 'get1')
            lens = [('call', 'size', (index,)), ('call', 'size', (sel,)), ('call', 'size', (dims,)), RANK]
            for e in rec['ends']:
                Le = lits(N, e[1])
                kv = added(e[2].get(x, x), x)
                m = [r[0] for r in filtered(R, Le, sel, index, lens)]
                got = True if True in m else False if False in m else None
                if kv == ():
                    ob('a block that holds selected elements is not left out', got is False, 'line %s passes over a block not known to be outside' % rec['line'])
                    continue
                if not ob('a block is recorded', kv is not None, 'line %s makes the blocks %s' % (rec['line'], fmt(N(e[2].get(x, x)), 4))):
                    continue
                ob('only blocks that hold selected elements are taken', got is True, 'line %s takes a block not known to match the sections' % rec['line'])
                K = Kept(R, [sel])
                K.fits = lens
                kept_sizes = [('get', shp, ('f', 'rank'))]
                thr = lambda r2: any(through(R, Le, ('iter', r2['site']), m) for m in lens) or whole_pass(R, r2, lens)
                why = selected_key(R, K, kv[0], index, kept_sizes, lens, thr)
                ob('the index of a block keeps the sections of the kept dimensions in order', why is None, why)
                val = N(strip_copies(kv[1]))
                ob('the elements are selected within the block', val[0] == 'op' and val[1] == 'index' and val[2] == (block, where), 'the block becomes %s' % fmt(val, 5))
    return n


def selected_key(R, K, key, index, nums, lens, thr):
    """like selected() for the index of a block"""
    x = bare(key)
    if x[0] == 'phi' and x in R.I.phirec:
        i = bare(R.I.phirec[x]['init'].get(x, x))
        if i[0] == 'ctor' and i[2] and R.N(i[2][0]) in nums:
            K.fits = nums
            return selected(R, K, key, lambda it, v: v == ('at', index, it), None, nums, through_=thr)
    return selected(R, K, key, lambda it, v: v == ('at', index, it), None, lens, through_=thr)



def zeros_of(R, t, key):
    """a block of zeros with the sizes that belong to `key` and the options of the tensor"""
    t = R.N(strip_copies(t))
    if not (t[0] == 'op' and t[1] == 'zeros' and len(t[2]) == 2):
        return 'the new block is %s' % fmt(t, 4)
    sz, opt = t[2]
    if opt != ('get', T, ('f', '_options')):
        return 'the new block has the options %s' % fmt(opt, 4)
    of = {y for y in subterms(sz) if len(y) > 2 and y[0] == 'call' and y[1] == BTQ + 'block_sizes'}
    ends = {y[1].split('::')[-1] for y in subterms(sz) if len(y) > 2 and y[0] == 'call' and 'block_prop_view' in y[1]}
    src = {bare_tensor(y[2][0]) for y in of}
    if len(of) == 1 and src == {T} and bare(next(iter(of))[2][1]) == bare(key) and (sz in of or sz[0] == 'ctor' and sz[1] in LISTS and {'begin', 'end'} == {x.replace('cbegin', 'begin').replace('cend', 'end') for x in ends}):
        return None
    return 'the new block has the sizes %s' % fmt(sz, 5)


def bare_tensor(t):
    """a tensor whose blocks may have changed"""
    while len(t) == 3 and t[0] == 'upd' and all(k == ('f', 'blocks_list') for k, v in t[2]):
        t = t[1]
    return t


def put_rule(ctx, F):
    n = 0
    IMPL = BTQ + 'impl_basic_index_put_'
    fns = F.q(IMPL)
    ctx.need(fns, 'btensor::impl_basic_index_put_ not found')
    for fn in fns:
        R = Run(F, fn, ())
        N, w = R.N, W(fn)
        dims, val = (('sym', p['n']) for p in fn.params)
        ob = lambda nm, ok, why='': ctx.ob('indexed assignment: %s' % nm, ok, w, why or '')
        sel, where = (('get', ('call', LOC, (dims, SBD, SIZES, RANK)), ('f', g)) for g in ('get0', 'get1'))
        mine, bl = ('get', T, ('f', 'blocks_list')), ('get', val, ('f', 'blocks_list'))
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            t = strip_copies(value(R.I, s, ('l', (('o', 'this'), ())))) if False else R.val(s, v)
            if not ob('only the blocks change', t[0] == 'upd' and t[1] == T and len(t[2]) == 1 and t[2][0][0] == ('f', 'blocks_list'), 'the tensor becomes %s' % fmt(t, 4)):
                continue
            x, passes = strip_copies(t[2][0][1]), []
            while x[0] == 'phi' and x in R.I.phirec and len(passes) < 4:
                rec = R.I.phirec[x]
                passes.append((x, rec))
                x = strip_copies(rec['init'].get(x, x))
            ob('nothing else changes the blocks', N(x) == mine, 'the blocks start as %s' % fmt(N(x), 4))
            stores = [p for p in passes if full_walk(R.I, R.C, p[1], bl)]
            clears = [p for p in passes if p not in stores]
            ob('every block of the value is stored', len(stores) == 1 and not stores[0][1].get('rets'), '%d passes over the blocks of the value' % len(stores))
            ob('elements without a block in the value are cleared', len(clears) == 1, 'blocks of the tensor that the value does not have keep their elements')
            for x, rec in stores:
                store(R, ob, x, rec, sel, where, dims, bl)
            for x, rec in clears:
                clear(R, ob, x, rec, sel, where, dims, bl, passes, (x, rec), stores)
    return n


def store(R, ob, x, rec, sel, where, dims, bl):
    N = R.N
    pos = ('pos', rec['site'])
    index, block = ('E', bl, pos, 'get0'), ('E', bl, pos, 'get1')
    for e in rec['ends']:
        L = lits(N, e[1])
        z = strip_copies(e[2].get(x, x))
        kv = added(('upd', x, z[2]), x) if len(z) == 3 and z[0] == 'upd' else None
        if not ob('the block of the value is stored', kv is not None and kv != (), 'line %s makes the blocks %s' % (rec['line'], fmt(N(z), 4))):
            continue
        key, val = kv[0], N(strip_copies(kv[1]))
        base = strip_copies(z[1])
        if base != x:
            a = added(base, x)
            why = 'the blocks are %s' % fmt(N(base), 4) if not a else None if bare(a[0]) == bare(key) else 'it is added at another index'
            ob('a missing block is added', why is None, why)
            if a:
                why = zeros_of(R, a[1], key)
                ob('a missing block is added as zeros', why is None, why)
            c = L.get(('eq0', ('call', 'contains', (x, N(key)))))
            ob('an existing block is not replaced', c is True or a is not None and base[0] == 'mut' and base[1].split('::')[-1] in ('insert', 'emplace', 'emplace_hint'), '')
        else:
            c = [v for (k, d), v in L.items() if k == 'eq0' and d[0] == 'call' and d[1].split('::')[-1] in ('contains', 'count') and bare(d[2][-1]) == bare(N(key))]
            ob('the block exists', c == [False], 'line %s writes to a block not known to exist' % rec['line'])
        ok = val[0] == 'op' and val[1] == 'index_put' and len(val[2]) == 3 and val[2][1:] == (where, block)
        ok = ok and val[2][0][0] == 'at' and bare(val[2][0][2][1] if val[2][0][2][0] == 'key' else val[2][0][2]) == bare(N(key))
        ob('the elements of the value go to the selected elements', ok, 'the block becomes %s' % fmt(val, 5))
        why = full_key(R, key, sel, index, dims)
        ob('the sections of the fixed indices are inserted in the index of the block', why is None, why)


def full_key(R, key, sel, index, dims):
    """key is the list of selected sections with the kept ones replaced by those of `index` in order"""
    N = R.N
    x = bare(key)
    if x[0] != 'phi' or x not in R.I.phirec:
        return 'it is %s' % fmt(N(x), 5)
    rec = R.I.phirec[x]
    it = ('iter', rec['site'])
    lens = [('call', 'size', (sel,)), ('call', 'size', (dims,)), ('call', 'size', (x,)), RANK]
    if not whole_pass(R, rec, lens):
        return 'the loop at line %s does not run over every dimension' % rec['line']
    K = Kept(R, [sel, x])
    one = lambda it: [('c', 1)]
    for e, v in entries(R, x, rec):
        L = lits(N, e[1])
        k = K.lit(L, it)
        v = v and N(strip_copies(v))
        if k is None or v is None:
            return 'line %s sets %s without looking whether the dimension is kept' % (rec['line'], v and fmt(v, 4))
        if k is False and v not in (('at', sel, it), ('at', x, it)):
            return 'line %s gives a fixed index the section %s' % (rec['line'], fmt(v, 4))
        if k is True and not (v[0] == 'at' and v[1] == index and K.at_start(K.tally(v[2], one))):
            return 'line %s gives a kept dimension %s' % (rec['line'], fmt(v, 5))
    return None


def clear(R, ob, x, rec, sel, where, dims, bl, passes, me, stores):
    N = R.N
    mine = ('get', T, ('f', 'blocks_list'))
    lists = [mine, x] + [N(x)]
    pos = ('pos', rec['site'])
    walked_ = any(full_walk(R.I, R.C, rec, l) for l in lists) or R.trips.get(('iter', rec['site'])) == {('call', 'size', (mine,))}
    ob('every block of the tensor is looked at', walked_ and not rec.get('rets'), 'the loop at line %s' % rec['line'])
    late = passes.index(me) < passes.index(stores[0]) if stores else False
    for e in rec['ends']:
        L = lits(N, e[1])
        z = strip_copies(e[2].get(x, x))
        idx = [('E', l, pos, 'get0') for l in lists]
        m = []
        for i in idx:
            lens = [('call', 'size', (sel,)), ('call', 'size', (dims,)), RANK, ('call', 'size', (i,))]
            m += [r[0] for r in filtered(R, L, sel, i, lens)]
        got = True if True in m else False if False in m else None
        held = None
        for (k, d), v in L.items():
            if k == 'eq0' and d[0] == 'call' and d[1].split('::')[-1] in ('contains', 'count') and d[2][0] == bl:
                K = Kept(R, [sel])
                for i in idx:
                    K.fits = ()
                    ls = [('call', 'size', (sel,)), ('call', 'size', (dims,)), RANK, ('call', 'size', (i,))]
                    thr = lambda r2: any(through(R, L, ('iter', r2['site']), q) for q in ls) or whole_pass(R, r2, ls)
                    if selected_key(R, K, d[2][1], i, (), ls, thr) is None:
                        held = not v
        if z == x:
            ob('elements without a block in the value are cleared', got is False or held is True, 'line %s leaves a block that the value does not have' % rec['line'])
            continue
        ok = z[0] == 'upd' and z[1] == x and len(z[2]) == 1
        put = None
        if ok:
            for y in subterms(N(z[2][0][1])):
                if len(y) > 2 and y[0] == 'op' and y[1] in ('index_put', 'index_fill'):
                    put = y
        ok = put is not None and put[2][0] in [('E', l, pos, 'get1') for l in lists] and put[2][1:] == (where, ZERO)
        ob('only the selected elements are cleared', ok and got is True, 'line %s makes a block %s' % (rec['line'], fmt(N(z), 5)))
        ob('a block that the value has is not cleared after it was stored', not late or held is False, 'line %s' % rec['line'])


def refuse_rule(ctx, F):
    n = 0
    IMPL = BTQ + 'impl_basic_index_put_'
    fns = F.q(BTQ + 'basic_index_put_')
    ctx.need(len(fns) >= 2, 'btensor::basic_index_put_ not found')
    for fn in fns:
        R = Run(F, fn, ())
        N, w = R.N, W(fn)
        dims, val = (('sym', p['n']) for p in fn.params)
        ob = lambda nm, ok, why='': ctx.ob('indexed assignment: %s' % nm, ok, w, why or '')
        shp = ('call', BTQ + 'shape_from', (T, dims))
        dense = 'at::Tensor' in fn.ptypes()[1]
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            ev = [e for e in flat(s.log) if e[0] == 'call']
            puts = [e for e in ev if e[1] == IMPL]
            if not ob('the value is stored once', len(puts) == 1, '%d' % len(puts)):
                continue
            a = [N(x) for x in puts[0][3]]
            ob('the elements are those of the given indices', a[0] == dims, 'stored at %s' % fmt(a[0], 4))
            if dense:
                ok = a[1][0] == 'call' and a[1][1] == 'quantit::from_basic_tensor_like' and a[1][2][:2] == (shp, val)
                ob('a dense value is cut into the blocks of the slice', ok, 'it stores %s' % fmt(a[1], 4))
                continue
            before = ev[:ev.index(puts[0])]
            chk = [e for e in before if e[1] == BTQ + 'add_tensor_check' and {N(x) for x in e[3]} == {shp, val}]
            ob('a value of another shape or selection rule is refused', bool(chk), 'the value is not compared with the slice')
            ob('the value itself is stored', a[1] == val, 'it stores %s' % fmt(a[1], 4))
    return n


def restore_rule(ctx, F):
    n = 0
    fns = F.q('quantit::rank_preserving_shape')
    ctx.need(fns, 'rank_preserving_shape not found')
    for fn in fns:
        R = Run(F, fn, ())
        N, w = R.N, W(fn)
        sel, was = (('sym', p['n']) for p in fn.params)
        ob = lambda nm, ok, why='': ctx.ob('restored dimensions: %s' % nm, ok, w, why or '')
        sbd, sz, cv, rank, rule = fields(was)
        lens = [('call', 'size', (sel,)), rank]
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            t = strip_copies(value(R.I, s, v))
            ok = len(t) > 3 and t[0] == 'mut' and t[1] == BTQ + 'set_selection_rule_' and unconv(N(t[3][1])) == rule
            if not ob('the selection rule is that of the tensor', ok, 'returns %s' % fmt(N(t), 4)):
                continue
            x = bare(t[3][0])
            rec = R.I.phirec.get(x)
            if not ob('one dimension is added after the other', rec is not None and whole_pass(R, rec, lens), 'the shape is %s' % fmt(N(x), 4)):
                continue
            i = strip_copies(rec['init'].get(x, x))
            ob('it starts without dimensions', i[0] == 'ctor' and i[1] == 'quantit::btensor' and starts_empty(i[2][0]), 'it starts as %s' % fmt(N(i), 4))
            it = ('iter', rec['site'])
            for e in rec['ends']:
                L = lits(N, e[1])
                k = kept(L, ('at', sel, it))
                z = unassign(strip_copies(e[2].get(x, x)))
                a = z[2] if z[0] == 'call' and z[1] == 'quantit::shape_from' else ()
                if len(a) == 1 and a[0][0] in ('list', 'ctor'):
                    a = listed(a[0])
                if not ob('a dimension is added behind the others', len(a) == 2 and strip_copies(a[0]) == x and k is not None, 'line %s makes it %s' % (rec['line'], fmt(N(z), 4))):
                    continue
                y = strip_copies(a[1])
                if k:
                    ok = y[0] == 'call' and y[1].split('::')[-1] == 'shape_from' and len(y[2]) == 2 and N(y[2][0]) == was
                    why = only_dim(R, y[2][1], it, rank) if ok else 'it is %s' % fmt(N(y), 4)
                    ob('a kept dimension comes from the tensor', why is None, why)
                else:
                    q = ('call', BTQ + 'section_conserved_qtt', (was, it, ('at', sel, it)))
                    ls = N(y)
                    cells = [z2 for z2 in subterms(ls) if len(z2) == 2 and z2[0] == 'tuple' and len(z2[1]) == 2]
                    ok = ls[0] == 'ctor' and ls[1] == 'quantit::btensor' and len(cells) == 1 and cells[0][1] == (('c', 1), q) and nested(ls[2][0]) == [1]
                    ob('a fixed index becomes one section of one element with its quantity', ok, 'it is %s' % fmt(ls, 9))
    return n


def listed(t):
    return next((y[1] for y in subterms(t) if y[0] == 'list'), ())


def nested(t):
    """numbers of sections of the dimensions of a list of sections written out"""
    while t[0] == 'ctor' and t[2]:
        t = t[2][0]
    if t[0] != 'list':
        return None
    out = []
    for d in t[1]:
        while d[0] == 'ctor' and d[2]:
            d = d[2][0]
        out.append(len(d[1]) if d[0] == 'list' else 1 if d[0] == 'tuple' else None)
    return out


def only_dim(R, x, it, rank):
    """x lists -1 for dimension `it` and 0 for all others"""
    N = R.N
    x = bare(x)
    if not (x[0] == 'upd' and len(x[2]) == 1 and x[2][0][0][0] == 'i' and N(x[2][0][0][1]) == it and N(x[2][0][1]) == NEG):
        return 'the kept dimensions are %s' % fmt(N(x), 4)
    b = bare(x[1])
    if b[0] == 'phi' and b in R.I.phirec:
        rec = R.I.phirec[b]
        for e in rec['ends']:
            z = e[2].get(b, b)
            if not (bare(z) == b or z[0] == 'upd' and all(k[0] == 'i' and N(v) == ZERO for k, v in z[2]) and bare(z[1]) == b):
                return 'line %s leaves %s for the next dimension' % (rec['line'], fmt(N(z), 4))
        b = bare(rec['init'].get(b, b))
    a = [y for y in b[2] if not (y[0] == 'ctor' and 'allocator' in y[1])] if b[0] == 'ctor' and b[1] in LISTS else []
    return None if len(a) in (1, 2) and N(a[0]) == rank and a[1:] in ([], [ZERO]) else 'the other dimensions are %s' % fmt(N(b), 4)


def squeeze_rule(ctx, F):
    n = 0
    fns = F.q(BTQ + 'squeeze_')
    ctx.need(len(fns) >= 2, 'btensor::squeeze_ not found')
    VIEW = BTQ + 'basic_create_view'
    for fn in fns:
        R = Run(F, fn, ())
        N, w = R.N, W(fn)
        ob = lambda nm, ok, why='': ctx.ob('squeeze: %s' % nm, ok, w, why or '')
        dim = ('sym', fn.params[0]['n']) if fn.params else None

        def thin(L, d):
            """dimension d is one section of one element"""
            a = [eq_lit(L, c, ('c', 1)) for c in (('call', BTQ + 'section_number', (T, d)), ('at', SBD, d))]
            b = [eq_lit(L, c, ('c', 1)) for c in (('call', BTQ + 'section_size', (T, d, ZERO)), ('at', SIZES, ('sum', SBD, ZERO, d)))]
            if True in a and True in b:
                return True
            return False if False in a or False in b else None

        for s, k, v in R.outs:
            if k not in ('return', 'throw') or k == 'throw' and v[0] != 'throw':
                continue
            L = lits(N, s.facts)
            if dim is not None:
                neg = L.get(('lt0', dim))
                d = add(dim, RANK) if neg else dim
                lo, hi = known_lt(L, d, ZERO), known_lt(L, d, RANK)
                inside = False if lo is True or hi is False else True if (lo is False or neg is False) and (hi is True or neg is True) else None
                if k == 'throw':
                    ob('only a dimension the tensor does not have is refused', inside is False, 'line %s' % (v[2] if len(v) > 2 else ''))
                    continue
                ob('a dimension the tensor does not have is refused', inside is True, '')
            elif k == 'throw':
                ob('never refused', False, 'line %s' % (v[2] if len(v) > 2 else ''))
                continue
            n += 1
            t = unassign(strip_copies(value(R.I, s, v)))
            if N(t) == T and dim is not None:
                ob('a dimension of one element is removed', thin(L, d) is False, 'the tensor is left as it is')
                continue
            ok = t[0] == 'call' and t[1] == VIEW and len(t[2]) in (2, 3) and N(t[2][0]) == T and (len(t[2]) == 2 or N(t[2][2]) == ZERO)
            if not ob('it becomes a slice of itself with less dimensions', ok, 'it becomes %s' % fmt(N(t), 4)):
                continue
            x = bare(t[2][1])
            if dim is not None:
                ob('only a dimension of one element is removed', thin(L, d) is True, '')
                ps = x[2] if x[0] == 'upd' else ()
                c = bare(x[1]) if x[0] == 'upd' else x
                ok = len(ps) == 1 and N(ps[0][0][1]) == d and N(ps[0][1]) == ZERO and filled_with(R, c, RANK)
                ob('every other dimension is kept', ok, 'the slice is %s' % fmt(N(x), 5))
                continue
            rec = R.I.phirec.get(x)
            if not ob('every dimension is looked at', rec is not None and whole_pass(R, rec, [RANK, ('call', 'size', (SBD,)), ('call', 'size', (x,))]), fmt(N(x), 4)):
                continue
            it = ('iter', rec['site'])
            for e, val in entries(R, x, rec):
                Le = lits(N, e[1])
                th = thin(Le, it)
                val = val and N(val)
                ob('dimensions of one element are removed, the others kept', th is not None and val == (ZERO if th else NEG), 'line %s marks a dimension with %s' % (rec['line'], val and fmt(val, 4)))
    for fn in F.q(BTQ + 'squeeze'):
        R = Run(F, fn, ())
        ob = lambda nm, ok, why='': ctx.ob('squeeze: %s' % nm, ok, W(fn), why or '')
        args = tuple(('sym', p['n']) for p in fn.params)
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            t = R.val(s, v)
            ok = len(t) > 3 and t[0] == 'mut' and t[1] == BTQ + 'squeeze_' and tuple(t[3]) == (T,) + args or t == ('call', BTQ + 'squeeze_', (T,) + args)
            ob('the version that returns a tensor squeezes a copy', ok, 'returns %s' % fmt(t, 4))
    return n


def filled_with(R, c, n):
    a = [y for y in c[2] if not (y[0] == 'ctor' and 'allocator' in y[1])] if c[0] == 'ctor' and c[1] in LISTS else []
    return len(a) == 2 and R.N(a[0]) == n and R.N(a[1]) == NEG


def a19(ctx):
    F = load(['btensor.cpp'], True)
    ctx.meta = {'shapes': shape_rule(ctx, F), 'searches': locate_rule(ctx, F), 'views': view_rule(ctx, F), 'restored': restore_rule(ctx, F),
                'assignments': put_rule(ctx, F) + refuse_rule(ctx, F), 'squeezes': squeeze_rule(ctx, F)}
    ctx.assumption('torch: index and index_put_ with integers and slices as documented')
    ctx.assumption('section lookups, shape checks, reshape_as and from_basic_tensor_like behave as other properties state')
