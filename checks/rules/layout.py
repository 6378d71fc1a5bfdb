"""How the sections of a result are laid out: permutations (A12)."""
from rules.addition import *

LISTS = ('std::vector', 'quantit::any_quantity_vector', 'quantit::quantity_vector')


def unassign(t):
    """an element assigned through its operator= holds the assigned value"""
    while len(t) > 3 and t[0] == 'mut' and t[1].split('::')[-1] == 'operator=' and t[2] == 'obj' and len(t[3]) == 2:
        t = t[3][1]
    return t


def bare(t):
    """list behind copies, moves and reservations"""
    while True:
        t = strip_copies(t)
        if t[0] == 'ctor' and t[1] in LISTS and len(t[2]) == 1 and t[2][0][0] not in ('c', 'aff'):
            t = t[2][0]
        elif len(t) > 3 and t[0] == 'mut' and t[1].split('::')[-1] in ('reserve', 'shrink_to_fit') and t[2] == 'obj':
            t = t[3][0]
        else:
            return t


def starts_empty(t):
    t = bare(t)
    if t[0] == 'ctor' and t[1] in LISTS:
        return all(x == ZERO or i and x[0] == 'call' and 'neutral' in x[1] or x[0] == 'ctor' and 'allocator' in x[1] for i, x in enumerate(t[2])) if t[2] and t[2][0][0] != 'list' else t[2] in ((), (('list', ()),))
    return empty_container(t) if t[0] != 'ctor' else False


def free_of(t, x):
    return not any(y == x for y in subterms(t))


def span(R, b, e):
    """iterator pair -> (list, first, last)"""
    b, e = strip_conv(b), strip_conv(e)
    s = [section_run(R.N(x)) for x in (b, e)]
    if None not in s and s[0][:2] == s[1][:2] and [x[2] for x in s] == ['get0', 'get1']:
        f, d = fields(s[0][0]), s[0][1]
        lo = ('sum', f[0], ZERO, d)
        return f[1], lo, add(lo, ('at', f[0], d))
    r = R.N.range(b, e)
    return r and (r[0], R.N(r[1]), R.N(r[2]))


def section_run(x):
    """one end of the section sizes of a dimension -> (tensor, dimension, which end)"""
    if len(x) > 2 and x[0] == 'get' and x[1][0] == 'call' and x[1][1] == 'quantit::btensor::section_sizes' and len(x[1][2]) == 2:
        return x[1][2] + (FIELD.get(x[2][1], x[2][1]),)
    return None


def at_end(R, it, x):
    """the iterator is the end of the list x: begin + size(x)"""
    _, m = aff(it)
    h = [a for a, k in m.items() if a[0] == 'begin' and k == 1]
    return len(h) == 1 and R.N(sub(it, h[0])) == R.N(('call', 'size', (x,)))


def deconv(t):
    while len(t) == 3 and t[0] == 'call' and t[1].split('::')[-1].startswith('operator ') and len(t[2]) == 1:
        t = t[2][0]
    return t


def appended(R, y, x):
    """y is x with runs of other lists appended: [(list, first, last)] or None.  Every run is (seq, lo, hi) = seq[lo..hi)"""
    I, N = R.I, R.N
    runs = []
    y = bare(y)
    while y != x:
        if len(y) > 3 and y[0] == 'mut' and y[1].split('::')[-1] == 'insert' and y[2] == 'obj' and len(y[3]) == 4:
            old = bare(y[3][0])
            r = span(R, deconv(y[3][2]), deconv(y[3][3]))
            if r is None or not at_end(R, deconv(y[3][1]), y[3][0]):
                return None
            runs.append(r)
            y = old
        elif y[0] == 'phi' and y in I.phirec:
            r = run_loop(R, y)
            if r is None:
                return None
            runs.append(r[1])
            y = r[0]
        elif len(y) > 3 and y[0] == 'mut' and y[1] in ('std::copy', 'std::copy_n') and y[2] == 'out' and len(y[3]) == 4:
            b, e = y[3][1], y[3][2]
            r = span(R, b, add(b, e) if y[1] == 'std::copy_n' else e)
            if r is None:
                return None
            R.written = getattr(R, 'written', {})
            R.written[y] = (y[3][3], sub(r[2], r[1]))
            runs.append(r)
            y = bare(y[3][0])
        else:
            return None
    return runs[::-1]


def run_loop(R, y):
    """loop that appends seq[lo+j] for consecutive j: (list before, (seq, lo, hi)); positions are checked by `concat`"""
    I, N = R.I, R.N
    rec = I.phirec[y]
    j = ('iter', rec['site'])
    tr = R.trips.get(j)
    if not tr or len(tr) != 1 or rec.get('rets'):
        return None
    n = next(iter(tr))
    got = set()
    for e in rec['ends']:
        z = e[2].get(y, y)
        if len(z) > 3 and z[0] == 'mut' and z[1].split('::')[-1] in ('push_back', 'emplace_back') and z[3][0] == y and len(z[3]) == 2:
            got.add((None, N(unassign(z[3][1]))))
        else:
            ps = peel(z, y)
            if ps is None or len(ps) != 1:
                return None
            got.add((sub(N(ps[0][1]), j), N(unassign(ps[0][2]))))
    if len(got) != 1:
        return None
    pos, val = got.pop()
    if val[0] == 'E' and val[2] == ('pos', rec['site']):
        val = ('at', val[1], j)
    if val[0] != 'at':
        return None
    lo = sub(val[2], j)
    if not free_of(lo, j) or not free_of(n, j):
        return None
    before = bare(rec['init'].get(y, y))
    if pos is not None:
        R.positions = getattr(R, 'positions', {})
        R.positions[y] = (pos, j)
    return before, (val[1], lo, add(lo, n))


def concat(R, x):
    """x is the concatenation of runs of other lists: [(loop or None, [runs of one iteration])] in order, or (None, why)"""
    I, N = R.I, R.N
    stages = []
    x = bare(x)
    for _ in range(6):
        if starts_empty(x) or x[0] == 'ctor' and x[1] in LISTS:
            break
        if x[0] == 'phi' and x in I.phirec:
            rec = I.phirec[x]
            it = ('iter', rec['site'])
            if rec.get('rets') or not R.trips.get(it) or len(R.trips[it]) != 1:
                return None, 'the loop at line %s may stop early' % rec['line']
            runs = None
            for e in rec['ends']:
                r = appended(R, e[2].get(x, x), x)
                if r is None:
                    r1 = run_loop(R, x)
                    if r1 is not None:
                        r = 'flat'
                if r is None:
                    return None, 'an iteration of the loop at line %s makes it %s' % (rec['line'], fmt(N(e[2].get(x, x)), 5))
                if runs is not None and r != runs:
                    return None, 'iterations of the loop at line %s append different runs' % rec['line']
                runs = r
            for e in rec['exits']:
                if e[2].get(x, x) != x:
                    return None, 'the loop at line %s changes it when it ends' % rec['line']
            if runs == 'flat':
                b, run = run_loop(R, x)
                stages.append((None, [run]))
                x = b
            else:
                # a running write position moves on by the number of entries written
                for y, (pos, j) in getattr(R, 'positions', {}).items():
                    for e in rec['ends']:
                        if bare(e[2].get(x, x)) != y:
                            continue
                        ok = False
                        for c, c0 in rec['init'].items():
                            if c0 == ZERO and N(c) == pos and N(e[2].get(c, c)) == add(pos, j):
                                ok = True
                        if not ok:
                            return None, 'entries are written at %s' % fmt(pos, 5)
                for y, (pos, n) in getattr(R, 'written', {}).items():
                    for e in rec['ends']:
                        if bare(e[2].get(x, x)) == y and not moves_on(R, rec, e, x, pos, n):
                            return None, 'entries are written at %s' % fmt(N(pos), 5)
                stages.append((rec, runs))
                x = bare(rec['init'].get(x, x))
            continue
        r = appended_once(R, x)
        if r is None:
            return None, 'it starts from %s' % fmt(N(x), 5)
        stages.append((None, r[1]))
        x = r[0]
    return x, stages[::-1]


def moves_on(R, rec, e, x, pos, n):
    """the write position starts at the beginning of x and moves on by n"""
    N = R.N
    p = pos
    for c, c0 in rec['init'].items():
        if len(c) > 2 and c[2] != 'idx' and contains(p, c):
            z = N(c0)
            o = sub(p, c)
            z = add(z, o)
            at_start = z == ZERO or len(z) > 2 and z[0] == 'begin' and not z[2]
            w = e[2].get(c, c)
            if w[0] == 'call' and w[1] == 'std::copy' and len(w[2]) == 3:       # where the copy ended
                w = add(w[2][2], sub(w[2][1], w[2][0]))
            if at_start and not contains(o, c) and N(sub(w, c)) == N(n):
                return True
    return False


def prefix_sums(R, t):
    """entries of lists of running sums, written out"""
    N = R.N

    def of(y):
        rec = R.I.phirec.get(y)
        if rec is None or len(y) < 3 or y[2] == 'idx' or rec.get('rets'):
            return None
        it = ('iter', rec['site'])
        init = bare(rec['init'].get(y, y))
        if not (init[0] == 'ctor' and init[1] in LISTS and len(init[2]) in (1, 2, 3) and init[2][0][0] != 'list' and (len(init[2]) == 1 or init[2][1] == ZERO or init[2][1][0] == 'ctor')):
            return None
        n = sub(N(('call', 'size', (init,))), ONE)
        if not (R.trips.get(it) or set()) & {n}:
            return None
        got = set()
        for e in rec['ends']:
            ps = peel(e[2].get(y, y), y)
            if ps is None or len(ps) != 1 or N(ps[0][1]) != add(it, ONE):
                return None
            got.add(sub(N(ps[0][2]), ('at', N(y), it)))
        v = got.pop() if len(got) == 1 else None
        return v[1] if v and v[0] == 'at' and v[2] == it else None

    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'at' and len(t) == 3 and t[1][0] == 'phi':
            q = of(t[1])
            if q is not None:
                return ('sum', q, ZERO, go(t[2]))
        if t[0] == 'aff':
            r = ('c', t[1])
            for a, k in t[2]:
                r = add(r, go(a), k)
            return r
        return tuple(go(x) if isinstance(x, tuple) else x for x in t)
    return go(t)


def appended_once(R, y):
    if len(y) > 3 and y[0] == 'mut' and y[1].split('::')[-1] == 'insert' and y[2] == 'obj' and len(y[3]) == 4:
        r = span(R, deconv(y[3][2]), deconv(y[3][3]))
        if r is not None and at_end(R, deconv(y[3][1]), y[3][0]):
            return bare(y[3][0]), [r]
    return None


# ------------------------------------------------------------------ permutations
PERM = ('PERM',)


def normalised(R, v, P, bound):
    """v is a copy of the permutation P with negative entries counted from the end"""
    I, N = R.I, R.N
    v = bare(v)
    if v[0] != 'phi' or v not in I.phirec:
        return False
    rec = I.phirec[v]
    it = ('iter', rec['site'])
    init = bare(rec['init'].get(v, v))
    if rec.get('rets') or not (R.trips.get(it) or set()) & set(bound):
        return False
    pushed = set()
    for e in rec['ends']:
        z = e[2].get(v, v)
        if len(z) > 3 and z[0] == 'mut' and z[1].split('::')[-1] in ('push_back', 'emplace_back') and z[3][0] == v:
            val = N(z[3][1])
            pushed.add(True)
        else:
            ps = peel(z, v)
            if ps is None or len(ps) != 1 or N(ps[0][1]) != it:
                return False
            val = N(ps[0][2])
            pushed.add(False)
        p = ('at', P, it)
        if init == P or bare(N(init)) == P:
            val = rebase(val, [(('at', N(v), it), p)])
        L = R.lits(e[1], (it,))
        neg = L.get(('lt0', p))
        if val == add(p, RANK):
            if neg is not True:
                return False
        elif val == p:
            if neg is not False:
                return False
        elif not (val[0] == 'op' and val[1] == '%' and val[2] == (add(p, RANK), RANK)):
            return False
    if pushed == {True}:
        return starts_empty(init)
    return pushed == {False} and (N(('call', 'size', (init,))) in bound or N(init) == P)


def pos_of(R, x, V):
    """iterator or pointer into the vector V -> position"""
    if x[0] == 'ref' and x[1][1] and x[1][1][-1][0] == 'i':
        k = x[1][1][-1][1]
        if len(x[1][1]) == 1 and x[1][0] == V:
            return R.N(('at', ('L',), k))[2] if isinstance(k, tuple) and k[:1] != ('key',) else None
    _, m = aff(x)
    for a, c in m.items():
        if c == 1 and a[0] == 'begin' and a[1] == V and not a[2]:
            return R.N(sub(x, a))
        if c == 1 and a[0] == 'call' and a[1].split('::')[-1] == 'data' and len(a[2]) == 1:
            return R.N(sub(x, a))
    return None


def permute_rule(ctx, F):
    n = 0
    fns = [f for f in F.q(BTQ + 'permute') if len(f.params) == 1]
    ctx.need(fns, 'btensor::permute not found')
    for fn in fns:
        R = Run(F, fn, {'quantit::flat_map'})
        I, C, N, w = R.I, R.C, R.N, W(fn)
        P = ('sym', fn.params[0]['n'])
        nret = 0
        for s, k, v in R.outs:
            if k != 'return':
                continue
            nret += 1
            out = strip_copies(value(I, s, v))
            ob = lambda nm, ok, why='': ctx.ob('permute: %s' % nm, ok, w, why)
            if not ob('builds a tensor from permuted parts', out[0] == 'ctor' and out[1] == 'quantit::btensor' and len(out[2]) == 7, 'returns %s' % fmt(N(out), 4)):
                continue
            n += 1
            L = R.lits(s.facts)
            same_len = L.get(('eq0', sub(('call', 'size', (P,)), RANK))) is True
            bound = {RANK} | ({('call', 'size', (P,))} if same_len else set())
            R.sizes = {('call', 'size', (x,)): RANK for x in (P,) if same_len}
            vs = {y for p_ in list(I.phirec) for y in [p_] if normalised(R, y, P, bound)}
            roots = {r for r, t in s.env.items() if t in vs}
            rk, bl, sd, sz, cv, rule, opt = out[2]
            perm = lambda t: ren(t, {N(y): PERM for y in vs})
            for y in vs:
                R.sizes[N(('call', 'size', (y,)))] = RANK
            R.sizes[('call', 'size', (KEY,))] = RANK        # an index has one entry per dimension
            ob('rank', N(rk) == RANK, 'it becomes %s' % fmt(N(rk), 4))
            ob('selection rule', N(strip_v(rule)) == RULE or N(rule) == ('get', RULE, ('f', 'value')), 'it becomes %s' % fmt(N(rule), 4))
            ob('options', N(opt) == ('get', T, ('f', '_options')), 'they become %s' % fmt(N(opt), 4))
            f = filled(R, bare(sd))
            ok = f is not None and f[0] in bound and perm(f[2]) == ('at', SBD, ('at', PERM, f[1]))
            ob('section counts follow the dimensions', ok, 'entry: %s' % (fmt(f[2], 5) if f else fmt(N(sd), 5)))
            # sizes: for every dimension of the result in order, the run of the dimension it comes from
            x, st = concat(R, sz)
            if ob('section sizes are concatenated runs', x is not None, st):
                ok = (starts_empty(x) or N(('call', 'size', (x,))) == ('call', 'size', (SIZES,))) and len(st) == 1 and st[0][0] is not None and len(st[0][1]) == 1
                if ok:
                    rec, ((seq, lo, hi),) = st[0]
                    it = ('iter', rec['site'])
                    d = ('at', PERM, it)
                    lo, hi = (perm(ew(R, R.fin(prefix_sums(R, z), (it,)), rec, vs)) for z in (lo, hi))
                    ok = seq == SIZES and lo == ('sum', SBD, ZERO, d) and sub(hi, lo) == ('at', SBD, d) and bool(R.trips[it] & bound)
                    why = '%s from %s to %s' % (fmt(seq, 3), fmt(lo, 5), fmt(hi, 5))
                else:
                    why = 'built by %d passes' % len(st)
                ob('section sizes follow the dimensions', ok, why)
            cn = N(cv)
            a = strip_copies(cv)
            while a[0] == 'ctor' and a[1] == 'quantit::any_quantity_vector' and len(a[2]) == 1:
                a = a[2][0]
            ok = a[0] == 'call' and a[1] == 'quantit::any_quantity_vector::permute' and len(a[2]) == 4
            ob('quantities follow the dimensions', ok and N(a[2][0]) == CV and N(a[2][3]) == SBD
               and any(pos_of(R, a[2][1], r) == ZERO and pos_of(R, a[2][2], r) in bound for r in roots), 'they become %s' % fmt(cn, 5))
            # blocks
            src, per = mapped(I, C, bl)
            if not ob('every block is kept', src is not None, per):
                continue
            ob('the blocks are those of the tensor', C(src) == ('get', T, ('f', 'blocks_list')), 'they come from %s' % fmt(src, 4))
            for one in per:
                if not ob('one block for each', len(one) == 1, '%d blocks are stored for one' % len(one)):
                    continue
                key, val = one[0]
                g = filled(R, bare(key))
                good = g is not None and g[0] in bound
                if good:
                    e = perm(g[2])
                    good = e[0] == 'at' and e[2] == ('at', PERM, g[1]) and (e[1] == KEY or e[1][0] == 'E' and e[1][1] == ('get', T, ('f', 'blocks_list')) and e[1][3] == 'get0')
                ob('a block moves to the permuted index', good, 'entry: %s' % (fmt(g[2], 6) if g else fmt(key, 6)))
                ok = val[0] in ('op', 'call') and val[1].split('::')[-1] == 'permute' and len(val[2]) == 2 and val[2][0] == VAL and (val[2][1] == P or val[2][1] in vs or perm(N(val[2][1])) == PERM)
                ob('the content of a block is permuted alike', ok, 'it becomes %s' % fmt(val, 5))
        ctx.ob('permute has a normal outcome', nret > 0, w, 'none')
    return n


def ew(R, t, rec, vs):
    """an element visited by a range-for over a permutation is the permutation at the iteration count"""
    it = ('iter', rec['site'])

    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'E' and len(t) > 3 and t[2] == ('pos', rec['site']) and t[1] in {R.N(y) for y in vs}:
            return ('at', t[1], it)
        if t[0] == 'aff':
            r = ('c', t[1])
            for a, k in t[2]:
                r = add(r, go(a), k)
            return r
        return tuple(go(x) if isinstance(x, tuple) else x for x in t)
    return go(t)


def ren(t, m):
    if not isinstance(t, tuple) or not t:
        return t
    if t in m:
        return m[t]
    if t[0] == 'aff':
        r = ('c', t[1])
        for a, k in t[2]:
            r = add(r, ren(a, m), k)
        return r
    return tuple(ren(x, m) if isinstance(x, tuple) else x for x in t)


def quantities_rule(ctx, F):
    """permute of the lists of quantities"""
    n = 0
    for fn in F.q('quantit::quantity_vector::permute'):
        R = Run(F, fn)
        N, w = R.N, W(fn)
        b, e, rep = (('sym', p['n']) for p in fn.params)
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            x, st = concat(R, value(R.I, s, v))
            ob = lambda nm, ok, why='': ctx.ob('permute of a list of quantities: %s' % nm, ok, w, why)
            if not ob('concatenated runs', x is not None, st):
                continue
            ok = (starts_empty(x) or N(('call', 'size', (x,))) == ('call', 'size', (T,)) or bare(x)[2][:1] == (('call', 'size', (T,)),)) and len(st) == 1 and st[0][0] is not None and len(st[0][1]) == 1
            why = 'built by %d passes' % len(st)
            if ok:
                rec, ((seq, lo, hi),) = st[0]
                it = ('iter', rec['site'])
                d = ('deref', add(b, it))
                ok = seq == T and lo == ('sum', rep, ZERO, d) and sub(hi, lo) == ('at', rep, d) and sub(e, b) in R.trips[it]
                why = '%s from %s to %s, %s times' % (fmt(seq, 3), fmt(lo, 5), fmt(hi, 5), [fmt(t, 4) for t in R.trips[it]])
            ob('one run of the list per entry of the permutation', ok, why)
    for q in ('quantit::quantity_vector::virtual_permute', 'quantit::any_quantity_vector::permute'):
        fns = F.q(q)
        ctx.need(fns, q + ' not found')
        for fn in fns:
            R = Run(F, fn)
            p = [('sym', x['n']) for x in fn.params]
            for s, v, L in R.rets():
                n += 1
                if L.get(('eq0', ('call', 'nonnull', (('get', T, ('f', 'ptr')),)))) is True:
                    ctx.ob('permute of an empty list: empty', starts_empty(v), W(fn), 'returns %s' % fmt(v, 4))
                    continue
                c = [y for y in subterms(v) if y[0] == 'call' and y[1].split('::')[-1] in ('permute', 'virtual_permute') and len(y) > 2]
                ok = len(c) == 1 and tuple(c[0][2][1:]) == tuple(p) and c[0][2][0] in (T, ('get', ('get', T, ('f', 'ptr')), ('f', '*')), ('get', T, ('f', 'ptr')))
                ctx.ob('permute of a list of quantities: passed on', ok, W(fn), 'returns %s' % fmt(v, 5))
    return n


def iota_from_zero(R, t):
    """the list of 0, 1, 2, ... that t updates, its length"""
    t = base_of(t)
    if len(t) > 3 and t[0] == 'mut' and t[1].split('::')[-1] == 'iota' and t[3][-1] == ZERO:
        rng = R.N.range(t[3][-3], t[3][-2])
        size = R.N(('call', 'size', (t[3][0],)))
        return (t, size) if rng is not None and rng[1] == ZERO and R.N(rng[2]) == size else None
    f = filled(R, t)
    return (t, f[0]) if f is not None and f[2] == f[1] else None


def transpose_rule(ctx, F):
    n = 0
    for name in ('transpose', 'transpose_'):
        fns = [f for f in F.q(BTQ + name) if len(f.params) == 2]
        ctx.need(fns, name + ' not found')
        for fn in fns:
            R = Run(F, fn)
            N, w = R.N, W(fn)
            D = [('sym', p['n']) for p in fn.params]
            target = BTQ + ('permute_' if name.endswith('_') else 'permute')
            for s, k, v in R.outs:
                if k != 'return':
                    continue
                n += 1
                ob = lambda nm, ok, why='': ctx.ob('%s: %s' % (name, nm), ok, w, why)
                L = R.lits(s.facts)
                pos = [add(d, RANK) if L.get(('lt0', d)) is True else d if L.get(('lt0', d)) is False else None for d in D]
                if None not in pos and eq_lit(L, *pos) is True and not flat(s.log):
                    ob('exchanging a dimension with itself changes nothing', R.C(s.env.get(('o', 'this'), T)) == T and N(strip_copies(value(R.I, s, v))) == T, '')
                    continue
                ev = [e for e in flat(s.log) if e[0] == 'call' and e[1] in (BTQ + 'permute', BTQ + 'permute_')]
                out = N(strip_copies(value(R.I, s, v)))
                ok = len(ev) == 1 and ev[0][1] == target and N(ev[0][2]) == T and len(ev[0][3]) == 1
                if not ob('is one permutation of the tensor', ok, 'calls %s' % [e[1] for e in ev]):
                    continue
                raw = ev[0][3][0]
                base, length = iota_from_zero(R, bare(raw)) or (None, None)
                entries = {}
                if base:
                    ps = peel(bare(raw), base)
                    old = lambda x: base_entry(R, x, base)
                    for _, kk, vv in ps or []:
                        entries[N(kk)] = old(N(vv))
                ok = base and None not in pos and entries == {pos[0]: pos[1], pos[1]: pos[0]}
                ob('the two dimensions are exchanged, the others stay', bool(ok), 'permutation %s' % fmt(N(raw), 6))
                if base:
                    ob('the permutation covers every dimension', length == RANK, 'it covers %s' % fmt(length, 4))
                if name == 'transpose':
                    ob('returns the permuted tensor', out == ('call', target, (T, N(raw))), 'returns %s' % fmt(out, 5))
                    ob('the operand is left alone', R.C(s.env.get(('o', 'this'), T)) == T, '')
    for fn in F.q(BTQ + 'permute_'):
        R = Run(F, fn)
        P = ('sym', fn.params[0]['n'])
        for s, v, L in R.rets():
            n += 1
            x = R.N(s.env.get(('o', 'this'), T))
            want = ('call', BTQ + 'permute', (T, P))
            ok = len(x) > 3 and x[0] == 'mut' and x[1].split('::')[-1] in ('swap', 'operator=') and tuple(x[3]) == (T, want) or x == want
            ctx.ob('permute_: becomes the permuted tensor', ok, W(fn), 'becomes %s' % fmt(x, 5))
    return n


def base_entry(R, x, base):
    """entry of a vector filled with 0, 1, 2, ..."""
    if x[0] == 'at' and (x[1] == R.N(base) or x[1] == base):
        return x[2]
    return x


def a12(ctx):
    F = load(['btensor.cpp'], True)
    ctx.meta = {'permutations': permute_rule(ctx, F), 'quantity_lists': quantities_rule(ctx, F), 'transpositions': transpose_rule(ctx, F)}
