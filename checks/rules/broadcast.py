"""Broadcasting element-wise operations of two block tensors (A07)."""
from rules.elementwise import *

MH = 'quantit::mul_helpers::'


class BC(BT):
    split_minmax = True

    def __init__(self, F, deep=()):
        super().__init__(F, deep)
        self.tables = {}          # term of a quantified test -> (kind, truth of the predicate on 0..3)

    def on_call(self, s, e, f, ol, args):
        if f in ('std::any_of', 'std::none_of', 'std::all_of') and len(args) == 3:
            v = tuple(self.argval(s, a) for a in args)
            tab = []
            for m in range(4):
                r = self.call_value(s.copy(), v[2], [('v', ('c', m))], e)
                vals = {x[1] for x in r}
                b = {self.test_const(x) for x in vals}
                tab.append(b.pop() if len(b) == 1 else None)
            t = ('call', f, (v[0], v[1], ('table', tuple(tab))))
            return [(s, t)]
        return super().on_call(s, e, f, ol, args)

    def test_const(self, t):
        return bool(t[1]) if is_c(t) else None


def stays_below(k, d, v, it, b):
    """the literal says that the iteration count is below b"""
    if k == 'eq0':
        return not v and d in (sub(it, b), sub(b, it))
    o = sub(d, sub(it, b)) if v else sub(d, sub(b, it))
    return k == 'lt0' and is_c(o) and (o[1] >= 0 if v else o[1] < 0)


def trip(I, N, rec):
    """number of iterations, from the loop's exit conditions (in closed form), or None"""
    it = ('iter', rec['site'])
    if rec['kind'] == 'rfor':
        return N(('call', 'size', (I.read(rec['entry'], rec['rng']),)))
    best = None
    if not rec['exits']:
        return None
    for log, facts, vals, st in rec['exits']:
        c = set()
        for (k, d), v in facts.items():
            n = N(d)
            co, m = aff(n)
            kk = m.get(it)
            if kk not in (1, -1):
                continue
            rest = sub(n, ('aff', 0, ((it, kk),))) if kk != 1 else sub(n, it)
            if k == 'eq0' and v:
                c.add(mul(rest, ('c', -kk)))
            elif k == 'lt0' and kk == 1 and not v:
                c.add(mul(rest, ('c', -1)))
            elif k == 'lt0' and kk == -1 and v:
                c.add(add(rest, ONE))
        best = c if best is None else best & c
    if best:      # the loop runs while any of several conditions holds: up to the bound every iteration is below
        sure = {b for b in best if all(any(stays_below(k, N(d), v, it, b) for (k, d), v in e[1].items()) for e in rec['ends'])}
        best = sure
    return best


def offset(pos, size, it, n):
    """pos relative to the end of a list of the given size; None unless it runs over the last n positions exactly once"""
    o = sub(pos, size)
    if o == sub(('c', -1), it):
        return 'down'
    if o == sub(it, n):
        return 'up'
    return None


def lits(N, facts):
    return {(k, N(d)): v for (k, d), v in facts.items()}


def eq_lit(L, a, b):
    """truth of a == b among the literals"""
    d = sub(a, b)
    for x in (d, mul(d, ('c', -1))):
        if ('eq0', x) in L:
            return L[('eq0', x)]
    for k, v in L.items():
        if k[0] == 'lt0' and v and k[1] in (d, mul(d, ('c', -1))):
            return False
    if L.get(('lt0', d)) is False and L.get(('lt0', mul(d, ('c', -1)))) is False:
        return True
    if is_c(d):
        return d[1] == 0
    return None


def match_rule(ctx, F):
    fns = F.q(MH + 'match_index')
    for fn in fns:
        I = BC(F)
        outs = I.analyse(fn)
        C = Canon(I)
        N = Norm(I, C)
        w = W(fn)
        ob = lambda n, ok, why='': ctx.ob('match_index: %s' % n, ok, w, why)
        names = [p['n'] for p in fn.params]
        sr, mk, a, b = (('sym', x) for x in names)
        loops = [r for r in I.loops if r['depth'] == 1]
        count = None
        if not ob('one loop over the common dimensions', len(loops) == 1, 'found %d loops' % len(loops)):
            continue
        rec = loops[0]
        it = ('iter', rec['site'])
        msize = N(('call', 'size', (mk,)))
        t = trip(I, N, rec)
        n = next((x for x in (sr, msize) if t and x in t), None)
        ob('all common dimensions are compared', n is not None, 'the loop runs %s times' % [fmt(x, 3) for x in (t or ())])
        if n is None:
            continue
        ways = []
        res = None
        for s, k, v in outs:
            if k == 'return' and v is not None:
                x = value(I, s, v)
                while x[0] == 'phi' and x not in rec['init'] and x in I.phirec:
                    break
                if x[0] == 'phi':
                    res = x
        if res is None:
            count = next((c for c in rec['init'] if rec['init'][c] == ZERO and any(('eq0', c) in s.facts for s, k, v in outs)
                          and all(N0(vals.get(c, c), c) in (0, 1) for log, facts, vals, st in rec['ends'])), None)
        for log, facts, vals, st in rec['ends']:
            if count is not None:
                ways.append((lits(N, facts), not N0(vals.get(count, count), count)))
                continue
            if res is None:
                ways.append((lits(N, facts), True))
                continue
            x = vals.get(res, res)
            ways.append((lits(N, facts), keeps(x, res)))
        for s2, kind, v in rec.get('rets') or ():
            if kind == 'return':
                x = value(I, s2, v)
                ways.append((lits(N, s2.facts), None if not is_c(x) or x[1] else False))
        if res is not None:
            ob('starts out as a match', rec['init'].get(res) == ONE, 'starts as %s' % fmt(rec['init'].get(res), 3))
        elif count is not None:
            ob('is a match when no dimension differs', all(is_c(value(I, s, v)) and bool(value(I, s, v)[1]) == s.facts.get(('eq0', count)) for s, k, v in outs
                                                          if k == 'return' and not any(s is x[0] for x in rec.get('rets') or ())), 'the number of differences decides otherwise')
        else:
            fin = {value(I, s, v) for s, k, v in outs if k == 'return' and (s.facts, k) and not any(s is x[0] for x in rec.get('rets') or ())}
            ob('is a match when no dimension differs', ONE in fin or ('c', True) in fin, 'returns %s' % [fmt(x, 3) for x in fin])
        for L, keep in ways:
            m = pair = None
            for (k, d), v in L.items():
                if k != 'eq0':
                    continue
                if d[0] == 'at' and d[1] == mk and offset(d[2], msize, it, n):
                    m = v
                else:
                    c, ms = aff(d)
                    at = list(ms)
                    if c == 0 and len(at) == 2 and all(x[0] == 'at' for x in at) and {x[1] for x in at} == {a, b}:
                        os_ = {offset(x[2], N(('call', 'size', (x[1],))), it, n) for x in at}
                        if len(os_) == 1 and None not in os_:
                            pair = v
            if keep is True:
                ob('dimension accepted only when broadcast or equal', m is False or pair is True, 'accepted with mask %s, equality %s' % (m, pair))
            elif keep is False:
                ob('dimension rejected only when not broadcast and different', m is True and pair is False, 'rejected with mask zero: %s, equal: %s' % (m, pair))
            else:
                ob('dimension judged', False, 'the result of an iteration is neither kept nor cleared')


def N0(x, old):
    d = sub(x, old)
    return d[1] if is_c(d) else None


def keeps(x, old):
    """effect of an iteration on the running answer: True unchanged, False cleared, None otherwise"""
    if x == old:
        return True
    if is_c(x):
        return None if x[1] else False
    if x[0] in ('bin', 'call') and x[1] == '&' or x[0] == 'bit' :
        a = x[2] if x[0] == 'call' else x[2:4]
        a = [y for y in a if y != old]
        if len(a) == 1 and is_c(a[0]):
            return bool(a[0][1])
    return None


def out_index_rule(ctx, F):
    for fn in F.q(MH + 'out_index'):
        I = BC(F)
        outs = I.analyse(fn)
        C = Canon(I)
        N = Norm(I, C)
        w = W(fn)
        ob = lambda n, ok, why='': ctx.ob('out_index: %s' % n, ok, w, why)
        large, small = ('sym', fn.params[1]['n']), ('sym', fn.params[2]['n'])
        for s, k, v in outs:
            if k != 'return':
                continue
            r = strip_copies(value(I, s, v))
            if not ob('built in a loop over the shorter index', r[0] == 'phi' and r in I.phirec, 'returns %s' % fmt(N(r), 4)):
                continue
            rec = I.phirec[r]
            it = ('iter', rec['site'])
            ssize, lsize = N(('call', 'size', (small,))), N(('call', 'size', (large,)))
            t = trip(I, N, rec)
            n = ssize if t and ssize in t else None
            ob('covers the whole shorter index', n is not None, 'the loop runs %s times' % [fmt(x, 3) for x in (t or ())])
            first = strip_copies(rec['init'][r])
            if first[0] == 'ctor' and first[1] == 'std::vector' and len(first[2]) >= 2 and N(first[2][0]) == N(('begin', ('o', large[1]), ())) \
                    and N(sub(first[2][1], first[2][0])) == lsize:
                first = large       # the vector of the same entries
            ob('starts from the longer index', C(first) == large, 'starts from %s' % fmt(C(rec['init'][r]), 3))
            if n is None:
                continue
            for log, facts, vals, st in rec['ends']:
                L = {(k_, rebase(d, [(r, large)])): v_ for (k_, d), v_ in lits(N, facts).items()}   # every entry is visited once
                ps = peel(vals.get(r, r), r)
                A = B = None
                good = ps is not None and len(ps) <= 1
                why = 'more than one entry changes'
                if good:
                    off = offset(N(ps[0][1]), lsize, it, n) if ps else None
                    for o in ([off] if ps else ['down', 'up']):
                        x = sub(('c', -1), it) if o == 'down' else sub(it, n)
                        A, B = ('at', large, add(lsize, x)), ('at', small, add(ssize, x))
                        lt = L.get(('lt0', sub(A, B)))
                        gt = L.get(('lt0', sub(B, A)))
                        val = rebase(N(ps[0][2]), [(r, large)]) if ps else A
                        good = (val == B and (lt is True or gt is False)) or (val == A and (lt is False or gt is True))
                        good = good and o is not None
                        if good:
                            break
                    why = 'entry %s becomes %s' % (fmt(N(ps[0][1]), 4) if ps else '', fmt(N(ps[0][2]), 4) if ps else 'unchanged')
                ob('each entry is the larger of the two', good, why)


def shape_rule(ctx, F):
    for fn in F.q(MH + 'shape_compute'):
        I = BC(F)
        outs = I.analyse(fn)
        C = Canon(I)
        w = W(fn)
        ob = lambda n, ok, why='': ctx.ob('broadcast shape: %s' % n, ok, w, why)
        P = [('sym', p['n']) for p in fn.params]
        sm, lg = P[3], P[4]
        srk, lrk = ('get', sm, ('f', 'rank')), ('get', lg, ('f', 'rank'))
        N = Norm(I, C, {P[1]: srk, P[2]: lrk})
        rets = [(s, value(I, s, v)) for s, k, v in outs if k == 'return']
        ob('returns', bool(rets), 'no normal outcome')
        sbd = lambda t: ('get', t, ('f', 'sections_by_dim'))
        seen = set()
        for s, val in rets:
            comp = [strip_copies(proj(val, ('f', 'get%d' % i))) for i in range(5)]
            ob('selection rules multiply', N(comp[4]) in (('call', 'quantit::operator*', (('get', a, ('f', 'selection_rule')), ('get', b, ('f', 'selection_rule'))))
                                                          for a, b in ((sm, lg), (lg, sm))), 'it is %s' % fmt(N(comp[4]), 5))
            mask, ns = comp[0], comp[1]
            if not ob('mask and section numbers come from one pass', mask[0] == 'phi' and mask in I.phirec and ns[0] == 'phi' and ns[1] == mask[1],
                      'mask %s, sections %s' % (fmt(mask, 3), fmt(ns, 3))):
                continue
            rec = I.phirec[mask]
            it = ('iter', rec['site'])
            if rec['site'] not in seen:
                seen.add(rec['site'])
                mask_loop(I, N, rec, mask, ns, sm, lg, srk, lrk, it, ob, sbd)
                for s2, k2, v2 in outs:
                    if k2 == 'throw':
                        mask_throw(Pass(I, N), lits(N, s2.facts), sm, lg, srk, lrk, it, ob, sbd)
            sizes_rule(I, N, s, comp, sm, lg, srk, lrk, mask, ns, ob)


def single(L, N, X, rk, x, sbd):
    """is X a singleton in the dimension at distance x from the end, according to the literals"""
    a = L.get(('eq0', sub(('at', sbd(X), add(rk, x)), ONE)))
    b = None
    for d in (('call', 'quantit::btensor::section_size', (X, add(rk, x), ZERO)),):
        v = L.get(('eq0', sub(d, ONE)))
        b = v if v is not None else b
    if a and b:
        return True
    if a is False or b is False:
        return False
    return None


def equal_range(L, X, Y):
    for (k, d), v in L.items():
        if k == 'eq0' and d[0] == 'call' and d[1] == 'std::equal' and len(d[2]) >= 3:
            r = repr(d)
            if repr(X) in r and repr(Y) in r:
                return not v
    return None


class Pass:
    def __init__(self, I, N):
        self.I, self.N = I, N


def equal_sections(L, sm, lg, srk, lrk, x, R=None):
    r = equal_call(L, sm, lg, srk, lrk, x)
    if r is not None or R is None:
        return r
    # an element-wise comparison
    ends = {}
    for (k, d), v in L.items():
        for y in subterms(d):
            if y[0] == 'get' and len(y) > 2 and y[1][0] == 'call' and y[1][1] == 'quantit::btensor::section_sizes' and y[1][2] in ((sm, add(srk, x)), (lg, add(lrk, x))):
                ends[(y[1][2][0], FIELD.get(y[2][1], y[2][1]))] = y
    if len(ends) < 4:
        return None
    a, b, n, m = ends[(sm, 'get0')], ends[(lg, 'get0')], sub(ends[(sm, 'get1')], ends[(sm, 'get0')]), sub(ends[(lg, 'get1')], ends[(lg, 'get0')])
    if eq_lit(L, n, m) is False:
        return False
    from rules.contraction import for_all

    def cond(R, L, j):
        return eq_lit(L, ('deref', add(a, j)), ('deref', add(b, j)))
    for y in list(R.I.phirec.values()):
        if cond(R, L, ('iter', y['site'])) is False:
            return False
    for z in (n, m):
        r, why = for_all(R, L, z, cond)
        if r is not None:
            return r
    return None


def equal_call(L, sm, lg, srk, lrk, x):
    """truth of "the section sizes in this dimension are equal", from std::equal on the two ranges"""
    ds = {add(srk, x): sm, add(lrk, x): lg}
    for (k, d), v in L.items():
        if k == 'eq0' and d[0] == 'call' and d[1] == 'std::equal' and len(d[2]) in (3, 4):
            r = []
            for y in d[2]:
                if y[0] == 'get' and y[1][0] == 'call' and y[1][1].startswith('quantit::btensor::section_sizes'):
                    r.append((y[1][2][0], y[1][2][1], FIELD.get(y[2][1], y[2][1])))
                else:
                    r.append(None)
            a, b = (sm, add(srk, x)), (lg, add(lrk, x))
            if None in r:
                continue
            one = {r[0][:2], r[2][:2]}
            if one == {a, b} and r[0][2] == 'get0' and r[1] == r[0][:2] + ('get1',) and r[2][2] == 'get0' and (len(r) == 3 or r[3] == r[2][:2] + ('get1',)):
                return not v
    return None


def mask_loop(I, N, rec, mask, ns, sm, lg, srk, lrk, it, ob, sbd):
    t = trip(I, N, rec)
    n = srk if t and srk in t else None
    if not ob('all common dimensions are examined', n is not None, 'the loop runs %s times' % [fmt(x, 3) for x in (t or ())]):
        return
    ob('section numbers start as those of the tensor of larger rank', N(strip_copies(rec['init'][ns])) == sbd(lg), 'they start as %s' % fmt(N(rec['init'][ns]), 3))
    for log, facts, vals, st in rec['ends']:
        L = lits(N, facts)
        ps = peel(vals.get(mask, mask), mask)
        qs = peel(vals.get(ns, ns), ns)
        if not ob('one entry per dimension', ps is not None and len(ps) == 1 and qs is not None and len(qs) <= 1, 'an iteration changes several entries'):
            continue
        o = offset(N(ps[0][1]), srk, it, n)
        x = sub(('c', -1), it) if o == 'down' else sub(it, n)
        S, T = single(L, N, sm, srk, x, sbd), single(L, N, lg, lrk, x, sbd)
        m = N(ps[0][2])
        if not ob('singleton dimensions are recognised', o and S is not None and T is not None and is_c(m) and m[1] == int(S) + 2 * int(T),
                  'marked %s where smaller singleton is %s and larger singleton is %s' % (fmt(m, 3), S, T)):
            continue
        a, b = ('at', sbd(sm), add(srk, x)), ('at', sbd(lg), add(lrk, x))
        if qs:
            ob('section number written at the same dimension', N(qs[0][1]) == add(lrk, x), 'written at %s' % fmt(N(qs[0][1]), 4))
            q = N(qs[0][2])
        else:
            q = b
        lt, gt = L.get(('lt0', sub(a, b))), L.get(('lt0', sub(b, a)))
        ok = S and T or (q == b and (S or not T or lt is False or gt is True)) or (q == a and (T and not S or lt is False and False or gt is False and False)) \
            or (q == a and not S and not T) or (q == a and (lt is False or gt is True)) or (q == b and (lt is True or gt is False))
        # the number of the operand that is not a singleton (the larger one, a singleton has a single section)
        big = q == a and (lt is False or gt is True) or q == b and (lt is True or gt is False)
        nonsing = (q == b and not T) or (q == a and not S) or (S and T)
        ob('section number is that of the non-singleton operand', bool(big or nonsing), 'it is %s with mask %d' % (fmt(q, 4), m[1]))
        if m[1] == 0:
            e1 = eq_lit(L, a, b)
            e2 = equal_sections(L, sm, lg, srk, lrk, x, Pass(I, N))
            ob('non-singleton dimensions must have the same sections', e1 is True and e2 is True, 'accepted with equal section numbers: %s, equal sizes: %s' % (e1, e2))


def mask_throw(R, L, sm, lg, srk, lrk, it, ob, sbd):
    good = False
    for x in (sub(('c', -1), it), sub(it, srk)):
        S, T = single(L, R.N, sm, srk, x, sbd), single(L, R.N, lg, lrk, x, sbd)
        a, b = ('at', sbd(sm), add(srk, x)), ('at', sbd(lg), add(lrk, x))
        if S is False and T is False and (eq_lit(L, a, b) is False or equal_sections(L, sm, lg, srk, lrk, x, R) is False):
            good = True
    ob('only different non-singleton dimensions are refused', good, 'an exception is raised under other conditions')


def masks_of(L, m):
    """values of the mask entry m that satisfy the literals"""
    out = set()
    for c in range(4):
        ok = True
        for (k, d), v in L.items():
            if not contains(d, m):
                continue
            r = ceval(d, m, c)
            if r is None:
                continue
            if (r == 0 if k == 'eq0' else r < 0) != v:
                ok = False
        if ok:
            out.add(c)
    return out


def ceval(t, m, c):
    if t == m:
        return c
    if is_c(t):
        return int(t[1])
    if t[0] == 'aff':
        r = t[1]
        for a, k in t[2]:
            x = ceval(a, m, c)
            if x is None:
                return None
            r += k * x
        return r
    if t[0] in ('bin', 'call') and t[1] in ('&', '|', '^', '>>', '<<', '%', '/'):
        a = t[2] if t[0] == 'call' else t[2:4]
        x, y = ceval(a[0], m, c), ceval(a[1], m, c)
        if x is None or y is None:
            return None
        return {'&': x & y, '|': x | y, '^': x ^ y, '>>': x >> y if y >= 0 else 0, '<<': x << y if 0 <= y < 64 else 0, '%': x % y if y else 0, '/': x // y if y else 0}[t[1]]
    return None


def sizes_rule(I, N, s, comp, sm, lg, srk, lrk, mask, ns, ob):
    """sizes (comp[2]) and conserved quantities (comp[3]) of every section"""
    sz, cv = comp[2], comp[3]
    L = lits(N, s.facts)
    same = eq_lit(L, srk, lrk)
    chain = []
    for nm, t in (('section sizes', sz), ('conserved quantities', cv)):
        t0 = t
        fields = {'section sizes': 'sections_sizes', 'conserved quantities': 'c_vals'}[nm]
        if same is not True:
            # leading dimensions of the tensor of larger rank come in front
            ok = t[0] == 'mut' and t[1] in ('std::copy_backward', 'std::copy', 'std::move_backward') and len(t[3]) == 4
            if ok:
                first, last, out = (N(x) for x in t[3][1:])
                d = sub(sub(lrk, srk), ONE)
                wf = {'section sizes': ('get1',), 'conserved quantities': ('get3', 'get1')}[nm]
                ok = first == ('begin', ('o', lg[1]), (('f', fields),)) and last[0] == 'get' and FIELD.get(last[2][1], last[2][1]) in wf and last[1][0] == 'call' \
                    and last[1][2] == (lg, d) and last[1][1].startswith('quantit::btensor::section_')
                # destination: right before what the common dimensions wrote
                ok = ok and t[3][3][0] == 'phi'
            ob('%s of the leading dimensions are those of the tensor of larger rank' % nm, ok, 'they become %s' % fmt(N(t), 5))
            if not ok:
                return
            t = strip_copies(t[3][0])
        ob('%s are filled in a pass over the common dimensions' % nm, t[0] == 'phi' and t in I.phirec, 'they are %s' % fmt(N(t), 4))
        if not (t[0] == 'phi' and t in I.phirec):
            return
        chain.append(t)
    sz, cv = chain
    rec = I.phirec[sz]
    if not ob('one pass fills sizes and conserved quantities', cv in rec['init'], ''):
        return
    it = ('iter', rec['site'])
    t = trip(I, N, rec)
    n = srk if t and srk in t else None
    if not ob('all common dimensions get sections', n is not None, 'the loop runs %s times' % [fmt(x, 3) for x in (t or ())]):
        return
    key = ('shape2', rec['site'])
    if key in I.__dict__.setdefault('donekeys', set()):
        return
    I.donekeys.add(key)
    x = sub(('c', -1), it)
    dims = {sm: add(srk, x), lg: add(lrk, x)}
    m = ('at', N(mask), add(srk, x))
    for log, facts, vals, st in rec['ends']:
        L = lits(N, facts)
        v = vals.get(sz, sz)
        fwd = v[0] == 'mut' and v[1] in ('std::copy', 'std::move') and len(v[3]) == 4      # to a position moved back before
        ok = v[0] == 'mut' and (fwd or v[1] in ('std::copy_backward', 'std::move_backward')) and v[3][0] == sz
        if not ob('the sections of one operand are copied', ok, 'the sizes become %s' % fmt(N(v), 4)):
            continue
        first, last, out = v[3][1:]
        if fwd:
            out = add(out, sub(last, first))
        src = range_of(N(first), N(last))
        if not ob('a whole dimension is copied', src is not None and src[0] in dims and src[1] == dims[src[0]], 'copied from %s to %s' % (fmt(N(first), 5), fmt(N(last), 5))):
            continue
        X = src[0]
        ms = masks_of(L, m)
        other = lg if X == sm else sm
        bad = {c for c in ms if (c == 2 if X == lg else c == 1)}
        ob('sections come from the operand that is not a singleton', not bad, 'copied from %s when the mask is %s' % (fmt(X), sorted(bad)))
        # where: out moves back by the number of sections copied
        onew = vals.get(out, None) if out[0] == 'phi' else None
        ob('sections are written back to front', onew is not None and N(sub(onew, out)) == N(sub(first, last))
           and I.origin(rec['init'][out]) is not None and N(sub(rec['init'][out], add(('begin',) + I.origin(rec['init'][out]), I.size(rec['entry'], I.origin(rec['init'][out]))))) == ZERO,
           'the position moves by %s' % fmt(N(sub(onew, out)) if onew else None, 5))
        # conserved quantities
        c = vals.get(cv, cv)
        if not ob('conserved quantities of the dimension are filled in a loop', c[0] == 'phi' and c in I.phirec and I.phirec[c]['init'].get(c) == cv, 'they become %s' % fmt(N(c), 4)):
            continue
        r2 = I.phirec[c]
        i2 = ('iter', r2['site'])
        t2 = trip(I, N, r2)
        cnt = N(sub(last, first))
        ob('every section of the dimension gets its conserved quantity', t2 and cnt in t2, 'the loop runs %s times' % [fmt(y, 4) for y in (t2 or ())])
        for log2, f2, v2, st2 in r2['ends']:
            ps = peel(v2.get(c, c), c)
            if not ob('one conserved quantity per section', ps is not None and len(ps) == 1, 'an iteration writes %s' % (ps and len(ps))):
                continue
            q = N(ps[0][2])
            ok = q[0] == 'call' and q[1] == 'quantit::operator*' and len(q[2]) == 2
            fac = {}
            for y in (q[2] if ok else ()):
                fac[cq(I, N, y, i2)] = y
            long = (X, dims[X], 'end', sub(('c', -1), i2))
            ob('conserved quantities of the operands multiply', ok and long in fac and any(k and k[0] == other and k[1] == dims[other] for k in fac),
               'the conserved quantity is %s' % fmt(q, 5))
            # the other operand's quantity: last section, moving back while there are more
            sh = next((k for k in fac if k and k[0] == other), None)
            if sh and sh[2] != 'phi':
                ob('the other factor moves along unless it has a single section', sh[2:] == ('end', sub(('c', -1), i2)) and ms <= {0} or
                   sh[2:] in (('end', ('c', -1)), ('begin', ZERO)) and not ms & {0}, 'it stays at one section')
            elif sh:
                nm = sh[3]
                L2 = lits(N, f2)
                start = cq(I, N, ('deref', r2['init'][nm]), i2)
                ob('the other factor starts at its last section', start == (other, dims[other], 'end', ('c', -1)), 'starts at %s' % (start,))
                step = N(sub(v2.get(nm, nm), nm))
                beg = [k for k in L2 if k[0] == 'eq0' and contains(k[1], N(nm))]
                at_first = [L2[k] for k in beg if is_first(N, k[1], N(nm), other, dims[other])]
                ob('the other factor moves along unless it has a single section', (step == ('c', -1) and at_first == [False]) or (step == ZERO and at_first == [True]),
                   'it moves by %s' % fmt(step, 3))
        pos_new = [nm for nm in vals if nm[0] == 'phi' and vals[nm][0] in ('aff', 'phi') and contains(vals[nm], i2)]
        ob('conserved quantities are written back to front', ps_back(I, N, rec, r2, c, cv, vals), 'the position does not move with the sections')


def ps_back(I, N, rec, r2, c, cv, vals):
    """inside: position (start - 1 - iteration); outside: the start of the next dimension is where this one stopped"""
    for log2, f2, v2, st2 in r2['ends']:
        ps = peel(v2.get(c, c), c)
        if not ps or len(ps) != 1:
            return False
        k = N(ps[0][1])
        co, m = aff(k)
        i2 = ('iter', r2['site'])
        phis = [a for a in m if a[0] == 'phi' and m[a] == 1 and a[1] == rec['site']]
        if m.get(i2) != -1 or co != -1 or len(phis) != 1:
            return False
        p = phis[0]
        init = rec['init'].get(p)
        o = I.origin(init) if init else None
        if o is None or N(sub(init, add(('begin',) + o, I.size(rec['entry'], o)))) != ZERO:
            return False
        d = N(vals.get(p, p))
        if sub(d, p) != mul(i2, ('c', -1)):
            return False
    return True


def is_first(N, d, nm, X, dim):
    """literal d compares the iterator nm with the first section of the dimension"""
    c, m = aff(d)
    o = [a for a in m if a != nm]
    return c == 0 and len(o) == 1 and abs(m[nm]) == 1 and m[nm] == -m[o[0]] and o[0][0] == 'get' and o[0][1][0] == 'call' and \
        o[0][1][2] == (X, dim) and (o[0][1][1], FIELD.get(o[0][2][1], o[0][2][1])) in (
            ('quantit::btensor::section_conserved_qtt_range', 'get0'), ('quantit::btensor::section_sizes_cqtts', 'get2'))


def cq(I, N, y, i2):
    """a dereferenced iterator into the conserved quantities of one dimension -> (tensor, dim, 'begin'|'end', offset)"""
    if y[0] != 'deref':
        return None
    p = N(y[1])
    if p[0] == 'phi':
        return phi_range(I, N, p)
    c, m = aff(p)
    g = [a for a in m if a[0] == 'get' and a[1][0] == 'call']
    if len(g) != 1 or m[g[0]] != 1:
        return None
    a = g[0]
    f = FIELD.get(a[2][1], a[2][1])
    e = {('quantit::btensor::section_sizes_cqtts', 'get3'): 'end', ('quantit::btensor::section_sizes_cqtts', 'get2'): 'begin',
         ('quantit::btensor::section_conserved_qtt_range', 'get1'): 'end', ('quantit::btensor::section_conserved_qtt_range', 'get0'): 'begin'}.get((a[1][1], f))
    return e and (a[1][2][0], a[1][2][1], e, sub(p, a))


def phi_range(I, N, p):
    rec = I.phirec.get(p)
    if rec is None or p not in rec['init']:
        return None
    s = cq(I, N, ('deref', rec['init'][p]), None)
    return s and (s[0], s[1], 'phi', p)


def range_of(first, last):
    """(tensor, dimension) whose section sizes lie between the two iterators"""
    if first[0] == last[0] == 'get' and first[1] == last[1] and first[1][0] == 'call' and first[1][1] in (
            'quantit::btensor::section_sizes_cqtts', 'quantit::btensor::section_sizes') and \
            (FIELD.get(first[2][1], first[2][1]), FIELD.get(last[2][1], last[2][1])) == ('get0', 'get1'):
        return first[1][2]
    return None


# ------------------------------------------------------------------ the operations
def walk_items(I, t, depth=0):
    """container value built by (nested) loops -> (initial value, [(loops, facts, puts)]) or None"""
    t = strip_copies(t)
    while t[0] == 'mut' and t[1].split('::')[-1] in ('reserve', 'shrink_to_fit') and t[2] == 'obj':
        t = strip_copies(t[3][0])
    if not (t[0] == 'phi' and t in I.phirec) or depth > 3:
        return t, []
    rec = I.phirec[t]
    items = []
    for log, facts, vals, st in rec['exits']:
        if vals.get(t, t) != t:
            return None
    for log, facts, vals, st in rec['ends']:
        v = strip_copies(vals.get(t, t))
        if v[0] == 'phi' and v != t and v in I.phirec:
            r = walk_items(I, v, depth + 1)
            if r is None or r[0] != t:
                return None
            for recs, f, p in r[1]:
                items.append(([rec] + recs, f, p))
            continue
        p = peel(v, t)
        if p is None:
            return None
        items.append(([rec], facts, p))
    return strip_copies(rec['init'].get(t, t)), items


def pair_op(ctx, F, fn, x, y, opname, inplace, boolean, deep, count):
    tag = fn.sig()
    where = W(fn)
    ob = lambda n, ok, why='': ctx.ob('%s: %s' % (n, tag), ok, where, why)
    I = BC(F, deep)
    outs = I.analyse(fn)
    C = Canon(I)
    N = Norm(I, C)
    X, Y = ('get', x, ('f', 'blocks_list')), ('get', y, ('f', 'blocks_list'))
    rk = lambda t: ('get', t, ('f', 'rank'))
    rets = [(s, value(I, s, v), v) for s, k, v in outs if k == 'return']
    ob('has a normal outcome', bool(rets), 'never returns normally')
    for s, val, raw in rets:
        count[0] += 1
        st = s.env.get(('o', x[1]), x)
        res = st if inplace else val
        if inplace:
            ob('returns the tensor it changed', raw[0] == 'l' and raw[1] == (('o', x[1]), ()), 'returns %s' % fmt(C(val), 3))
        else:
            ob('operand is unchanged', C(st) == x, 'the first operand becomes %s' % fmt(C(st), 4))
        ob('second operand is unchanged', C(s.env.get(('o', y[1]), y)) == y, 'it becomes %s' % fmt(C(s.env.get(('o', y[1]), y)), 4))
        L0 = lits(N, s.facts)
        lst = strip_copies(proj(res, ('f', 'blocks_list')))
        r = walk_items(I, lst)
        if not ob('result is built by visiting pairs of blocks', r is not None and bool(r[1]), 'the block list is %s' % fmt(C(lst), 4)):
            continue
        init, items = r
        ob('result starts without blocks', empty_container(init), 'starts from %s' % fmt(C(init), 4))
        shape = None
        done = set()
        for recs, facts, puts in items:
            L = {(k, unphi(I, C, d)): v for (k, d), v in lits(N, facts).items()}
            if len(recs) == 1 and not puts and len(items) > 1 and any(len(q[0]) > 1 for q in items):
                ob('every pair of blocks is considered', False, 'some blocks are skipped (line %s)' % recs[0]['line'])
                continue
            ok = len(recs) == 2
            if ok:
                ws = [{C(base_list(I, w)) for w in walked(I, r_)} for r_ in recs]
                ws = [{X if q in (x, X) else Y if q in (y, Y) else q for q in w_} for w_ in ws]
                if X in ws[0] and Y in ws[1]:
                    rx, ry = recs
                elif X in ws[1] and Y in ws[0]:
                    ry, rx = recs
                else:
                    ok = False
            if not ob('all pairs of blocks are visited', ok, 'the loops at lines %s may skip blocks' % [q['line'] for q in recs]):
                break
            ex = lambda g: ('E', X, ('pos', rx['site']), g)
            ey = lambda g: ('E', Y, ('pos', ry['site']), g)
            mt = [(d, v) for (k, d), v in L.items() if k == 'eq0' and d[0] == 'call' and d[1] == MH + 'match_index']
            good = len(mt) == 1
            if good:
                d, v = mt[0]
                good = len(d[2]) == 4 and {d[2][2], d[2][3]} == {ex('get0'), ey('get0')}
            if not ob('whether the indices match decides', good, 'a pair is %s without comparing its two indices' % ('combined' if puts else 'passed over')):
                continue
            lt = L.get(('lt0', sub(rk(x), rk(y))))
            gt = L.get(('lt0', sub(rk(y), rk(x))))
            same = eq_lit(L, rk(x), rk(y))
            xl = True if lt is False or gt is True or same is True else False if lt is True or gt is False else None
            msk = d[2][1]
            sh = msk[1] if msk[0] == 'get' else None
            ok = sh is not None and sh[0] == 'call' and sh[1] == MH + 'shape_compute' and FIELD.get(msk[2][1], msk[2][1]) == 'get0'
            if not ob('the mask is that of the two shapes', ok, 'mask %s' % fmt(msk, 4)):
                continue
            shape = sh
            if v:
                ob('only matching blocks are combined', not puts, 'a block is stored for indices that do not match')
                continue
            if not ob('every matching pair gives one block', len(puts) == 1, '%d blocks are stored for a matching pair' % len(puts)):
                continue
            kind, k, vv = puts[0]
            k = unphi(I, C, N(k))
            big, little = (ex, ey) if xl else (ey, ex)
            okk = kind == 'key' and k[0] == 'call' and k[1] == MH + 'out_index' and xl is not None and (
                k[2][1:] == (big('get0'), little('get0')) or same is True and set(k[2][1:]) == {big('get0'), little('get0')})
            ob('the block is stored at the combined index', okk, 'stored at %s' % fmt(k, 5))
            want = norm(('op', opname, (ex('get1'), ey('get1'))))
            nv = norm(unphi(I, C, N(vv)))
            ob('the block is the operation on the two blocks in order', nv == want, 'it is %s, expected %s' % (fmt(nv, 5), fmt(want, 5)))
            if 'mut' in repr(vv)[:8] or any(isinstance(q, tuple) and q[:1] == ('mut',) and torch_op(q[1]) for q in subterms(vv)):
                tabs = [(dd[1], dd[2], vl) for (kk, dd), vl in facts.items() if kk == 'eq0' and dd[0] == 'call' and dd[1] in ('std::none_of', 'std::any_of', 'std::all_of')]
                safe = False
                for q, a, vl in tabs:
                    tab = a[2][1]
                    # no broadcast of this operand against a larger one: mask 2 (this is the tensor of larger rank) never occurs
                    excl = q == 'std::none_of' and not vl and tab[2] is True or q == 'std::any_of' and vl and tab[2] is True or q == 'std::all_of' and not vl and tab[2] is False
                    safe = safe or excl
                ob('a block is overwritten only when it is used once', inplace and safe, 'a block that other results may need is changed in place')
        if shape is None:
            continue
        sr, lr, sm, lg = shape[2][1:5]
        lt = L0.get(('lt0', sub(rk(x), rk(y))))
        gt = L0.get(('lt0', sub(rk(y), rk(x))))
        same = eq_lit(L0, rk(x), rk(y))
        xl = True if lt is False or gt is True or same is True else False if lt is True or gt is False else None
        big, little = (x, y) if xl else (y, x)
        okp = {sm, lg} == {x, y} and xl is not None and ((sm, lg) == (little, big) or same is True)
        ob('shape of the result: operands by rank', okp, 'shape computed from %s and %s' % (fmt(sm), fmt(lg)))
        ranks = {rk(sm), rk(lg)} if same is True else None
        ob('shape of the result: ranks', (sr, lr) == (rk(sm), rk(lg)) or same is True and {sr, lr} <= {rk(x), rk(y)}, 'ranks %s, %s' % (fmt(sr, 4), fmt(lr, 4)))
        for m, i in (('sections_by_dim', 1), ('sections_sizes', 2), ('c_vals', 3), ('selection_rule', 4)):
            q = N(proj(res, ('f', m)))
            ob('the result has the broadcast %s' % m, q == ('get', shape, ('f', 'get%d' % i)), 'it is %s' % fmt(q, 5))
        q = N(proj(res, ('f', 'rank')))
        ob('the result has the larger rank', q == rk(big) or same is True and q in (rk(x), rk(y)), 'it is %s' % fmt(q, 4))
        o = last_opt(proj(res, ('f', '_options')))
        if boolean:
            ob('options are boolean', mentions(o, 'kBool') or o == ('ctor', 'c10::TensorOptions', (BOOL,)) or o == BOOL or N(o) == BOOL, 'options %s' % fmt(o, 5))
        elif not inplace:
            ro = repr(N(o))
            ob('options promote the element types of both operands', 'promote_types' in ro and all(repr(('get', q, ('f', '_options'))) in ro for q in (x, y)), 'options %s' % fmt(N(o), 6))
    if inplace:
        for s, k, v in outs:
            L = lits(N, s.facts)
            small = L.get(('lt0', sub(rk(x), rk(y))))
            if k == 'return':
                ob('an operand of larger rank is refused', small is False or L.get(('lt0', sub(rk(y), rk(x)))) is True or eq_lit(L, rk(x), rk(y)) is True, 'accepted without comparing the ranks')
            elif k == 'throw':
                stt = s.env.get(('o', x[1]), x)
                ob('refusing leaves the tensor unchanged', C(stt) == x or small is None, 'it becomes %s' % fmt(C(stt), 4))


BOPS = {'mul': 'mul', 'div': 'div', 'pow': 'pow', 'le': 'le', 'ge': 'ge', 'eq': 'eq', 'less': 'lt', 'greater': 'gt', 'not_equal': 'ne'}


def a07(ctx):
    F = load(['btensor.cpp'], True)
    deep = {BTQ + n + x for n in BOPS for x in ('', '_')} | {'quantit::' + n + x for n in BOPS for x in ('', '_')} | \
        {BTQ + o for o in ('operator*=', 'operator/=', 'btensor', 'broadcast_operation', 'broadcast_operation_', 'options')} | \
        {'quantit::' + o for o in SYMBOL}
    count = [0]
    T = ('sym', 'this')
    nover = 0
    for nm, o in list(BOPS.items()) + [('operator*', 'mul'), ('operator/', 'div')]:
        for sfx in ('', '_', '='):
            if (sfx == '=') != (nm.startswith('operator') and sfx == '='):
                continue
            for f in F.q(BTQ + nm + sfx):
                if len(f.params) == 1 and is_bt(f.ptypes()[0]):
                    nover += 1
                    pair_op(ctx, F, f, T, pval(f, 0), o, sfx != '', o in CMP, deep, count)
    free = dict(BOPS)
    free.update(SYMBOL)
    for nm, o in free.items():
        for sfx in ('', '_'):
            for f in F.q('quantit::' + nm + sfx):
                if len(f.params) == 2 and is_bt(f.ptypes()[0]) and is_bt(f.ptypes()[1]):
                    nover += 1
                    pair_op(ctx, F, f, pval(f, 0), pval(f, 1), o, sfx != '', o in CMP, deep, count)
    ctx.need(nover >= 12, 'broadcasting operations not found')
    match_rule(ctx, F)
    out_index_rule(ctx, F)
    shape_rule(ctx, F)
    ctx.meta['overloads'] = nover
    ctx.meta['outcomes'] = count[0]
