"""Contractions: which are refused, what the result looks like (A13)."""
from rules.layout import *


def alive(L, phi):
    return L.get(('eq0', phi)) is False


def flag_loop(R, phi, cond):
    """phi is a flag that a counting loop keeps non-zero exactly while cond(L, it) held for every earlier iteration.
    cond(R, L, it) -> True / False / None.  Returns (it, initial value) or an explanation (str)"""
    I, N = R.I, R.N
    rec = I.phirec.get(phi)
    if rec is None:
        return 'not a flag'
    it = ('iter', rec['site'])
    if rec.get('rets') and any(k == 'return' for _, k, _ in rec['rets']):
        pass                        # outcomes of their own, judged as such
    for e in rec['ends']:
        v = N(e[2].get(phi, phi))
        L = lits(R.N, e[1])
        before = alive(L, phi)
        if v[0] == 'bin' and v[1] == '&' and phi in v[2:4]:     # an earlier mismatch stays one
            if L.get(('eq0', phi)) is True:
                continue
            v, before = v[3] if v[2] == phi else v[2], True
            if v[0] == 'c':
                v = ('c', v[1] & 1)
        cases = []
        if v[0] == 'c':
            cases = [(L, v[1] != 0)]
        elif v == phi:              # unchanged: an earlier mismatch stays one
            if L.get(('eq0', phi)) is True:
                continue
            before = True
            cases = [(L, True)]
        else:
            w_ = v
            cases = [({**L, ('eq0', w_): z}, not z) for z in (False, True) if L.get(('eq0', w_), z) is z]
        for L2, keeps_ in cases:
            c = cond(R, L2, it)
            if keeps_ and (c is not True or not before):
                if c is True and not before:
                    return 'line %s: a later match hides an earlier mismatch' % rec['line']
                return 'line %s: accepted without being known to match' % rec['line']
            if not keeps_ and c is not False and L.get(('eq0', phi)) is not True:
                return 'line %s: refused although nothing differs' % rec['line']
    return it, N(rec['init'].get(phi, phi))


def through(R, L, it, n):
    """the literals say that the counting loop of `it` ran to n"""
    for (k, d), v in L.items():
        if k == 'eq0' and v is True and d in (sub(n, it), sub(it, n)):
            return True
        if k == 'lt0' and v is False and d == sub(it, n):
            return True
    return False


def within(L, it, n):
    """the literals of an iteration say that it is below n"""
    return any(k == 'eq0' and v is False and d in (sub(n, it), sub(it, n)) or k == 'lt0' and v is True and d == sub(it, n) for (k, d), v in L.items())


def below(R, rec, n):
    it = ('iter', rec['site'])
    return bool(rec['ends']) and all(within(lits(R.N, e[1]), it, n) for e in rec['ends'])


def plain_loop(R, rec, cond):
    """a loop without a flag, left early only by an outcome of its own: every completed iteration satisfies cond"""
    it = ('iter', rec['site'])
    for e in rec['ends']:
        if cond(R, lits(R.N, e[1]), it) is not True:
            return None
    return it


def sticky(R, phi):
    """a flag that a loop can only clear: its initial value, or None"""
    rec = R.I.phirec.get(phi)
    if rec is None or len(phi) < 3 or phi[2] == 'idx' or phi[2][0][0] not in ('v', 't') or len(phi[2]) > 1:
        return None
    for e in rec['ends']:
        v = R.N(e[2].get(phi, phi))
        if v != ZERO and not alive(lits(R.N, e[1]), phi) and v != phi:
            return None
    return R.N(rec['init'].get(phi, phi))


def expand(R, L, depth=4):
    """the cases covered by the literals, once flags are traced to the loops that set them before"""
    if depth:
        for (k, d), v in L.items():
            if k != 'eq0' or d[0] != 'phi':
                continue
            i = sticky(R, d)
            if i is None or i[0] == 'c' or ('eq0', i) in L and (v or L[('eq0', i)] is False):
                continue
            if v is False:
                if L.get(('eq0', i)) is True:
                    return []
                return expand(R, {**L, ('eq0', i): False}, depth - 1)
            return expand(R, {**L, ('eq0', i): False}, depth - 1) + expand(R, {**L, ('eq0', i): True}, depth - 1)
    return [L]


def cases_agree(R, L, f):
    r = {f(x) for x in expand(R, L)}
    return r.pop() if len(r) == 1 else None


def for_all(R, L, n, cond):
    """L implies cond for every iteration below n (True), a failure of one (False), or neither (None + why)"""
    why = ''
    recs = {}
    for phi, rec in R.I.phirec.items():
        if phi[2] == 'idx' or len(phi) > 3:
            continue
        recs.setdefault(('iter', rec['site']), rec)
        it = ('iter', rec['site'])
        if not below(R, rec, n):
            continue
        if phi[2][0][0] != 'v' and phi[2][0][0] != 't':
            continue
        lit = L.get(('eq0', phi))
        if lit is None:
            continue
        f = flag_loop(R, phi, cond)
        if isinstance(f, str):
            why = f
            continue
        if lit is True and (f[1][0] == 'c' and f[1][1] != 0 or L.get(('eq0', f[1])) is False):
            return False, ''
        if lit is False and through(R, L, it, n):
            return True, ''
        why = 'the comparison may stop early'
    for it, rec in recs.items():
        if through(R, L, it, n) and plain_loop(R, rec, cond) is not None:
            return True, ''
    return None, why


def products_neutral(R, a, b, da, db):
    """cond for the sections j of the dimensions da of a and db of b: their quantities multiply to the neutral element"""
    A, B = fields(a), fields(b)

    def cond(R, L, j):
        x = ('at', A[2], add(('sum', A[0], ZERO, da), j))
        y = ('at', B[2], add(('sum', B[0], ZERO, db), j))
        for (k, d), v in L.items():
            if k != 'eq0' or d[0] != 'call' or len(d[2]) != 2:
                continue
            nm = d[1].split('::')[-1]
            if nm not in ('operator==', 'operator!='):
                continue
            l, r = (strip_v(strip_conv(z)) for z in d[2])
            for p, q in ((l, r), (r, l)):
                if p[0] == 'call' and p[1].split('::')[-1] in ('operator*', 'operator+') and len(p[2]) == 2 and set(map(strip_v, p[2])) == {x, y} \
                        and q[0] == 'call' and q[1].split('::')[-1] == 'neutral':
                    return v is not (nm == 'operator==')
                if {p, strip_v(inverse_of(q))} == {x, y} and p != q:        # one is the inverse of the other
                    return v is not (nm == 'operator==')
        return None
    return cond


def inverse_of(t):
    return strip_conv(t[2][0]) if t[0] == 'call' and t[1].split('::')[-1] == 'inverse' and len(t[2]) == 1 else ('none',)


def sizes_equal(R, L, a, b, da, db):
    """truth of "the section sizes of the two dimensions agree" (given equal section counts)"""
    A, B = fields(a), fields(b)
    lo, hi = ('sum', A[0], ZERO, da), ('sum', B[0], ZERO, db)
    want = ((A[1], lo, add(lo, ('at', A[0], da))), (B[1], hi, add(hi, ('at', B[0], db))))
    for (k, d), v in L.items():
        if k == 'eq0' and d[0] == 'call' and d[1] in ('std::equal', 'equal') and len(d[2]) in (3, 4):
            r = [R.N.range(d[2][0], d[2][1]), R.N.range(d[2][2], d[2][3]) if len(d[2]) == 4 else R.N.split(d[2][2])]
            if None in r:
                continue
            for p, q in (want, want[::-1]):
                if tuple(r[0]) == p and tuple(r[1]) == q[:len(r[1])]:
                    return not v
    return None


def sizes_loop(a, b, da, db):
    A, B = fields(a), fields(b)

    def cond(R, L, j):
        return eq_lit(L, ('at', A[1], add(('sum', A[0], ZERO, da), j)), ('at', B[1], add(('sum', B[0], ZERO, db), j)))
    return cond


def compatible_dims(a, b, d1, d2):
    """cond for position i of the two dimension lists"""
    A, B = fields(a), fields(b)

    def cond(R, L, i):
        return cases_agree(R, L, lambda L2: cond1(R, L2, i))

    def cond1(R, L, i):
        da, db = ('at', d1, i), ('at', d2, i)
        na, nb = ('at', A[0], da), ('at', B[0], db)
        for dim, rk in ((da, A[3]), (db, B[3])):
            if known_lt(L, dim, rk) is False:
                return False
        same_n = eq_lit(L, na, nb)
        if same_n is False:
            return False
        quant = [for_all(R, L, n, products_neutral(R, a, b, da, db))[0] for n in (na, nb)]
        if False in quant:
            return False
        sz = sizes_equal(R, L, a, b, da, db)
        if sz is None:
            s2 = [for_all(R, L, n, sizes_loop(a, b, da, db))[0] for n in (na, nb)]
            sz = False if False in s2 else True if True in s2 else None
        if sz is False:
            return False
        return True if same_n and True in quant and sz else None
    return cond


def contradictory(L):
    """an equality among the literals makes one comparison the opposite of another"""
    zero = [d for (k, d), v in L.items() if k == 'eq0' and v is True and aff(d)[1]]
    neg = [d for (k, d), v in L.items() if k == 'lt0' and v is True]
    pos = [d for (k, d), v in L.items() if k == 'lt0' and v is False]
    for z in zero:
        for a in neg:
            for b in pos:
                for x in (add(b, z), sub(b, z)):
                    o = sub(x, a)           # b = a + o (+ 0), a < 0 <= b
                    if is_c(o) and o[1] <= 0:
                        return True
    return False


def compat_rule(ctx, F):
    n = 0
    fns = F.q(BTQ + 'check_product_compat')
    ctx.need(fns, 'check_product_compat not found')
    for fn in fns:
        R = Run(F, fn, LOOKUPS)
        N, w = R.N, W(fn)
        a, b, d1, d2 = (('sym', p['n']) for p in fn.params)
        s1, s2 = ('call', 'size', (d1,)), ('call', 'size', (d2,))
        cond = compatible_dims(a, b, d1, d2)
        ob = lambda nm, ok, why='': ctx.ob('compatibility: %s' % nm, ok, w, why)

        def failing(L):
            """something is known to differ"""
            if eq_lit(L, s1, s2) is False:
                return True
            if for_all(R, L, s1, cond)[0] is False or for_all(R, L, s2, cond)[0] is False:
                return True
            for rec in R.I.loops:
                it = ('iter', rec['site'])
                if not (below(R, rec, s1) or below(R, rec, s2) or within(L, it, s1) or within(L, it, s2)):
                    continue
                if cond(R, L, it) is False:
                    return True
                if True:
                    for r2 in R.I.loops:        # a single section of this dimension
                        j = ('iter', r2['site'])
                        if j != it and (products_neutral(R, a, b, ('at', d1, it), ('at', d2, it))(R, L, j) is False or sizes_loop(a, b, ('at', d1, it), ('at', d2, it))(R, L, j) is False):
                            return True
            return False
        for s, k, v in R.outs:
            n += 1
            L = lits(N, s.facts)
            if k == 'throw':
                if contradictory(L):
                    continue
                ob('refused only when something differs', failing(L), 'line %s throws although nothing is known to differ' % (v[2] if len(v) > 2 else ''))
                continue
            v = N(value(R.I, s, v))
            if v[0] == 'c' and v[1] == 0:
                ob('negative answer only when something differs', failing(L), 'answers no although nothing is known to differ')
                continue
            same_n = eq_lit(L, s1, s2)
            ob('positive answer needs lists of the same length', same_n is True or failing(L) and v == ZERO, 'lengths are not compared')
            if v[0] == 'c':
                r = [for_all(R, L, x, cond) for x in (s1, s2)]
                ob('positive answer needs every pair of dimensions to match', (True in [x[0] for x in r]), '; '.join(x[1] for x in r if x[1]) or 'some pair is not compared')
                continue
            if L.get(('eq0', v)) is True:
                ob('negative answer only when something differs', failing(L), '')
                continue
            r = [for_all(R, {**L, ('eq0', v): False}, x, cond) for x in (s1, s2)]
            ok = True in [x[0] for x in r] or L.get(('eq0', v)) is True
            ob('positive answer needs every pair of dimensions to match', ok, '; '.join(x[1] for x in r if x[1]) or 'answers %s' % fmt(v, 4))
            r = [for_all(R, {**L, ('eq0', v): True}, x, cond) for x in (s1, s2)]
            ob('negative answer only when something differs', False in [x[0] for x in r], 'answers %s' % fmt(v, 4))
    return n


# ------------------------------------------------------------------ shape of the result
def free_lit(L, dims, rank, it):
    """the literals say that dimension `it` is not (True) / is (False) among the contracted ones"""
    for (k, d), v in L.items():
        if k != 'eq0':
            continue
        if d[0] == 'call' and d[1].split('::')[-1] in ('operator[]', 'test') and len(d[2]) == 2 and d[2][1] == it:
            b = d[2][0]
            if b[0] in ('op', 'call') and b[1].split('::')[-1] == 'dim_list_to_bitset' and tuple(b[2]) == (dims, rank):
                return v
    return None


def now(R, r):
    """a run of a list named by the variable that holds it -> of its value on the path under examination"""
    s = getattr(R, 'cur', None)
    if r is None or s is None:
        return r
    seq = bare_ref(bare(settled(s, r[0])))
    return (seq, subst_size(R, r[1], r[0], seq), subst_size(R, r[2], r[0], seq))


def subst_size(R, t, old, new):
    return R.N(add(sub(t, ('call', 'size', (old,))), ('call', 'size', (new,)))) if contains(t, ('call', 'size', (old,))) else t


def stages(R, x):
    """a list appended to by successive loops -> [(loop, [(literals, what an iteration appends or None)])] or (None, why)"""
    I, N = R.I, R.N
    out = []
    x = bare(x)
    while not starts_empty(x):
        if len(x) > 3 and x[0] == 'mut' and x[1].split('::')[-1] == 'insert' and len(x[3]) == 4 and at_end(R, deconv(x[3][1]), x[3][0]):
            r = now(R, span(R, deconv(x[3][2]), deconv(x[3][3])))       # a whole run at once
            if r is not None:
                out.append(({'site': ('once', len(out)), 'line': '?'}, [({}, ('run',) + tuple(r))]))
                x = bare(x[3][0])
                continue
        if x[0] == 'ctor' and x[1] == 'std::vector' and len(x[2]) in (2, 3) and x[2][0][0] != 'list':
            r = now(R, span(R, deconv(x[2][0]), deconv(x[2][1])))       # made from a run
            if r is not None:
                out.append(({'site': ('once', len(out)), 'line': '?'}, [({}, ('run',) + tuple(r))]))
                break
        if x[0] != 'phi' or x not in I.phirec:
            return None, 'it starts from %s' % fmt(N(x), 5)
        rec = I.phirec[x]
        if rec.get('rets'):
            return None, 'the loop at line %s may stop early' % rec['line']
        per = []
        for e in rec['ends']:
            y = bare(e[2].get(x, x))
            L = lits(N, e[1])
            if y == x:
                per.append((L, None))
            elif len(y) > 3 and y[0] == 'mut' and y[1].split('::')[-1] in ('push_back', 'emplace_back') and bare(y[3][0]) == x and len(y[3]) == 2:
                v = N(unassign(y[3][1]))
                if v[0] == 'E' and v[2] == ('pos', rec['site']):
                    v = ('at', v[1], ('iter', rec['site']))
                per.append((L, ('entry', v)))
            else:
                r = appended(R, y, x)
                if r is None or len(r) != 1:
                    return None, 'an iteration of the loop at line %s makes it %s' % (rec['line'], fmt(N(y), 5))
                per.append((L, ('run',) + r[0]))
        for e in rec['exits']:
            if e[2].get(x, x) != x:
                return None, 'the loop at line %s changes it when it ends' % rec['line']
        out.append((rec, per))
        x = bare(rec['init'].get(x, x))
    return out[::-1], ''


class Side:
    """one operand of a contraction: the tensor and its contracted dimensions"""

    def __init__(self, tensor, dims):
        self.t, self.dims = tensor, dims
        self.sbd, self.sizes, self.cv, self.rank, self.rule = fields(tensor)
        self.bl = ('get', tensor, ('f', 'blocks_list'))


def count(sd):
    return ZERO if sd.dims[0] == 'ctor' else ('call', 'size', (sd.dims,))


def same_count(d):
    """difference of two counts is zero, the lengths of the two dimension lists being equal"""
    c, m = aff(d)
    for a, k in m.items():              # an empty list counts nothing
        if a == ('call', 'size', (('ctor', 'c10::ArrayRef', ()),)):
            d = sub(d, mul(a, ('c', k)))
    return d == ZERO or d[0] == 'aff' and d[1] == 0 and len(d[2]) == 2 and {k for _, k in d[2]} == {1, -1} and all(a in SAMELEN for a, _ in d[2])


SAMELEN = set()


def over_free(R, st, sd):
    """a stage that visits the dimensions of sd and keeps the uncontracted ones: what it appends for dimension `it`, or a string"""
    rec, per = st
    it = ('iter', rec['site'])
    if sd.rank not in (R.trips.get(it) or ()):
        return 'the loop at line %s visits %s dimensions' % (rec['line'], [fmt(t, 3) for t in R.trips.get(it) or ()])
    got = set()
    for L, what in per:
        fr = free_lit(L, sd.dims, sd.rank, it)
        if fr is None or (what is not None) != fr:
            return 'line %s: a dimension is %s although it is%s contracted' % (rec['line'], 'kept' if what else 'left out', ' not known to be' if fr is None else '' if not fr else ' not')
        if what is not None:
            got.add(what)
    return got.pop() if len(got) == 1 else 'line %s: nothing is appended' % rec['line']


def is_free_part(R, st, sd):
    it = ('iter', st[0]['site'])
    return over_free(R, st, sd) == ('entry', it)


def is_contracted_part(R, st, sd):
    rec, per = st
    it = ('iter', rec['site'])
    n = ('call', 'size', (sd.dims,))
    if rec['site'][0] == 'once':
        return per[0][1] == ('run', sd.dims, ZERO, n)
    return bool({n} & (R.trips.get(it) or set())) and all(w == ('entry', ('at', sd.dims, it)) for _, w in per) and bool(per)


def parts(R, P, sd):
    """the permutation list P as a sequence of 'free' / 'contracted' runs of the dimensions of sd, or a string"""
    st, why = stages(R, P)
    if st is None:
        return why
    out = []
    for x in st:
        if x[0]['site'][0] == 'once' and not is_contracted_part(R, x, sd):
            _, src, lo, hi = x[1][0][1]          # a part of another such list
            q = parts(R, src, sd) if src != P else 'it contains itself'
            if isinstance(q, str):
                return q
            nm = part_between(R, src, q, lo, hi, sd)
            if nm is None:
                return 'entries %s to %s of the permutation are copied' % (fmt(lo, 4), fmt(hi, 4))
            out.append(nm)
        elif is_free_part(R, x, sd):
            out.append('free')
        elif is_contracted_part(R, x, sd):
            out.append('contracted')
        else:
            w_ = over_free(R, x, sd)
            return w_ if isinstance(w_, str) else 'line %s appends %s' % (x[0]['line'], fmt(x[1][0][1], 5))
    return tuple(out)


def part_between(R, src, base, lo, hi, sd):
    """name of the run between two positions of a permutation made of the runs `base`"""
    n, k = R.N(('call', 'size', (src,))), count(sd)
    bounds = {('free', 'contracted'): {'free': (ZERO, sub(n, k)), 'contracted': (sub(n, k), n)},
              ('contracted', 'free'): {'contracted': (ZERO, k), 'free': (k, n)}}.get(base, {})
    nm = [x for x, (l, h) in bounds.items() if same_count(sub(lo, l)) and same_count(sub(hi, h))]
    return nm[0] if len(nm) == 1 else None


def window(R, P, sd):
    """(first position, number of entries) of the uncontracted dimensions within the permutation P"""
    p = parts(R, P, sd)
    n, k = R.N(('call', 'size', (P,))), count(sd)
    return {('free', 'contracted'): (ZERO, sub(n, k)), ('contracted', 'free'): (k, sub(n, k)), ('free',): (ZERO, n)}.get(p)


def through_list(R, st, sd):
    """a pass over the uncontracted part of a permutation list that appends the section number of each: as over_free gives it"""
    rec, per = st
    it = ('iter', rec['site'])
    got = {x for _, x in per}
    w_ = got.pop() if len(got) == 1 else None
    if not w_ or w_[0] != 'entry' or w_[1][0] != 'at' or w_[1][1] != sd.sbd or w_[1][2][0] != 'at':
        return None
    _, P, pos = w_[1][2]
    win = window(R, P, sd)
    if win is None or not same_count(sub(sub(pos, it), win[0])) or not any(same_count(sub(t, win[1])) for t in R.trips.get(it) or ()):
        return None
    return 'entry', ('at', sd.sbd, it)


def runs_of_free(R, st, sd, field):
    """the stage appends, for every uncontracted dimension of sd in ascending order, its run of the list `field`; '' or why not"""
    rec, per = st
    it = ('iter', rec['site'])
    w_ = over_free(R, st, sd)
    if isinstance(w_, str):
        got = {x for _, x in per}
        if len(got) != 1 or None in got:
            return w_
        w_ = got.pop()
        if w_[0] != 'run' or w_[2][0] != 'sum':
            return 'line %s appends %s' % (rec['line'], fmt(w_, 5))
        d = w_[2][3]
        if d[0] != 'at':
            return 'line %s appends the sections of dimension %s' % (rec['line'], fmt(d, 4))
        win = window(R, d[1], sd)
        off = sub(d[2], it)
        tr = R.trips.get(it) or set()
        if win is None:
            why = parts(R, d[1], sd)
            return 'line %s: the dimensions come from a list of %s' % (rec['line'], why)
        if not same_count(sub(off, win[0])) or not any(same_count(sub(t, win[1])) for t in tr):
            return 'line %s: takes entries %s.. (%s of them) of the permutation' % (rec['line'], fmt(off, 4), [fmt(t, 4) for t in tr])
    else:
        d = it
    if w_[0] != 'run' or w_[1] != field or w_[2] != ('sum', sd.sbd, ZERO, d) or sub(w_[3], w_[2]) != ('at', sd.sbd, d):
        return 'line %s appends %s from %s to %s' % (rec['line'], fmt(w_[1], 3), fmt(w_[2], 4) if len(w_) > 2 else '', fmt(w_[3], 4) if len(w_) > 3 else '')
    return ''


def unconv(t):
    t = strip_conv(t)
    if t[0] == 'get' and t[2] == ('f', 'value'):
        return t[1]
    return t


def result_parts(R, ctor, A, B, ob):
    """sections, sizes, quantities, rule and options of the result of contracting A with B"""
    N = R.N
    SAMELEN.clear()
    SAMELEN.update({('call', 'size', (A.dims,)), ('call', 'size', (B.dims,))})
    sd, cv, sz, rule, opt = ctor[2]
    st, why = stages(R, sd)
    ok = st is not None and len(st) == 2
    if ok:
        for x, S in zip(st, (A, B)):
            it = ('iter', x[0]['site'])
            r = over_free(R, x, S)
            if isinstance(r, str):
                r = through_list(R, x, S) or r
            if r != ('entry', ('at', S.sbd, it)):
                ok, why = False, r if isinstance(r, str) else 'line %s appends %s' % (x[0]['line'], fmt(r, 5))
    ob('the dimensions of the result are the uncontracted ones of the first, then of the second', ok, why or 'appended by %d passes' % len(st or ()))
    for nm, x, f in (('section sizes', sz, 'sizes'), ('quantities', cv, 'cv')):
        st, why = stages(R, x)
        ok = st is not None and len(st) == 2
        if ok:
            whys = [runs_of_free(R, y, S, getattr(S, f)) for y, S in zip(st, (A, B))]
            ok, why = not any(whys), '; '.join(y for y in whys if y)
        ob('%s are those of the uncontracted dimensions in that order' % nm, ok, why or 'appended by %d passes' % len(st or ()))
    r = N(rule)
    a = [unconv(x) for x in r[2]] if r[0] == 'call' and r[1].split('::')[-1] in ('operator+', 'operator*') and len(r[2]) == 2 else []
    ob('the selection rule is the product of the two', sorted(a, key=repr) == sorted((A.rule, B.rule), key=repr), 'it becomes %s' % fmt(r, 5))
    o = N(opt)
    fam = [y for y in subterms(o) if len(y) > 2 and y[0] == 'call' and y[1].split('::')[-1] == 'promote_types']
    opts = lambda t: ('get', t, ('f', '_options'))
    args = set()
    for y in fam:
        for z in y[2]:
            for q in subterms(z):
                if q == opts(A.t) or q == opts(B.t):
                    args.add(q)
    base = o[0] == 'call' and o[1].split('::')[-1] in ('dtype', 'merge_in') and len(o[2]) == 2 and o[2][0] == opts(A.t)
    ob('the element type is the promotion of both', base and len(fam) >= 1 and args == {opts(A.t), opts(B.t)}, 'options become %s' % fmt(o, 5))


def gate(R, s, A, B, ob):
    """the path went through the compatibility test of exactly these dimensions"""
    ok = False
    for e in flat(s.log):
        if e[0] == 'call' and e[1] == BTQ + 'check_product_compat' and tuple(R.N(x) for x in e[3]) == (A.t, B.t, A.dims, B.dims):
            # either the call refuses by itself, or its answer is asked for
            fn = R.I.F.fns.get(e[6]) if len(e) > 6 else None
            if fn is None or not fn.j.get('noexcept'):
                ok = True
            elif any(not v and k == 'eq0' and d[0] == 'call' and d[1] == e[1] and d[2] == (A.t, B.t, A.dims, B.dims) for (k, d), v in lits(R.N, s.facts).items()):
                ok = True
    ob('the dimensions are compared first', ok, 'no comparison of the contracted dimensions on this path')
    L = lits(R.N, s.facts)
    ob('lists of different length are refused', A.dims == B.dims or eq_lit(L, ('call', 'size', (A.dims,)), ('call', 'size', (B.dims,))) is True, '')
    st = [v for (k, d), v in L.items() if k == 'eq0' and d[0] == 'call' and d[1].split('::')[-1] == 'same_type' and {unconv(x) for x in d[2]} == {A.rule, B.rule}]
    ob('quantities of another kind are refused', st == [False], 'the kinds of quantities are not compared')


HELPERS = LOOKUPS | {'quantit::compute_tdot_shape', 'quantit::compute_tdot_cval_sectSize'}
PBL = 'quantit::permute_bl'


class Head(BT):
    """stops where the blocks are about to be combined"""
    heads = ()

    def loop1(self, s0, n, f):
        ev = flat(s0.log)
        if sum(1 for e in ev if e[0] == 'call' and e[1] == PBL) >= 2 and any(e[0] == 'call' and e[1] == BTQ + 'btensor' and len(e[3]) >= 5 for e in ev):
            self.heads = self.heads + (s0,)
            return []
        return super().loop1(s0, n, f)


def beyond_rank(R, L, A, B):
    """the path needs a dimension number that is not below the rank, impossible for valid dimension lists"""
    for (k, d), v in L.items():
        if k != 'lt0' or v is not False:
            continue
        for S in (A, B):
            x = add(d, S.rank)
            if x[0] == 'at' and (x[1] == S.dims or not isinstance(order_of(R, x[1], S, None), str)):
                return True
    return False


def refusing(R, d, A, B):
    return d[1] == BTQ + 'check_product_compat' and tuple(R.N(x) for x in d[2]) == (A.t, B.t, A.dims, B.dims)


def raw_throws(R, A, B, ob):
    for s, k, v in R.outs:
        if k == 'throw' and v[0] == 'throw':
            L = lits(R.N, s.facts)
            if beyond_rank(R, L, A, B):
                continue
            ok = eq_lit(L, ('call', 'size', (A.dims,)), ('call', 'size', (B.dims,))) is False
            ok = ok or any(vv and d[0] == 'call' and (d[1].split('::')[-1] == 'same_type' or refusing(R, d, A, B)) for (kk, d), vv in L.items() if kk == 'eq0')
            ob('refused only when something differs', ok, 'line %s throws although nothing is known to differ' % (v[2] if len(v) > 2 else ''))


def product_shape_rule(ctx, F):
    n = 0
    for fn in F.q(BTQ + 'tensor_product_shape'):
        R = Run(F, fn, HELPERS)
        w = W(fn)
        other = ('sym', fn.params[0]['n'])
        ob = lambda nm, ok, why='': ctx.ob('tensor product shape: %s' % nm, ok, w, why)
        none = ('ctor', 'c10::ArrayRef', ())
        A, B = Side(T, none), Side(other, none)
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            R.cur = s
            x = strip_copies(value(R.I, s, v))
            if ob('builds a tensor without blocks', x[0] == 'ctor' and x[1] == 'quantit::btensor' and len(x[2]) == 5, 'returns %s' % fmt(R.N(x), 3)):
                result_parts(R, x, A, B, ob)
        raw_throws(R, A, B, ob)
        ctx.ob('tensor product shape: has a normal outcome', n > 0, w, '')
    return n


def segments(R, x):
    """a list of known length filled by copies of runs -> {first position: (list, first, last)}, length"""
    N = R.N
    segs = {}
    y = x
    while True:
        y = strip_copies(y)
        if len(y) > 3 and y[0] == 'mut' and y[1].split('::')[-1] == 'rotate' and y[2] == 'out':     # in place
            a = y[3]
            src = bare(a[0])
            r1, r2 = pos_in(R, a[1]), pos_in(R, a[2])
            n = N(('call', 'size', (src,)))
            end = pos_in(R, a[3])
            if None in (r1, r2, end) or r1 != ZERO or end != n or segs:
                return None
            return {ZERO: (src, r2, n), sub(n, r2): (src, ZERO, r2)}, n
        if len(y) > 3 and y[0] == 'mut' and y[1].split('::')[-1] in ('copy', 'copy_backward', 'rotate_copy') and y[2] == 'out':
            a = y[3]
            nm = y[1].split('::')[-1]
            base = a[0]
            if nm == 'rotate_copy':
                r1, r2 = N.range(a[1], a[2]), N.range(a[2], a[3])
                p = pos_in(R, a[4])
                if None in (r1, r2, p):
                    return None
                segs[p] = r2
                segs[add(p, sub(r2[2], r2[1]))] = r1
            else:
                r = N.range(a[1], a[2])
                p = pos_in(R, a[3])
                if r is None or p is None:
                    return None
                segs[N(p if nm == 'copy' else sub(p, sub(r[2], r[1])))] = r
            y = base
        else:
            break
    if y[0] == 'ctor' and y[1] == 'std::vector' and y[2]:
        return segs, N(('call', 'size', (y,)))
    return None


def pos_in(R, t):
    _, m = aff(t)
    h = [a for a, k in m.items() if a[0] == 'begin' and k == 1]
    return R.N(sub(t, h[0])) if len(h) == 1 else None


def order_of(R, P, sd, s):
    """like parts(), also for a list rearranged from another permutation list"""
    p = parts(R, P, sd)
    if not isinstance(p, str):
        return p
    sg = segments(R, P)
    if sg is None:
        return p
    segs, total = sg
    out, at = [], ZERO
    k = count(sd)
    for _ in range(len(segs)):
        hit = [(q, r) for q, r in segs.items() if same_count(sub(q, at))]
        if len(hit) != 1:
            return 'entry %s is not written once' % fmt(at, 4)
        src, lo, hi = hit[0][1]
        src = settled(s, src)
        nm = part_between(R, src, parts(R, src, sd), lo, hi, sd)
        if nm is None:
            return 'entries %s to %s of the permutation are copied' % (fmt(lo, 4), fmt(hi, 4))
        out.append(nm)
        at = add(at, sub(hi, lo))
    return tuple(out) if same_count(sub(at, total)) else 'only %s of %s entries are written' % (fmt(at, 4), fmt(total, 4))


def settled(s, t):
    """a list named by the variable that holds it -> its value on the path"""
    path = []
    while t[0] == 'get':
        path.append(t[2])
        t = t[1]
    if s is not None and t[0] == 'sym' and t[1] in s.env:
        t = s.env[t[1]]
    for k in reversed(path):
        t = proj(t, k)
    return t


def head_rule(ctx, F):
    n = 0
    fns = F.q(BTQ + 'tensordot')
    ctx.need(fns, 'btensor::tensordot not found')
    for fn in fns:
        R = Run(F, fn, HELPERS, Head)
        N, w = R.N, W(fn)
        other, d1, d2 = (('sym', p['n']) for p in fn.params)
        A, B = Side(T, d1), Side(other, d2)
        ob = lambda nm, ok, why='': ctx.ob('contraction: %s' % nm, ok, w, why)
        ctx.need(R.I.heads, 'the loops of tensordot over the blocks were not found')
        for s in R.I.heads:
            n += 1
            R.cur = s
            outs = {x for t in s.env.values() for x in subterms(strip_copies(t)) if len(x) > 2 and x[0] == 'ctor' and x[1] == 'quantit::btensor' and len(x[2]) == 5}
            lists = {x for t in s.env.values() for x in [strip_copies(t)] if len(x) > 2 and x[0] == 'call' and x[1] == PBL}
            gate(R, s, A, B, ob)
            if ob('one result is prepared', len(outs) == 1, '%d' % len(outs)):
                result_parts(R, outs.pop(), A, B, ob)
            ob('both block lists are permuted', {N(x[2][0]) for x in lists} == {A.bl, B.bl} and len(lists) == 2, '%d lists' % len(lists))
            for x in lists:
                bl, ip, tp, split = x[2]
                S = A if N(bl) == A.bl else B
                nm = 'first' if S is A else 'second'
                k = count(S)
                io, to = order_of(R, bare_ref(ip), S, s), order_of(R, bare_ref(tp), S, s)
                ob('%s operand: block indices end with the contracted dimensions' % nm, io == ('free', 'contracted'), 'order %s' % (io,))
                want, sp = (('free', 'contracted'), sub(S.rank, k)) if S is A else (('contracted', 'free'), k)
                ob('%s operand: blocks are arranged for the matrix product' % nm, to == want and same_count(sub(N(split), sp)), 'order %s split at %s' % (to, fmt(N(split), 4)))
        raw_throws(R, A, B, ob)
    return n


def bare_ref(t):
    while t[0] == 'ctor' and t[1] == 'c10::ArrayRef' and len(t[2]) == 1:
        t = t[2][0]
    return t


def prod_run(R, t):
    """product of consecutive entries of a list: (list, first, last)"""
    if t[0] == 'call' and t[1] in ('std::accumulate', 'std::reduce') and len(t[2]) == 4 and t[2][2] == ONE and 'multiplies' in repr(t[2][3]):
        r = R.N.range(t[2][0], t[2][1])
        if r and r[0][0] == 'sym' and r[0][1] in R.I.summed:      # a local list: what it held when its entries were multiplied
            was = {block_values(R.C(x)) for x in R.I.summed[r[0][1]]}
            if len(was) == 1:
                old, seq = r[0], was.pop()
                r = (seq,) + tuple(subst_size(R, x, old, seq) for x in r[1:])
        return r and (r[0], R.fin(R.N(r[1])), R.fin(R.N(r[2])))
    if t[0] != 'phi' or t not in R.I.phirec:
        return None
    rec = R.I.phirec[t]
    it = ('iter', rec['site'])
    tr = R.trips.get(it)
    if rec['init'].get(t) != ONE or not tr or len(tr) != 1 or rec.get('rets'):
        return None
    got = set()
    for e in rec['ends']:
        v = N_(R, e[2].get(t, t))
        ab = v[2:] if v[0] == 'bin' else v[2] if v[0] == 'op' else ()
        if v[1] == '*' and len(ab) == 2 and t in ab:
            x = ab[0] if ab[1] == t else ab[1]
            if x[0] == 'at':
                got.add((x[1], R.fin(sub(x[2], it))))
                continue
        return None
    if len(got) != 1:
        return None
    seq, lo = got.pop()
    return seq, lo, add(lo, R.fin(next(iter(tr))))


def N_(R, t):
    return R.N(t)


def permuted_rule(ctx, F):
    """permute_bl: every block moves to the permuted index and becomes the matrix split after `split` of the permuted dimensions"""
    n = 0
    for fn in F.q(PBL):
        R = Run(F, fn)
        I, N, w = R.I, R.N, W(fn)
        bl, ip, tp, split = (('sym', p['n']) for p in fn.params)
        ob = lambda nm, ok, why='': ctx.ob('permuted blocks: %s' % nm, ok, w, why)
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            x = strip_copies(value(I, s, v))
            srt = len(x) > 3 and x[0] == 'mut' and x[1].split('::')[-1] == 'sort'
            if emptyish(R, s, bl):
                ob('nothing for nothing', N(strip_copies(x)) == bl or srt and N(strip_copies(x[3][0])) == bl or starts_empty(x), '')
                continue
            if not ob('the list is sorted by the new indices', srt, 'returns %s' % fmt(N(x), 4)):
                continue
            lst = strip_copies(x[3][0])
            src, per = mapped(I, R.C, lst)
            if not ob('every block is kept', src is not None, per):
                continue
            ob('the blocks are those of the argument', R.C(src) == bl, fmt(src, 4))
            con = contents(I, lst)
            facts = [f for f, _ in con[1][0][1]] if con and con[1] else []
            for i, one in enumerate(per):
                if not ob('one block for each', len(one) == 1, ''):
                    continue
                key, val = one[0]
                ob('index permuted', permuted_key(R, key, ip, bl), 'it becomes %s' % fmt(key, 6))
                L = lits(N, facts[i]) if i < len(facts) else {}
                val, why = unstride(R, val, L)
                ok = val is not None and val[0] in ('op', 'call') and val[1].split('::')[-1] == 'reshape' and len(val[2]) == 2
                if ok:
                    p, shp = val[2]
                    ok = p[0] in ('op', 'call') and p[1].split('::')[-1] == 'permute' and tuple(p[2]) == (VAL, tp)
                    why = 'it becomes %s' % fmt(val, 6)
                    if ok:
                        ok, why = matrix_shape(R, shp, p, split)
                ob('content becomes a matrix of the permuted block', ok, why or 'it becomes %s' % fmt(val, 6))
    return n


def emptyish(R, s, bl):
    L = lits(R.N, s.facts)
    return L.get(('eq0', ('call', 'size', (bl,)))) is True


def permuted_key(R, key, ip, bl):
    key = bare(key)
    if key[0] != 'phi' or key not in R.I.phirec:
        f = filled(R, key)
        return f is not None and f[2][0] == 'at' and f[2][2] == ('at', ip, f[1]) and f[2][1] == KEY
    rec = R.I.phirec[key]
    it = ('iter', rec['site'])
    tr = R.trips.get(it) or set()
    whole = any(t[0] == 'call' and t[1] == 'size' and (t[2][0] == ip or t[2][0] == KEY or t[2][0][0] == 'E' and t[2][0][3] == 'get0') for t in tr)
    if not whole or rec.get('rets') or not rec['ends']:
        return False
    for e in rec['ends']:
        y = e[2].get(key, key)
        if len(y) > 3 and y[0] == 'mut' and y[1].split('::')[-1] in ('push_back', 'emplace_back') and y[3][0] == key and starts_empty(rec['init'][key]):
            v = R.N(y[3][1])
        else:
            ps = peel(y, key)
            if ps is None or len(ps) != 1 or R.N(ps[0][1]) != it:
                return False
            v = R.N(ps[0][2])
        if v[0] != 'at' or v[2] != ('at', ip, it) or not (v[1] == KEY or v[1][0] == 'E' and len(v[1]) > 3 and v[1][3] == 'get0' and v[1][2][0] == 'pos'):
            return False
    return True


def unstride(R, val, L):
    """drop a restriding that only touches dimensions of length one"""
    if val[0] not in ('op', 'call') or val[1].split('::')[-1] not in ('as_strided', 'as_strided_'):
        return val, ''
    x, sizes, st = val[2][:3]
    if not (sizes[0] in ('op', 'call') and sizes[1].split('::')[-1] == 'sizes' and sizes[2] == (x,)):
        return None, 'restrided to the sizes %s' % fmt(sizes, 5)
    if not (x[0] in ('op', 'call') and x[1].split('::')[-1] == 'reshape' and x[2][1][0] == 'list'):
        return None, 'restrided %s' % fmt(x, 5)
    dims = x[2][1][1]
    st = st
    while st[0] == 'ctor' and st[1] == 'c10::ArrayRef':
        st = st[2][0]
    base, ups = st, {}
    while base[0] == 'upd':
        for k, v in base[2]:
            ups.setdefault(k, v)
        base = base[1]
    for (_, k), v in ups.items():
        if v == ('at', base, k) or v[0] == 'at' and v[2] == k:
            continue
        i = k[1] if k[0] == 'c' else None
        one = i is not None and i < len(dims) and any(kk == 'eq0' and vv is True and phi_of(d) == phi_of(sub(dims[i], ONE)) for (kk, d), vv in L.items())
        if not one:
            return None, 'the stride of a dimension not known to have length one changes'
    return x, ''


def block_values(t):
    """the value of the block under examination, however it is reached"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 4 and t[0] == 'E' and t[3] == 'get1' and t[2][0] == 'pos':
        return VAL
    return tuple(block_values(x) for x in t)


def phi_of(d):
    """loop value compared with a constant, whatever the pass of the analysis over its loop"""
    c, m = aff(block_values(d))
    return (c,) + tuple(sorted(((a[1][:3], a[2]) if a[0] == 'phi' else (a,)) + (k,) for a, k in m.items()))


def matrix_shape(R, shp, p, split):
    if shp[0] != 'list' or len(shp[1]) != 2:
        return False, 'reshaped to %s' % fmt(shp, 4)
    isz = lambda t: t[0] in ('op', 'call') and t[1].split('::')[-1] == 'sizes' and t[2][0][0] in ('op', 'call') and t[2][0][1].split('::')[-1] == 'permute' and t[2][0][2][1] == p[2][1]
    whys = []
    for i, (x, lo, hi) in enumerate(zip(shp[1], (ZERO, split), (split, None))):
        r = prod_run(R, x)
        if x == ('c', -1) and shp[1].count(('c', -1)) == 1:
            continue
        if r is None:
            whys.append('dimension %d of the matrix is %s' % (i, fmt(x, 5)))
            continue
        seq, a, b = r
        if not isz(seq) or a != lo or (b != hi if hi is not None else b != R.N(('call', 'size', (seq,))) and not (b[0] == 'call' and b[1] == 'size' and isz(b[2][0]))):
            whys.append('dimension %d of the matrix multiplies sizes %s to %s' % (i, fmt(a, 4), fmt(b, 4)))
    return not whys, '; '.join(whys)


def bmm_gate(ctx, F):
    """batched matrix product: equal ranks of at least 2, equal batch sections, matching sections along the summed dimension"""
    n = 0
    fns = F.q('quantit::mul_helpers::check_bmm_compatibility')
    for fn in fns:
        R = Run(F, fn, LOOKUPS)
        N, w = R.N, W(fn)
        a, b = (('sym', p['n']) for p in fn.params)
        A, B = fields(a), fields(b)
        rk = {A[3], B[3]}
        two = ('c', 2)
        ob = lambda nm, ok, why='': ctx.ob('batched product compatibility: %s' % nm, ok, w, why)

        def counts(R, L, i):
            return eq_lit(L, ('at', A[0], i), ('at', B[0], i))

        def batch_sizes(R, L, i):
            return eq_lit(L, ('at', A[1], i), ('at', B[1], i))

        def ends(L):
            eq = eq_lit(L, A[3], B[3]) is True
            return [(sub(x, ONE), sub(y, two)) for x in ([A[3], B[3]] if eq else [A[3]]) for y in ([A[3], B[3]] if eq else [B[3]])], eq

        def batch_counts(L):
            out = []
            for X in (A, B):
                for r in ([A[3], B[3]]):
                    out += [('sum', X[0], ZERO, sub(r, two)), add(('at', X[0], sub(r, ('c', 3))), ('sum', X[0], ZERO, sub(r, ('c', 3))))]
            return out

        def verdicts(L):
            """name -> True / False / None"""
            v = {'ranks are equal': eq_lit(L, A[3], B[3])}
            lt = [known_lt(L, r, two) for r in rk]
            v['ranks are at least 2'] = True if False in lt else False if True in lt else None
            many = [known_lt(L, two, r) for r in rk]
            nob = False in many
            v['batch dimensions have the same number of sections'] = some([for_all(R, L, sub(r, two), counts)[0] for r in rk])
            v['batch sections have the same sizes'] = True if nob else some([for_all(R, L, c, batch_sizes)[0] for c in batch_counts(L)])
            es, _ = ends(L)
            v['summed dimension: same number of sections'] = some([eq_lit(L, ('at', A[0], da), ('at', B[0], db)) for da, db in es])
            v['summed dimension: same section sizes'] = some([sizes_equal(R, L, a, b, da, db) for da, db in es] + [for_all(R, L, c, sizes_loop(a, b, da, db))[0] for da, db in es for c in (('at', A[0], da), ('at', B[0], db))])
            v['summed dimension: quantities cancel'] = some([for_all(R, L, c, products_neutral(R, a, b, da, db))[0] for da, db in es for c in (('at', A[0], da), ('at', B[0], db))])
            return v

        def differs(L):
            if False in verdicts(L).values():
                return True
            for rec in R.I.loops:
                it = ('iter', rec['site'])
                if any(within(L, it, sub(r, two)) for r in rk) and counts(R, L, it) is False:
                    return True
                if any(within(L, it, c) for c in batch_counts(L)) and batch_sizes(R, L, it) is False:
                    return True
                for da, db in ends(L)[0]:
                    if any(within(L, it, c) for c in (('at', A[0], da), ('at', B[0], db))) and (
                            sizes_loop(a, b, da, db)(R, L, it) is False or products_neutral(R, a, b, da, db)(R, L, it) is False):
                        return True
            return False
        for s, k, v in R.outs:
            n += 1
            L = lits(N, s.facts)
            if k == 'throw':
                ob('refused only when something differs', differs(L), 'line %s throws although nothing is known to differ' % (v[2] if len(v) > 2 else ''))
                continue
            for nm, t in verdicts(L).items():
                ob(nm, t is True, 'accepted without comparing')
    for fn in F.q(BTQ + 'bmm'):
        if not fns:
            break
        R = Run(F, fn, (), First)
        mat = ('sym', fn.params[0]['n'])
        ctx.need(R.I.heads, 'the loops of bmm over the blocks were not found')
        for s in R.I.heads:
            n += 1
            ok = any(e[0] == 'call' and e[1] == fns[0].q and {R.N(x) for x in e[3]} == {T, mat} for e in flat(s.log))
            ctx.ob('batched product compatibility: tested before multiplying', ok, W(fn), 'the blocks are multiplied without the test')
    return n


class First(BT):
    """stops at the first loop of the function itself"""
    heads = ()

    def loop1(self, s0, n, f):
        if len(self.stack) == 1:
            self.heads = self.heads + (s0,)
            return []
        return super().loop1(s0, n, f)


def some(xs):
    return False if False in xs else True if True in xs else None


def a13(ctx):
    F = load(['btensor.cpp'], True)
    ctx.meta = {'compatibility': compat_rule(ctx, F), 'product_shape': product_shape_rule(ctx, F), 'contraction': head_rule(ctx, F), 'permuted': permuted_rule(ctx, F), 'batched': bmm_gate(ctx, F)}
