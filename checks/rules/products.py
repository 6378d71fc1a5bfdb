"""Contraction values: which pairs of blocks are multiplied, and where the sums are put."""
from rules.contraction import *
from rules.networks import subst

ZERO, ONE = ('c', 0), ('c', 1)
BIG = 2 ** 63 - 1
GROW = ('push_back', 'emplace_back')


class Cur:
    """cursors into the two permuted lists of blocks of a contraction"""

    def __init__(self, R, fn, left, right, dims):
        self.R, self.N = R, R.N
        self.lists, self.ranks = [None, None], [None, None]
        self.own = (left, right)
        self.d = ('call', 'size', (dims[0],))
        self.d2 = ('call', 'size', (dims[1],))
        self.beg = [None, None]
        seen = set()
        for rec in R.I.loops:
            for e in list(rec['ends']) + list(rec['exits']):
                for v in e[2].values():
                    self.collect(v, seen)
                for (k, d), v in e[1].items():
                    self.collect(d, seen)
        for e in seen:
            sd = self.side(e[1])
            if sd is None:
                continue
            self.lists[sd] = e[1]
            c, m = aff(e[2])
            b = [a for a, k in m.items() if a[0] == 'begin' and k == -1]
            if len(b) == 1:
                self.beg[sd] = b[0]

    def collect(self, t, seen):
        for y in subterms(self.N(t)):
            if isinstance(y, tuple) and len(y) == 4 and y[0] == 'E':
                seen.add(y)

    def side(self, T):
        T = strip_copies(T)
        if T[0] == 'call' and T[1] == PBL:
            src = strip_copies(T[2][0])
            for sd in (0, 1):
                if src == ('get', self.own[sd], ('f', 'blocks_list')):
                    return sd
        return None

    def rank(self, sd):
        return ('get', self.own[sd], ('f', 'rank'))

    def idx(self, x, sd):
        return sub(self.N(x), self.beg[sd])

    def size(self, sd):
        return ('call', 'size', (self.lists[sd],))

    def is_elem(self, y, field):
        """(side, iterator) of an element of one of the lists"""
        y = strip_copies(y)
        if len(y) == 4 and y[0] == 'E' and y[3] == field:
            for sd in (0, 1):
                if y[1] == self.lists[sd] or (self.beg[sd] is not None and y[1] == ('sym', self.beg[sd][1])):
                    return sd, add(y[2], self.beg[sd])
        return None

    def index_size(self, t):
        """the number of dimensions of a block index is the rank"""
        if t[0] == 'call' and t[1] == 'size' and len(t[2]) == 1:
            e = self.is_elem(t[2][0], 'get0')
            if e:
                return self.rank(e[0])
        return None

    def length(self, t):
        """an affine term with the lengths of the block indices replaced by the ranks, and one name for the number of contracted dimensions"""
        c, m = aff(self.N(t))
        r = ('c', c)
        for a, k in m.items():
            b = self.index_size(a)
            if b is None and a[0] == 'call' and a[1] == 'size' and len(a[2]) == 1:
                b = self.capacity(a[2][0])
            if a == self.d2:
                b = self.d
            x = b if b is not None else a
            for _ in range(abs(k)):
                r = add(r, x, 1 if k > 0 else -1)
        return r

    def capacity(self, x, depth=0):
        """number of entries of a list that is only overwritten in place"""
        x = strip_copies(x)
        while x[0] == 'upd' or (x[0] == 'mut' and x[2] == 'out'):
            x = strip_copies(x[1] if x[0] == 'upd' else x[3][0])
        if x[0] == 'phi' and depth < 4:
            r = self.rec_of(x)
            i = r and init_of(r, x)
            return self.capacity(self.N(i), depth + 1) if i is not None else None
        if x[0] == 'ctor' and x[1] == 'std::vector' and len(x[2]) >= 1:
            return x[2][0]
        return None

    def lits(self, facts):
        """known literals with the lengths in terms of the ranks; None: impossible"""
        out = {}
        for (k, d), v in lits(self.N, facts).items():
            d2 = self.length(d)
            if is_c(d2):
                if ((d2[1] == 0) if k == 'eq0' else (d2[1] < 0)) != v:
                    return None
                continue
            if out.get((k, d2), v) != v:
                return None
            out[(k, d2)] = v
        return out

    def rec_of(self, ph):
        if ph[0] == 'phi':
            for rec in self.R.I.loops:
                if rec['site'] == ph[1] and ph in rec['init']:
                    return rec
        return None


def init_of(rec, ph):
    return rec['init'].get(ph)


def eq(L, a, b):
    """known equality of two positions"""
    a, b = sub(a, b), sub(b, a)
    if is_c(a):
        return a[1] == 0
    for d in (a, b):
        if ('eq0', d) in L:
            return L[('eq0', d)]
    return None


class Order:
    """outcome of comparing the contracted parts of a left and of a right block index"""

    def __init__(self, C):
        self.C = C

    def tail(self, a, b):
        """(side, iterator) when [a, b) is the contracted part of an index"""
        C = self.C
        r = C.N.range(a, b)
        if r is None:
            return None
        e = C.is_elem(r[0], 'get0')
        if e is None:
            return None
        rk = C.rank(e[0])
        if C.length(r[1]) != sub(rk, C.d) or C.length(r[2]) != rk:
            return None
        return e

    def of(self, t):
        """((side, iterator), (side, iterator)): t says whether the first comes before the second"""
        if t[0] == 'call' and t[1].split('::')[-1] == 'lexicographical_compare' and len(t[2]) == 4:
            a, b = self.tail(*t[2][:2]), self.tail(*t[2][2:])
            if a and b and a[0] != b[0]:
                return a, b
        return None

    def value(self, t, p, q, world):
        """value of an affine term in the world where the block at p comes before, at or after the one at q"""
        c, m = aff(t)
        r = ('c', c)
        for a, k in m.items():
            o = self.of(a)
            x = a
            if o:
                if {o[0], o[1]} != {(0, p), (1, q)}:
                    return None
                first = 'lt' if o[0][0] == 0 else 'gt'
                x = ONE if world == first else ZERO
            elif a[0] == 'call' and a[1].split('::')[-1] == 'lexicographical_compare':
                return None
            r = add(r, mul(('c', k), x))
        return r


    def possible(self, L, p, q, world):
        """the literals allow this order of the two"""
        for (k, d), v in L.items():
            if 'lexicographical_compare' in repr(d):
                x = self.value(d, p, q, world)
                if x is not None and is_c(x) and ((x[1] == 0) if k == 'eq0' else (x[1] < 0)) != v:
                    return False
        return True


class Joins:
    """loops that advance a pair of positions to the next pair with equal contracted parts"""

    def __init__(self, C):
        self.C, self.O = C, Order(C)
        self.found = {}
        for rec in C.R.I.loops:
            pq = self.cursors(rec)
            if pq:
                self.found[rec['site']] = (rec, pq)
        self.flags = {}

    def cursors(self, rec):
        """the two positions whose contracted parts are compared"""
        O, C = self.O, self.C
        pos = [set(), set()]
        for e in rec['ends']:
            for t in list(e[2].values()) + [d for (k, d), v in e[1].items()]:
                for y in subterms(C.N(t)):
                    if isinstance(y, tuple) and len(y) > 2 and y[0] == 'call' and isinstance(y[1], str) and y[1].split('::')[-1] == 'lexicographical_compare':
                        for x in subterms(y):
                            if isinstance(x, tuple) and len(x) == 4 and x[0] == 'E':
                                g = C.is_elem(x, 'get0')
                                if g and g[1] in rec['init']:
                                    pos[g[0]].add(g[1])
        if len(pos[0]) == 1 and len(pos[1]) == 1:
            return pos[0].pop(), pos[1].pop()
        return None

    def check(self, rec, ob):
        """each round drops exactly the smaller of the two, and the loop stops at a pair"""
        C, O = self.C, self.O
        p, q = self.found[rec['site']][1]
        line = rec['line']
        zero = None
        for e in rec['ends']:
            L = C.lits(e[1])
            if L is None:
                continue
            new = {k: C.N(v) for k, v in e[2].items()}
            for w, want in (('lt', (ONE, ZERO)), ('gt', (ZERO, ONE)), ('eq', (ZERO, ZERO))):
                if not O.possible(L, p, q, w):
                    continue
                step = tuple(O.value(sub(new.get(x, x), x), p, q, w) for x in (p, q))
                nm = {'lt': 'the left one comes first', 'gt': 'the right one comes first', 'eq': 'they agree'}[w]
                ob('the search for the next matching pair drops the block whose contracted part comes first', step == want, 'line %s: when %s, the positions advance by %s' % (line, nm, [fmt(x, 3) if x else 'an unrelated comparison' for x in step]))
                if w == 'eq':
                    stop = False
                    flags = {x: O.value(v, p, q, w) for x, v in new.items() if x not in (p, q)}
                    for x in rec['exits']:
                        LX = C.lits(x[1])
                        if LX is None:
                            continue
                        ok = True
                        for (k, d), v in LX.items():
                            if L.get((k, d)) == v and not any(y in flags for y in subterms(d) if isinstance(y, tuple)):
                                continue
                            for y, z in flags.items():
                                if z is not None:
                                    d = subst(d, y, z)
                            d = C.N(d)
                            if not (is_c(d) and ((d[1] == 0) if k == 'eq0' else (d[1] < 0)) == v):
                                ok = False
                        stop = stop or ok
                    ob('the search for the next matching pair stops at a pair', stop, 'line %s: it goes on when the contracted parts agree' % line)
        return True

    def marks(self, rec):
        """the variables that are all zero only where the pair agrees"""
        site = rec['site']
        if site in self.flags:
            return self.flags[site]
        C, O = self.C, self.O
        p, q = self.found[site][1]
        cand = [x for x in rec['init'] if x not in (p, q) and is_c(C.N(rec['init'][x])) and C.N(rec['init'][x])[1] == 1]
        good = bool(cand)
        for e in rec['ends']:
            L = C.lits(e[1])
            if L is None:
                continue
            for w in ('lt', 'gt'):
                if not O.possible(L, p, q, w):
                    continue
                vals = [O.value(C.N(e[2].get(x, x)), p, q, w) for x in cand]
                if not any(v is not None and is_c(v) and v[1] != 0 for v in vals):
                    good = False
        self.flags[site] = cand if good else []
        return self.flags[site]

    def agrees(self, rec, L):
        """the final pair is known to agree"""
        p, q = self.found[rec['site']][1]
        m = self.marks(rec)
        if m and all(L.get(('eq0', x)) is True for x in m):
            return True
        known = set()
        for (k, d), v in L.items():
            if k == 'eq0' and v is True:
                o = self.O.of(d)
                if o and {o[0], o[1]} == {(0, p), (1, q)}:
                    known.add(o[0][0])
        return known == {0, 1}


class Walk:
    """the columns of both lists and the sums over the matching pairs"""

    def __init__(self, C, J, ob):
        self.C, self.J, self.ob = C, J, ob
        self.cols, self.late = [[], []], [[], []]
        for rec in C.R.I.loops:
            if rec['site'] in J.found:
                continue
            for ph, i in rec['init'].items():
                i = C.N(i)
                for sd in (0, 1):
                    at = C.idx(i, sd) if C.beg[sd] is not None else None
                    if at == ZERO:
                        self.cols[sd].append((rec, ph))
                    elif at is not None:
                        self.late[sd].append((rec, ph, at))
        self.memo = {}

    def column_of(self, rec, sd, L):
        """start of the current column seen from inside a loop"""
        return [ph for r, ph in self.cols[sd]]

    def is_end(self, x, sd, L):
        """x is the end of the column that starts at the returned position"""
        C = self.C
        x = C.N(x)
        n = C.size(sd)
        if C.idx(x, sd) == n:
            if L.get(('eq0', C.rank(sd))) is True or L.get(('eq0', sub(C.rank(sd), C.d))) is True or L.get(('eq0', sub(C.d, C.rank(sd)))) is True:
                return 'whole'
            return None
        if x[0] == 'call' and x[1].split('::')[-1] == 'lower_bound' and len(x[2]) >= 3:
            c, e, key = C.N(x[2][0]), C.N(x[2][1]), strip_copies(x[2][2])
            if C.idx(e, sd) != n:
                return None
            if key[0] != 'upd' or len(key[2]) != 1:
                return None
            g = C.is_elem(key[1], 'get0')
            if g is None or g != (sd, c):
                return None
            (at, v), = key[2]
            at = C.length(at[1] if at[0] == 'i' else at)
            zero = L.get(('eq0', C.d))
            v = C.N(v)
            rk = C.rank(sd)
            if zero is False and at == sub(rk, C.d) and (is_c(v) and v[1] >= BIG or v[0] == 'call' and v[1].split('::')[-1] == 'max' and not v[2]):
                return c
            if zero is True and at in (sub(sub(rk, C.d), ONE), sub(rk, ONE)):
                y = sub(v, ONE)
                if y[0] == 'at' and strip_copies(y[1]) == strip_copies(key[1]) and C.length(y[2]) == at:
                    return c
        return None

    def feasible(self, facts):
        """literals of a path that valid tensors can take"""
        return self.C.lits(facts)

    def at_end(self, x, sd, c, L):
        """is the position known to be the end of the column that starts at c"""
        C = self.C
        if self.is_end(x, sd, L) in (c, 'whole'):
            return True
        r = None
        atoms = [a for a in aff(x)[1] if a not in self.C.beg]
        for (k, d), v in L.items():
            if k != 'eq0' or not any(a in aff(d)[1] for a in atoms):
                continue
            for s in (1, -1):
                y = add(x, d, s)
                if self.is_end(y, sd, L) in (c, 'whole'):
                    r = v if r is not True else r
        return r

    def columns(self):
        C, ob = self.C, self.ob
        n = 0
        for sd in (0, 1):
            nm = ('left', 'right')[sd]
            for rec, ph, at in self.late[sd]:
                xs = [(C.N(e[2].get(ph, ph)), self.feasible(e[1])) for e in rec['ends']]
                ok = not any(L is not None and self.is_end(x, sd, L) == ph for x, L in xs)
                ob('the groups of the %s tensor are visited from the first' % nm, ok, 'line %s: the walk starts at place %s' % (rec['line'], fmt(at, 3)))
            for rec, ph in self.cols[sd]:
                for e in rec['ends']:
                    L = self.feasible(e[1])
                    if L is None:
                        continue
                    n += 1
                    x = C.N(e[2].get(ph, ph))
                    ob('the blocks of the %s tensor are taken in groups with the same remaining indices' % nm, self.is_end(x, sd, L) in (ph, 'whole'),
                       'line %s: the next group starts at %s' % (rec['line'], fmt(x, 5)))
                for e in rec['exits']:
                    L = self.feasible(e[1])
                    if L is None:
                        continue
                    done = eq(L, C.idx(ph, sd), C.size(sd)) is True
                    ob('every group of blocks of the %s tensor is visited' % nm, done or self.full(rec, L), 'line %s: the loop ends before the last group' % rec['line'])
        return n

    def out_cursor(self, rec):
        """(list, position) phis of the list of results"""
        C = self.C
        for ph in rec['init']:
            i = ph
            for _ in range(4):
                i = C.N(i)
                r = C.rec_of(i)
                if r is None:
                    break
                i = init_of(r, i)
            if i[0] == 'begin' and i not in C.beg and len(i) == 3 and i[2] == ():
                v = [x for x in rec['init'] if len(x[2]) == 1 and x[2][0] == i[1]]
                if v:
                    return v[0], ph, i
        return None

    def grown(self, rec):
        """a list that is empty at first and gets results at its end"""
        C = self.C
        for ph in rec['init']:
            if any(C.N(e[2].get(ph, ph))[0] == 'mut' and C.N(e[2][ph])[1].split('::')[-1] in GROW for e in rec['ends']):
                i = ph
                for _ in range(4):
                    i = strip_copies(C.N(i))
                    while i[0] == 'mut' and i[1].split('::')[-1] == 'reserve':
                        i = strip_copies(i[3][0])
                    r = C.rec_of(i)
                    if r is None:
                        break
                    i = init_of(r, i)
                if i[0] == 'ctor' and i[1].split('::')[-1] == 'vector' and not [x for x in i[2] if x[0] != 'ctor']:
                    return ph
        return None

    def full(self, rec, L):
        """the list of results is at its end, and has one place for every possible result"""
        C = self.C
        oc = self.out_cursor(rec)
        if oc is None:
            return False
        n = C.capacity(oc[0])
        if n is None or eq(L, C.length(sub(oc[1], oc[2])), C.length(n)) is not True:
            return False
        n = C.N(n)
        if n[0] == 'call' and n[1].split('::')[-1] == 'max':
            m = [x for x in n[2] if not is_c(x)]
            n = m[0] if len(m) == 1 else n
        return self.is_product(n)

    def is_product(self, n):
        """the product of the numbers of sections of the result"""
        C = self.C
        if n[0] == 'call' and n[1].split('::')[-1] in ('reduce', 'accumulate') and len(n[2]) == 4:
            a, b, seed, op = n[2]
            return a[0] == 'begin' and a[2] == (('f', 'sections_by_dim'),) and seed == ONE and op[0] == 'ctor' and op[1].split('::')[-1] == 'multiplies' and C.length(sub(b, a)) is not None
        return n[0] == 'prod' or (n[0] == 'call' and n[1].split('::')[-1] == 'prod')

    # ---------------------------------------------------------- sums
    def pair(self, a, b):
        a, b = self.C.is_elem(a, 'get1'), self.C.is_elem(b, 'get1')
        if a and b and a[0] == 0 and b[0] == 1:
            return a[1], b[1]
        return None

    def arrive(self, start, L, c):
        """where the search that starts at these positions ends: ('pair', p, q), ('end',), None"""
        key = (start, tuple(c), id(L))
        if key in self.memo:
            return self.memo[key][1]
        r = None
        for rec, (p, q) in self.J.found.values():
            if tuple(self.C.N(rec['init'][x]) for x in (p, q)) != start:
                continue
            ends = [self.at_end(x, sd, c[sd], L) for sd, x in enumerate((p, q))]
            if True in ends:
                r = ('end',)
                break
            if ends == [False, False]:
                r = ('pair', p, q) if self.J.agrees(rec, L) else ('loose', p, q, rec['line'])
                break
            r = r or ('unknown', rec['line'])
        self.memo[key] = (L, r)
        return r

    def same(self, res, actual, L, c):
        """the code's positions are those where the search ended"""
        if res is None or res[0] in ('loose', 'unknown'):
            return False
        if res[0] == 'pair':
            return tuple(res[1:]) == tuple(actual)
        return any(self.at_end(x, sd, c[sd], L) is True for sd, x in enumerate(actual))

    def after(self, p, q):
        return [(add(p, ONE), q), (p, add(q, ONE)), (add(p, ONE), add(q, ONE))]

    def arrive_after(self, p, q, L, c):
        for st in self.after(p, q):
            r = self.arrive(st, L, c)
            if r:
                return r
        return None

    def follow(self, b, L, c):
        return self.arrive((c[0], c[1]), L, c) if b[0] == 'none' else self.arrive_after(b[1], b[2], L, c)

    def total(self, S, L, c):
        """('upto', p, q): S sums all matching pairs up to this one; ('all',); else a complaint"""
        C = self.C
        S = strip_copies(S)
        if S[0] == 'op' and S[1] in ('mm', 'matmul') and len(S[2]) == 2:
            pq = self.pair(*S[2])
            if pq is None:
                return 'the factors are %s and %s' % tuple(fmt(x, 3) for x in S[2])
            r = self.arrive((c[0], c[1]), L, c)
            if r and r[0] == 'pair' and r[1:] == pq:
                return ('upto',) + pq
            return 'the first product is not of the first matching pair (the search gave %s)' % (r[:1] if r else 'nothing',)
        if S[0] == 'op' and S[1] == 'zeros':
            return ('none',)
        step = self.accum(S)
        if step:
            base, pq = step
            if isinstance(pq, str):
                return pq
            b = self.total(base, L, c)
            if isinstance(b, str):
                return b
            if b[0] in ('upto', 'none'):
                r = self.follow(b, L, c)
                if r and r[0] == 'pair' and r[1:] == pq:
                    return ('upto',) + pq
            return 'the product added is not of the next matching pair'
        if S[0] == 'phi':
            rec = C.rec_of(S)
            if rec is None:
                return 'the sum is %s' % fmt(S, 3)
            return self.loop_total(rec, S, L, c)
        return 'the sum is %s' % fmt(S, 3)

    def accum(self, S):
        if S[0] == 'op' and S[1] in ('addmm', 'addmm_') and len(S[2]) >= 3:
            if any(x != ONE for x in S[2][3:]):
                return S[2][0], 'the product is scaled by %s' % ', '.join(fmt(x, 2) for x in S[2][3:])
            return S[2][0], self.pair(S[2][1], S[2][2]) or 'the factors are %s and %s' % (fmt(S[2][1], 3), fmt(S[2][2], 3))
        if S[0] == 'op' and S[1] == 'add' and len(S[2]) >= 2:
            for x, y in ((S[2][0], S[2][1]), (S[2][1], S[2][0])):
                if y[0] == 'op' and y[1] in ('mm', 'matmul') and len(y[2]) == 2 and all(z == ONE for z in S[2][2:]):
                    return x, self.pair(*y[2]) or 'the factors are %s and %s' % (fmt(y[2][0], 3), fmt(y[2][1], 3))
        return None

    def loop_total(self, rec, S, L, c):
        """the loop adds the matching pairs one after the other, to the last"""
        C = self.C
        pq = None
        for e in rec['ends']:
            if self.feasible(e[1]) is None:
                continue
            st = self.accum(strip_copies(C.N(e[2].get(S, S))))
            if not st or st[0] != S:
                return 'line %s: a round does not add one product to the sum' % rec['line']
            if isinstance(st[1], str):
                return 'line %s: %s' % (rec['line'], st[1])
            if pq is not None and pq != st[1]:
                return 'line %s: rounds add different products' % rec['line']
            pq = st[1]
        if pq is None:
            # no round is possible: what came before is all there is
            return self.total(C.N(rec['init'][S]), L, c)
        if not all(x in rec['init'] for x in pq):
            return 'line %s: the product is not of the pair at hand' % rec['line']
        # before the first round
        LE = self.feasible(rec['entry'].facts)
        if LE is None:
            return 'line %s: unreachable' % rec['line']
        b = self.total(C.N(rec['init'][S]), LE, c)
        if isinstance(b, str):
            return b
        if b[0] not in ('upto', 'none'):
            return 'line %s: the sum is complete before the loop' % rec['line']
        if not self.same(self.follow(b, LE, c), tuple(C.N(rec['init'][x]) for x in pq), LE, c):
            return 'line %s: the first round does not take the next matching pair' % rec['line']
        for e in rec['ends']:
            LX = self.feasible(e[1])
            if LX is None:
                continue
            if [self.at_end(x, sd, c[sd], LX) for sd, x in enumerate(pq)] != [False, False]:
                return 'line %s: a round may run past the group of blocks' % rec['line']
            new = tuple(C.N(e[2].get(x, x)) for x in pq)
            if not self.same(self.arrive_after(pq[0], pq[1], LX, c), new, LX, c):
                return 'line %s: the next round does not take the next matching pair' % rec['line']
        for x in rec['exits']:
            LX = self.feasible(x[1])
            if LX is None:
                continue
            if True not in [self.at_end(y, sd, c[sd], LX) for sd, y in enumerate(pq)]:
                return 'line %s: the loop stops before the last matching pair' % rec['line']
        return ('all',)

    def complete(self, S, L, c):
        """complaint, or None when S sums the products of all the matching pairs of the two columns"""
        t = self.total(S, L, c)
        if isinstance(t, str):
            return t
        if t[0] in ('upto', 'none'):
            r = self.follow(t, L, c)
            if not (r and r[0] == 'end'):
                return 'matching pairs are left out after the last product'
        return None

    def joined(self, x, L, c):
        """complaint, or None when x is the remaining indices of the left block then those of the right"""
        C = self.C
        segs = {}
        y = strip_copies(x)
        while True:
            run = self.run(y)
            if run:
                p, r, y = run
                segs.setdefault(p, r)
                continue
            if not (y[0] == 'mut' and y[2] == 'out' and y[1].split('::')[-1] in ('copy', 'copy_backward')):
                break
            a = y[3]
            r = C.N.range(a[1], a[2])
            p = pos_in(C.R, a[3])
            if r is None or p is None:
                return 'a part is written from %s' % fmt(a[1], 3)
            r = (r[0], C.length(r[1]), C.length(r[2]))
            p = C.length(p)
            if y[1].split('::')[-1] == 'copy_backward':
                p = sub(p, sub(r[2], r[1]))
            segs.setdefault(C.length(p), r)
            y = strip_copies(a[0])
        n = C.capacity(y)
        if n is None:
            return 'it is %s' % fmt(y, 3)
        n = C.length(n)
        fl, fr = sub(C.rank(0), C.d), sub(C.rank(1), C.d)
        got = {}
        for p, (e, a, b) in segs.items():
            g = C.is_elem(e, 'get0')
            if g is None or a != ZERO or not self.member(g[1], g[0], c, L) or b != (fl, fr)[g[0]]:
                return 'a part is %s from %s to %s' % (fmt(e, 3), fmt(a, 3), fmt(b, 3))
            got[g[0]] = p
        if set(got) != {0, 1}:
            return 'it lacks the indices of %s' % ('the left block' if 0 not in got else 'the right block')
        if got[0] != ZERO:
            return 'the indices of the left block start at %s' % fmt(got[0], 3)
        if got[1] != fl and got[1] != sub(n, fr):
            return 'the indices of the right block start at %s' % fmt(got[1], 3)
        if n != add(fl, fr) and not (n[0] == 'get' and n[2] == ('f', 'rank')):
            return 'it has %s entries' % fmt(n, 3)
        return None

    def run(self, y):
        """a loop that copies consecutive entries one by one: (first place, (list, first, last), list before)"""
        C = self.C
        rec = C.rec_of(y)
        if rec is None or len(rec['ends']) != 1 or rec['site'] in [r['site'] for r, ph in self.cols[0] + self.cols[1]]:
            return None
        new = {k: C.N(v) for k, v in rec['ends'][0][2].items()}
        v = strip_copies(new.get(y, y))
        steps = [k for k in new if k != y and sub(new[k], C.N(k)) == ONE]
        if not (v[0] == 'upd' and v[1] == y and len(v[2]) == 1 and steps):
            return None
        (at, x), = v[2]
        at = at[1] if at[0] == 'i' else at
        if x[0] != 'at':
            return None
        for k in steps:
            i, k = C.N(rec['init'][k]), C.N(k)
            to, frm = C.length(sub(at, k)), C.length(sub(x[2], k))
            own = [a for a in aff(k)[1] if a[0] == 'iter' or a == k]
            if len(own) != 1 or aff(k)[1][own[0]] != 1 or any(z == own[0] for t in (to, frm) for z in subterms(t)):
                continue
            for ex in rec['exits']:
                L = C.lits(ex[1])
                for (kk, d), val in (L or {}).items():
                    m = aff(d)[1].get(own[0])
                    if m in (1, -1) and val is (kk == 'eq0'):
                        hi = sub(k, d) if m == 1 else add(k, d)
                        return C.length(add(i, to)), (strip_copies(x[1]), C.length(add(i, frm)), C.length(add(hi, frm))), strip_copies(C.N(rec['init'][y]))
        return None

    def member(self, x, sd, c, L):
        """the position is known to be in the column"""
        return x == c[sd] or (any(pq[sd] == x for rec, pq in self.J.found.values()) and self.at_end(x, sd, c[sd], L) is False)

    def stores(self):
        C, ob = self.C, self.ob
        n = 0
        self.base = next((strip_fields(strip_copies(C.N(value(C.R.I, s, v)))) for s, k, v in C.R.outs if k == 'return'), None)
        outer, inner = (0, 1) if self.cols[0] and self.cols[1] and self.cols[0][0][0]['depth'] <= self.cols[1][0][0]['depth'] and len(self.cols[0]) <= len(self.cols[1]) else (1, 0)
        for rec, ph in self.cols[inner]:
            oc = self.out_cursor(rec)
            grown = self.grown(rec) if oc is None else None
            if not ob('the results are put in a list', oc is not None or grown is not None, 'line %s' % rec['line']):
                continue
            l, it, b = oc or (grown, None, None)
            for e in rec['ends']:
                L = self.feasible(e[1])
                if L is None:
                    continue
                n += 1
                oph = [x for r, x in self.cols[outer] if any(y == x for t in list(e[2].values()) + [d for (k, d), v in e[1].items()] for y in subterms(C.N(t)))]
                if not ob('both groups are at hand', len(oph) == 1, 'line %s' % rec['line']):
                    continue
                c = [None, None]
                c[inner], c[outer] = ph, oph[0]
                new, pos = C.N(e[2].get(l, l)), it and C.N(e[2].get(it, it))
                if new == l:
                    r = self.arrive((c[0], c[1]), L, c)
                    ob('groups give no result only when nothing matches', r is not None and r[0] == 'end', 'line %s: no result is kept although %s' % (rec['line'], 'a matching pair was found' if r and r[0] == 'pair' else 'the search for a first pair is %s' % (r[0] if r else 'missing')))
                    ob('a place is used for each result', pos == it, 'line %s: the place advances without a result' % rec['line'])
                    continue
                if it is None:
                    v = new[3][1:] if new[0] == 'mut' and new[1].split('::')[-1] in GROW and new[3][0] == l else ()
                    v = v[0] if len(v) == 1 else ('tuple', tuple(v))
                    if not ob('one result is kept for each pair of groups', v != ('tuple', ()), 'line %s: the list becomes %s' % (rec['line'], fmt(new, 3))):
                        continue
                else:
                    ok = new[0] == 'upd' and new[1] == l and len(new[2]) == 1
                    if not ob('one result is kept for each pair of groups', ok, 'line %s: the list becomes %s' % (rec['line'], fmt(new, 3))):
                        continue
                    (at, v), = new[2]
                    at = at[1] if at[0] == 'i' else at
                    ob('a place is used for each result', at == sub(it, b) and pos == add(it, ONE), 'line %s: stored at %s, then the place is %s' % (rec['line'], fmt(at, 3), fmt(pos, 3)))
                v = strip_copies(v)
                if v[0] == 'upd' and {k for k, _ in v[2]} == {('f', 'first'), ('f', 'second')}:
                    v = ('tuple', (dict(v[2])[('f', 'first')], dict(v[2])[('f', 'second')]))
                if not ob('a result is an index and a block', v[0] == 'tuple' and len(v[1]) == 2, fmt(v, 3)):
                    continue
                key, blk = strip_copies(v[1][0]), strip_copies(v[1][1])
                why = self.joined(key, L, c)
                ob('a result is put under the remaining indices of the left block followed by those of the right', why is None, 'line %s: %s' % (rec['line'], why))
                ok = blk[0] == 'op' and blk[1] in ('view', 'reshape') and len(blk[2]) == 2
                if ob('a result is given the shape of its block', ok, 'line %s: it is %s' % (rec['line'], fmt(blk, 3))):
                    ob('a result is given the shape of its block', self.block_shape(blk[2][1], key), 'line %s: its shape is %s' % (rec['line'], fmt(blk[2][1], 5)))
                    why = self.complete(blk[2][0], L, c)
                    ob('a result sums the products of all the pairs of blocks that agree on the contracted indices', why is None, 'line %s: %s' % (rec['line'], why))
        return n

    def block_shape(self, x, key):
        """the list is filled with the sizes of the block of the result at this index"""
        x = strip_copies(x)
        if x[0] == 'ctor' and len(x[2]) >= 1 and x[1].split('::')[-1] in ('vector', 'ArrayRef'):
            a = x[2]
            if len(a) == 1 or a[0][0] != 'call':
                return self.block_shape(a[0], key)
            return self.sizes_range(a[0], a[1], key)
        if x[0] == 'mut' and x[2] == 'out' and x[1].split('::')[-1] == 'copy':
            p = pos_in(self.C.R, x[3][3])
            return p == ZERO and self.sizes_range(x[3][1], x[3][2], key)
        return False

    def sizes_range(self, a, b, key):
        ok = []
        for t, nm in ((a, 'begin'), (b, 'end')):
            if not (t[0] == 'call' and t[1].split('::')[-1] in (nm, 'c' + nm) and len(t[2]) == 1):
                return False
            g = strip_copies(t[2][0])
            if not (g[0] == 'call' and g[1] == BTQ + 'block_sizes' and len(g[2]) == 2):
                return False
            ok.append((g[2][0], strip_copies(g[2][1])))
        return ok[0] == ok[1] and ok[0][1] == key and strip_fields(ok[0][0]) == self.base

    def result(self):
        """the returned tensor holds the results that were kept"""
        C, ob = self.C, self.ob
        n = 0
        for s, k, v in C.R.outs:
            if k != 'return':
                continue
            n += 1
            x = strip_copies(value(C.R.I, s, v))
            bl = strip_copies(C.N(proj(C.N(x), ('f', 'blocks_list'))))
            oc = None
            for rec, ph in self.cols[0] + self.cols[1]:
                o = self.out_cursor(rec)
                g = None if o else self.grown(rec)
                if g:
                    outer = C.N(init_of(rec, g))
                    oc = oc or ((outer, None, None) if bl == outer or (bl[0] == 'ctor' and outer in bl[2]) else None)
                if o and any(y == o[0] for y in subterms(bl)):
                    oc = o
            if not ob('the result holds the list of results', oc is not None, fmt(bl, 4)):
                continue
            if bl[0] == 'ctor' and len(bl[2]) >= 1:
                bl = strip_copies(bl[2][0])
            if oc[1] is None:
                ob('the result holds the results kept, and no empty place', bl == oc[0], 'the list is %s' % fmt(bl, 4))
                continue
            ok = bl[0] == 'mut' and bl[1].split('::')[-1] in ('resize', 'erase') and bl[3][0] == oc[0]
            if ok and bl[1].split('::')[-1] == 'resize':
                ok = C.N(bl[3][1]) == sub(oc[1], oc[2])
            elif ok:
                ok = C.N(bl[3][1]) == oc[1]
            ob('the result holds the results kept, and no empty place', ok, 'the list is %s' % fmt(bl, 4))
        return n


class TD(BT):
    BUDGET = 2000000


def tensordot_rule(ctx, F):
    n = 0
    for fn in F.q(BTQ + 'tensordot'):
        R = Run(F, fn, LOOKUPS, TD)
        w = W(fn)
        other, da, db = (('sym', p['n']) for p in fn.params)
        ob = lambda nm, ok, why='': ctx.ob('contraction: %s' % nm, ok, w, why)
        C = Cur(R, fn, T, other, (da, db))
        if not ob('the blocks of both tensors are gone through', None not in C.beg, 'lists found: %s' % [fmt(x, 2) if x else None for x in C.lists]):
            continue
        J = Joins(C)
        if not ob('matching pairs are searched', bool(J.found), ''):
            continue
        for rec, pq in J.found.values():
            J.check(rec, ob)
        K = Walk(C, J, ob)
        ok = bool(K.cols[0]) and bool(K.cols[1])
        if not ob('every group of the left tensor meets every group of the right one', ok, 'loops over the left list: %d, right list: %d' % (len(K.cols[0]), len(K.cols[1]))):
            continue
        n += K.columns() + K.stores() + K.result()
    return n


def a22(ctx):
    F = load(['btensor.cpp'], True)
    n = tensordot_rule(ctx, F)
    ctx.meta = {'outcomes': n}
