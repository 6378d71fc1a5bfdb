"""Tensor networks: which legs are joined, in every contraction the library makes of chains of tensors."""
from rules.sections import *

CHAIN = ('quantit::vector_lift::', 'quantit::MPS::', 'quantit::bMPS::', 'quantit::MPO::', 'quantit::bMPO::', 'quantit::MPT::', 'quantit::bMPT::')
TENS = ('tensors',)


class NT(BT):
    """chains of tensors are lists of tensors; the center a chain stores is one number, whichever name it goes by"""

    def lv(self, st, e):
        if e['k'] == 'member' and e.get('n') == 'oc' and e.get('dk') != 'static':
            return [(s, (l[0], l[1][:-1] + (('f', 'orthogonality_center'), ('f', 'value')))) if l[1][-1:] == (('f', 'oc'),) else (s, l) for s, l in super().lv(st, e)]
        return super().lv(st, e)

    def range_loc(self, st, loc, e):
        t = self.types(e['t']).replace('const ', '').replace('&', '').strip() if e.get('t') is not None else ''
        if t.split('::')[-1] in ('MPS', 'MPO', 'MPT', 'bMPS', 'bMPO', 'bMPT') and not loc[1][-1:] == (('f', 'tensors'),):
            return (loc[0], loc[1] + (('f', 'tensors'),))
        return super().range_loc(st, loc, e)

    def want_inline(self, fn, st, node, args):
        if fn.q.endswith('_impl') and not fn.q.endswith('dmrg_impl') or 'env_holder_impl' in fn.q or 'env_holder' in fn.q:
            return True
        return super().want_inline(fn, st, node, args)

    def on_call(self, s, e, f, ol, args):
        n = f.split('::')[-1]
        if ol is not None and f.startswith(CHAIN):
            tl = (ol[0], ol[1] + (('f', 'tensors'),))
            v = tuple(self.argval(s, a) for a in args)
            if n in ('operator[]', 'at') and len(v) == 1:
                s.event('index', ol, v[0], e.get('l'), n)
                return [(s, ('LOC', (tl[0], tl[1] + (('i', v[0]),))))]
            if n == 'front':
                return [(s, ('LOC', (tl[0], tl[1] + (('i', ZERO),))))]
            if n == 'back':
                return [(s, ('LOC', (tl[0], tl[1] + (('i', sub(self.size(s, tl), ONE)),))))]
            if n in ('begin', 'cbegin'):
                return [(s, self.begin(s, tl))]
            if n in ('end', 'cend'):
                return [(s, add(self.begin(s, tl), self.size(s, tl)))]
            if n == 'size':
                return [(s, self.size(s, tl))]
            if n == 'operator=' and len(v) == 1:
                self.write(s, ol, v[0], e)
                return [(s, ('LOC', ol))]
        if ol is not None and 'property::operator ' in f and not args:
            return [(s, ('LOC', (ol[0], ol[1] + (('f', 'value'),))))]
        if ol is not None and f in (BTQ + 'operator=', 'at::Tensor::operator=') and len(args) == 1:
            v = self.argval(s, args[0])
            self.write(s, ol, v, e)
            return [(s, ('LOC', ol))]
        return super().on_call(s, e, f, ol, args)


# ---------------------------------------------------------------- the algebra of networks
class Unknown(Exception):
    pass


_eid = [0]


def fresh(n):
    r = tuple(range(_eid[0] + 1, _eid[0] + 1 + n))
    _eid[0] += n
    return r


class Net:
    """a sum over the shared edges of a product of tensors: nodes (label, conjugated, legs), open legs in order, scalar factors"""

    def __init__(self, nodes, out, scal=()):
        self.nodes, self.out, self.scal = tuple(nodes), tuple(out), tuple(sorted(scal, key=repr))

    def sub(self, m):
        g = lambda e: m.get(e, e)
        return Net([(l, c, tuple(map(g, x))) for l, c, x in self.nodes], map(g, self.out), self.scal)

    def copy(self):
        es = {e for _, _, x in self.nodes for e in x} | set(self.out)
        return self.sub(dict(zip(sorted(es), fresh(len(es)))))

    def conj(self):
        return Net([(l, c ^ (not real(l)), x) for l, c, x in self.nodes], self.out, [(('conj', t), p) if not real(t) else (t, p) for t, p in self.scal])

    @property
    def rank(self):
        return len(self.out)

    def __repr__(self):
        nm = {}
        e = lambda x: nm.setdefault(x, 'abcdefghijklmnopqrstuvwxyz'[len(nm)] if len(nm) < 26 else 'e%d' % len(nm))
        o = ''.join(e(x) for x in self.out)
        return ' '.join('%s%s[%s]' % (label(l), '*' if c else '', ''.join(e(x) for x in g)) for l, c, g in self.nodes) + ' -> [%s]' % o + ''.join(' (%s)^%s' % (fmt(t, 6), p) for t, p in self.scal)


def label(l):
    return 'svd(%s,%s).%s' % (fmt(l[1], 4)[:60], l[2], 'UDV'[l[3]]) if l[0] == 'svd' else fmt(l, 5)[:80]


def real(l):
    return l[0] == 'svd' and l[3] == 1 or l[0] in ('eye', 'ones') or l[0] == 'norm'


def leaf(l, rank):
    e = fresh(rank)
    return Net([(l, False, e)], e)


def join(x, y, dx, dy):
    """contraction of x with y over the listed legs"""
    x, y = x.copy(), y.copy()
    if len(dx) != len(dy) or not all(0 <= a < x.rank for a in dx) or not all(0 <= a < y.rank for a in dy) or len(set(dx)) != len(dx) or len(set(dy)) != len(dy):
        raise Unknown('contraction of legs %s with %s' % (dx, dy))
    y = y.sub({y.out[b]: x.out[a] for a, b in zip(dx, dy)})
    return Net(x.nodes + y.nodes, [e for i, e in enumerate(x.out) if i not in dx] + [e for i, e in enumerate(y.out) if i not in dy], x.scal + y.scal)


def times(x, y):
    """element-wise product: trailing dimensions aligned"""
    x, y = x.copy(), y.copy()
    if x.rank < y.rank:
        x, y = y, x
    k = x.rank - y.rank
    y = y.sub({e: x.out[k + i] for i, e in enumerate(y.out)})
    return Net(x.nodes + y.nodes, x.out, x.scal + y.scal)


def permuted(x, p):
    if sorted(p) != list(range(x.rank)):
        raise Unknown('permutation %s of %d legs' % (p, x.rank))
    return Net(x.nodes, [x.out[i] for i in p], x.scal)


def opcall(t):
    """(name, arguments) of a tensor operation, whoever spells it and whether or not in place"""
    if t[0] == 'op':
        return t[1].rstrip('_'), t[2]
    q = None
    if t[0] == 'call':
        q, a = t[1], t[2]
    elif t[0] == 'mut' and t[2] in ('obj', 0):
        q, a = t[1], t[3]
    if q is None:
        return None
    n = q.split('::')[-1]
    return {'operator*': 'mul', 'operator*=': 'mul', 'operator/': 'div', 'operator/=': 'div', 'operator-=': 'sub', 'operator+=': 'add', 'operator+': 'add'}.get(n) or (('neg' if len(a) == 1 else 'sub') if n == 'operator-' else n.rstrip('_')), a


def ints(t, rank=None):
    """a literal list of dimensions"""
    if t[0] == 'ctor' and t[1] == 'std::vector' and t[2] and t[2][0][0] == 'list':
        t = t[2][0]
    if t[0] == 'ctor' and t[1] in ('c10::ArrayRef', 'std::vector', 'std::initializer_list') and not [a for a in t[2] if a[0] != 'ctor']:
        return ()
    if t[0] == 'list' and all(x[0] == 'c' for x in t[1]):
        return tuple(x[1] + rank if rank is not None and x[1] < 0 else x[1] for x in t[1])
    raise Unknown('dimensions %s' % fmt(t, 4))


SPECS = {}      # functions known by what they must compute


class Nets:
    """terms -> networks; `ranks` gives the rank of the tensors nothing is known about"""

    def __init__(self, ranks, torch=False, specs=SPECS):
        self.ranks, self.torch, self.specs, self.memo = ranks, torch, specs, {}

    def __call__(self, t):
        if t not in self.memo:
            self.memo[t] = self.go(t)
        return self.memo[t].copy()

    def go(self, t):
        r = self.ranks(t)
        if r is not None:
            return leaf(t, r)
        if t[0] == 'get' and t[2][0] == 'f' and t[2][1] in ('get0', 'get1', 'get2') and opcall(t[1]) and opcall(t[1])[0] == 'svd':
            a = opcall(t[1])[1]
            k = int(t[2][1][-1])
            if a[1][0] != 'c':
                raise Unknown('split of %s' % fmt(t, 4))
            n = self(a[0]).rank
            s = a[1][1]
            return leaf(('svd', a[0], s, k, a[2:]), (s + 1, 1, n - s + 1)[k])
        o = opcall(t)
        if o is None:
            raise Unknown(fmt(t, 5)[:120])
        n, a = o
        if n in self.specs:
            return self.specs[n](self, a)
        if n == 'tensordot' and len(a) == 4:
            x, y = self(a[0]), self(a[1])
            return join(x, y, ints(a[2], x.rank), ints(a[3], y.rank))
        if n == 'permute' and len(a) == 2:
            x = self(a[0])
            return permuted(x, ints(a[1], x.rank))
        if n in ('t', 'transpose', 'swapaxes') and (len(a) == 1 or len(a) == 3 and a[1][0] == a[2][0] == 'c'):
            x = self(a[0])
            if n == 't':
                i, j = 0, 1
                if x.rank > 2:
                    raise Unknown('t() of a tensor of rank %d' % x.rank)
            else:
                i, j = a[1][1] % x.rank, a[2][1] % x.rank
            p = list(range(x.rank))
            p[i], p[j] = p[j], p[i]
            return permuted(x, p)
        if n == 'conj' and len(a) == 1:
            return self(a[0]).conj()
        if n == 'mul' and len(a) == 2:
            return times(self(a[0]), self(a[1]))
        if n in ('contiguous', 'clone', 'copy') or n == 'inverse_cvals' and self.torch:
            return self(a[0])
        if n == 'div' and len(a) == 2:
            x = self(a[0])
            if norm_of(a[1]) is not None:
                return Net(x.nodes, x.out, x.scal + ((('norm', norm_of(a[1])), -1),))
            if self.scalar(a[1]):
                return Net(x.nodes, x.out, x.scal + ((a[1], -1),))
        if n in ('eye_like', 'ones_like') and a:
            s = shape(a[0])
            return leaf(('eye' if n[0] == 'e' else 'ones', tuple(s)), len(s))
        raise Unknown('%s of %s' % (n, fmt(t, 5)[:120]))

    def scalar(self, t):
        try:
            return self(t).rank == 0
        except Unknown:
            return False


def norm_of(t):
    """x when t = sqrt(sum(x^2))"""
    o = opcall(t)
    if o and o[0] in ('sqrt', 'norm') and o[1]:
        if o[0] == 'norm':
            return o[1][0]
        p = opcall(o[1][0])
        if p and p[0] == 'sum':
            q = opcall(p[1][0])
            if q and q[0] == 'pow' and len(q[1]) == 2 and q[1][1] == ('c', 2):
                return q[1][0]
            if q and q[0] == 'square':
                return q[1][0]
            if q and q[0] == 'mul' and q[1][0] == q[1][1]:
                return q[1][0]
    return None


def shape(t):
    """the legs of a shape: (tensor, dimension, direction reversed)"""
    if t[0] == 'ctor' and t[1] == 'quantit::torch_shape' and len(t[2]) == 1:
        return ('whole', t[2][0], False)
    o = opcall(t)
    if o is None:
        return ('whole', t, False)
    n, a = o
    if n == 'shape_from' and len(a) == 2 and is_ints(a[1]):
        v = ints(a[1])
        s = shape(a[0])
        if s[0] == 'whole':
            return [(s[1], i, s[2]) for i, x in enumerate(v) if x < 0]
        if len(v) != len(s):
            raise Unknown('shape of %s' % fmt(t, 4))
        return [e for e, x in zip(s, v) if x < 0]
    if n == 'shape_from':
        r = []
        for x in a:
            s = shape(x)
            if s[0] == 'whole':
                raise Unknown('shape of %s' % fmt(t, 4))
            r += s
        return r
    if n == 'inverse_cvals':
        s = shape(a[0])
        return ('whole', s[1], not s[2]) if s[0] == 'whole' else [(x, i, not v) for x, i, v in s]
    if n in ('neutral_selection_rule', 'set_selection_rule', 'neutral_shape'):
        return shape(a[0])
    if n == 'edge_shape_prep' and len(a) == 2:
        x = a[0][2][0] if a[0][0] == 'ctor' and a[0][1] == 'quantit::torch_shape' else a[0]
        return [(x, a[1][1] if a[1][0] == 'c' else a[1], True)]
    return ('whole', t, False)


def is_ints(t):
    try:
        ints(t)
        return True
    except Unknown:
        return False


def recompose(nets, x):
    """U D V* summed over their common bond is the tensor that was split"""
    while True:
        for i, (l, c, g) in enumerate(x.nodes):
            if l[0] != 'svd' or l[3] != 0:
                continue
            T, k = l[1], l[2]
            ds = [j for j, (m, d, h) in enumerate(x.nodes) if m == l[:3] + (1,) + l[4:] and h[-1] == g[-1]]
            vs = [j for j, (m, d, h) in enumerate(x.nodes) if m == l[:3] + (2,) + l[4:] and h[-1] == g[-1] and d != c]
            if len(ds) != 1 or len(vs) != 1 or g[-1] in x.out or sum(h.count(g[-1]) for _, _, h in x.nodes) != 3:
                continue
            w = nets(T)
            if c:
                w = w.conj()
            legs = g[:-1] + x.nodes[vs[0]][2][:-1]
            if len(legs) != w.rank:
                continue
            w = w.sub(dict(zip(w.out, legs)))
            x = Net([n for j, n in enumerate(x.nodes) if j not in (i, ds[0], vs[0])] + list(w.nodes), x.out, x.scal + w.scal)
            break
        else:
            return x


def alike(x, y):
    """the same network up to the order of the factors and the names of the summed legs"""
    if x.rank != y.rank or len(x.nodes) != len(y.nodes) or x.scal != y.scal:
        return False
    m, inv = {}, {}

    def tie(a, b, log):
        if a in m or b in inv:
            return m.get(a) == b and inv.get(b) == a
        m[a], inv[b] = b, a
        log.append((a, b))
        return True

    def undo(log):
        for a, b in log:
            del m[a], inv[b]
    if not all(tie(a, b, []) for a, b in zip(x.out, y.out)):
        return False

    def go(i, left):
        if i == len(x.nodes):
            return True
        l, c, g = x.nodes[i]
        for j in left:
            k, d, h = y.nodes[j]
            if k == l and c == d and len(g) == len(h):
                log = []
                if all(tie(a, b, log) for a, b in zip(g, h)) and go(i + 1, left - {j}):
                    return True
                undo(log)
        return False
    return go(0, frozenset(range(len(y.nodes))))


def spec(text, **tensors):
    """'L[aob] M[apx] ... -> xyz' with a network for every name; * conjugates"""
    body, out = text.split('->')
    ids = {}
    e = lambda ch: ids.setdefault(ch, fresh(1)[0])
    r = None
    nodes, scal = [], ()
    for w in body.split():
        nm, legs = w.rstrip(']').split('[')
        x = tensors[nm.rstrip('*')].copy()
        if nm.endswith('*'):
            x = x.conj()
        assert len(legs) == x.rank, (w, x.rank)
        m = {}
        x = x.sub(dict(zip(x.out, [e(ch) for ch in legs])))
        nodes += x.nodes
        scal += x.scal
    return Net(nodes, [e(ch) for ch in out.strip()], scal)


def s_left(N, a):
    return spec('L[aob] M[apx] H[oqyp] M*[bqz] -> xyz', H=N(a[0]), M=N(a[1]), L=N(a[2]))


def s_right(N, a):
    return spec('R[aob] M[xpa] H[yqop] M*[zqb] -> xyz', H=N(a[0]), M=N(a[1]), R=N(a[2]))


def s_two(N, a):
    return spec('L[aox] S[apqc] H[ouvwpq] R[cwy] -> xuvy', S=N(a[0]), H=N(a[1]), L=N(a[2]), R=N(a[3]))


SPECS.update(compute_left_env=s_left, compute_right_env=s_right, hamil2site_times_state=s_two)


def by_name(table):
    """ranks of leaves: parameters and entries of chains"""
    def g(t):
        if t[0] == 'sym':
            return table.get(t[1])
        if t[0] == 'at':
            b = t[1]
            return table.get(b) if b in table else table.get(root_of(b))
        return None
    return g


def root_of(t):
    while isinstance(t, tuple) and t[0] in ('get', 'upd', 'at'):
        t = t[1]
    return t[1] if isinstance(t, tuple) and t[0] == 'sym' else t


def is_torch(fn):
    return any('at::Tensor' in p or 'quantit::MP' in p or 'torch_shape' in p for p in fn.ptypes())


# ---------------------------------------------------------------- A14: contractions
def check_net(ctx, R, nets, name, where, got, want):
    try:
        x = nets(got)
    except Unknown as u:
        ctx.ob(name, False, where, 'not a contraction of the expected tensors: %s' % u)
        return None
    ok = alike(x, want)
    ctx.ob(name, ok, where, 'computes %s, not %s' % (x, want))
    return x


def pure_rule(ctx, F):
    """functions that are one contraction of their parameters"""
    n = 0
    for q, ranks, text in (
            ('quantit::compute_left_env', (4, 3, 3), 'P2[aob] P1[apx] P0[oqyp] P1*[bqz] -> xyz'),
            ('quantit::compute_right_env', (4, 3, 3), 'P2[aob] P1[xpa] P0[yqop] P1*[zqb] -> xyz'),
            ('quantit::details::hamil2site_times_state', (4, 6, 3, 3), 'P2[aox] P0[apqc] P1[ouvwpq] P3[cwy] -> xuvy')):
        fns = F.q(q)
        ctx.need(len(fns) >= 2, '%s for both kinds of tensors' % q)
        for fn in fns:
            R = Run(F, fn, (), NT)
            table = {p['n']: r for p, r in zip(fn.params, ranks)}
            nets = Nets(by_name(table), is_torch(fn), {})
            want = spec(text, **{'P%d' % i: leaf(('sym', p['n']), r) for i, (p, r) in enumerate(zip(fn.params, ranks))})
            rs = R.rets()
            ctx.ob('%s: returns' % fn.sig(), bool(rs), W(fn), 'never returns')
            for s, x, L in rs:
                n += 1
                check_net(ctx, R, nets, '%s: the right legs are joined' % fn.sig(), W(fn), x, want)
    return n


def chain_ranks(table, extra=()):
    """ranks: entries of the chains named in table, whole terms in extra"""
    extra = dict(extra)

    def g(t):
        if t in extra:
            return extra[t]
        if t[0] == 'at':
            if t[1] in extra:
                return extra[t[1]]
            b = root_of(t[1])
            return table.get(b) if isinstance(b, str) else None
        if t[0] == 'sym':
            return table.get(t[1])
        return None
    return g


def chain(name):
    return ('get', ('sym', name), ('f', 'tensors'))


def size(c):
    return ('call', 'size', (c,))


def phis(t, acc=None):
    """loop results a term is made of"""
    acc = set() if acc is None else acc
    if isinstance(t, tuple) and t:
        if t[0] == 'phi' and len(t) == 3:
            acc.add(t)
        else:
            for x in t:
                phis(x, acc)
    return acc


def transfer_rule(ctx, F):
    """contract with given edges: the transfer of one site, in every iteration, from the first site to the last, closed with the right edge"""
    n = 0
    fns = [fn for fn in F.q('quantit::contract') if len(fn.params) in (4, 5)]
    ctx.need(len(fns) >= 4, 'the contractions with explicit edges')
    for fn in fns:
        R = Run(F, fn, (), NT)
        ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
        ps = [p['n'] for p in fn.params]
        obs = ps[2] if len(ps) == 5 else None
        a, b, le, re_ = ps[0], ps[1], ps[-2], ps[-1]
        A, B = chain(a), chain(b)
        sa, sb = size(A), size(B)
        k = 3 if obs else 2
        table = {a: 3, b: 3, le: k, re_: k}
        if obs:
            table[obs] = 4
        rs = R.rets()
        ob('returns', bool(rs), 'never returns')
        for s, x, L in rs:
            n += 1
            ob('states of different lengths are refused', eq_lit(L, sa, sb) is True, 'accepted without comparing the lengths')
            if obs:
                ob('an operator of another length is refused', eq_lit(L, size(chain(obs)), sa) is True or eq_lit(L, size(chain(obs)), sb) is True, 'accepted without comparing the lengths')
            ph = phis(x)
            recs = [R.I.phirec[p] for p in ph if p in R.I.phirec]
            if len(ph) != 1 or len(recs) != 1:
                ob('one loop over the sites', False, 'the result is made of %d loop results' % len(ph))
                continue
            p, rec = ph.pop(), recs[0]
            it = ('iter', rec['site'])
            nets = Nets(chain_ranks(table, {p: k}), is_torch(fn))
            P = leaf(p, k)
            ob('starts from the left edge', R.N(rec['init'][p]) == ('sym', le), 'starts from %s' % fmt(R.N(rec['init'][p]), 5))
            tr = R.trips.get(it, set())
            ob('every site is visited', bool(tr) and tr <= ({sa, sb, size(chain(obs))} if obs else {sa, sb}), 'visits %s sites' % [fmt(t, 4) for t in tr])
            at = lambda c: ('at', c, it)
            for e in rec['ends']:
                site = leaf(at(A), 3), leaf(at(B), 3)
                if obs:
                    want = spec('E[aob] A[apx] H[oqyp] B*[bqz] -> xyz', E=P, A=site[0], B=site[1], H=leaf(at(chain(obs)), 4))
                else:
                    want = spec('E[ab] A[apx] B*[bpz] -> xz', E=P, A=site[0], B=site[1])
                check_net(ctx, R, nets, '%s: transfer of one site' % fn.sig(), W(fn), R.N(e[2].get(p, p)), want)
            want = spec('E[aob] R[aob] -> ', E=P, R=leaf(('sym', re_), 3)) if obs else spec('E[ab] R[ab] -> ', E=P, R=leaf(('sym', re_), 2))
            check_net(ctx, R, nets, '%s: closed with the right edge' % fn.sig(), W(fn), x, want)
    return n


def undirected(x):
    """shapes without the direction of the legs"""
    return Net([((l[0], tuple((t, i) for t, i, _ in l[1])) if l[0] in ('eye', 'ones') else l, c, g) for l, c, g in x.nodes], x.out, x.scal)


def edges_rule(ctx, F):
    """contract without edges: identities between the outer bonds of the states, ones on the outer bonds of the operator"""
    n = 0
    fns = [fn for fn in F.q('quantit::contract') if len(fn.params) in (2, 3)]
    ctx.need(len(fns) >= 4, 'the contractions without edges')
    for fn in fns:
        R = Run(F, fn, (), NT)
        ps = [p['n'] for p in fn.params]
        tor = is_torch(fn)
        nets = Nets(chain_ranks({}), tor)
        last = lambda c: ('at', c, sub(size(c), ONE))
        first = lambda c: ('at', c, ZERO)
        for s, x, L in R.rets():
            n += 1
            if not (x[0] == 'call' and x[1] == 'quantit::contract' and x[2][:len(ps)] == tuple(('sym', p) for p in ps) and len(x[2]) == len(ps) + 2):
                ctx.ob('%s: contracts its arguments' % fn.sig(), False, W(fn), 'returns %s' % fmt(x, 5)[:300])
                continue
            for side, got, pos, d in (('left', x[2][-2], first, 0), ('right', x[2][-1], last, 2)):
                legs = ((pos(chain(ps[0])), d, True), (pos(chain(ps[1])), d, False))
                want = leaf(('eye', legs), 2)
                if len(ps) == 3:
                    o = leaf(('ones', ((pos(chain(ps[2])), d, True),)), 1)
                    want = spec('E[ab] O[o] -> aob', E=want, O=o)
                try:
                    g = nets(got)
                except Unknown as u:
                    ctx.ob('%s: %s edge' % (fn.sig(), side), False, W(fn), str(u))
                    continue
                if tor:
                    g, want = undirected(g), undirected(want)
                ctx.ob('%s: %s edge' % (fn.sig(), side), alike(g, want), W(fn), 'is %s, not %s' % (g, want))
        ctx.ob('%s: returns' % fn.sig(), bool(R.rets()), W(fn), 'never returns')
    return n


def writes(R, t, stop=lambda t: t[0] == 'phi'):
    """(entry -> value, what was written on): the entries of a list that were overwritten, last write wins"""
    m = {}
    while t[0] == 'upd' and all(k[0] == 'i' for k, _ in t[2]):
        for k, v in t[2]:
            m.setdefault(k[1], v)
        t = t[1]
    return m, t


def two_rule(ctx, F):
    n = 0
    fns = F.q('quantit::details::compute_2sitesHamil')
    ctx.need(len(fns) >= 2, 'compute_2sitesHamil')
    for fn in fns:
        R = Run(F, fn, (), NT)
        ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
        H = chain(fn.params[0]['n'])
        cnt = sub(size(H), ONE)
        for s, x, L in R.rets():
            n += 1
            m = dict(x[2]) if x[0] == 'upd' else {}
            p = m.get(('f', 'tensors'))
            if not p or p not in R.I.phirec or x[1][0] != 'ctor':
                ob('one loop over the bonds', False, 'returns %s' % fmt(x, 5)[:300])
                continue
            ob('one tensor per bond', x[1][2] == (cnt,), 'makes %s' % fmt(x[1], 5))
            rec = R.I.phirec[p]
            it = ('iter', rec['site'])
            ob('every bond is visited', R.trips.get(it) == {cnt}, 'visits %s' % [fmt(t, 4) for t in R.trips.get(it, ())])
            nets = Nets(chain_ranks({fn.params[0]['n']: 4}), is_torch(fn))
            for e in rec['ends']:
                w, base = writes(R, R.N(e[2].get(p, p)))
                ob('writes the tensor of that bond', base == p and set(w) == {it}, 'writes %s' % [fmt(k, 4) for k in w])
                for v in w.values():
                    check_net(ctx, R, nets, '%s: two neighbours joined' % fn.sig(), W(fn), v, spec('A[luxp] B[xvrq] -> luvrpq', A=leaf(('at', H, it), 4), B=leaf(('at', H, add(it, ONE)), 4)))
    return n


def carried(R, rec, e, base, v, k, it, before):
    """v with a variable that always holds the entry made last replaced by that entry"""
    for q in sorted({y for y in subterms(v) if y in rec['init'] and y != base}, key=repr):
        if any(R.N(x[2].get(q, q)) != v for x in rec['ends']):
            continue
        first, t = subst(before, it, ZERO), R.N(rec['init'][base])
        while True:
            w, b = writes(R, t)
            if first in w or b not in R.I.phirec:
                break
            t = R.N(R.I.phirec[b]['init'][b])
        if w.get(first) == R.N(rec['init'][q]):
            v = subst(v, q, ('at', base, before))
    return v


def env_rule(ctx, F):
    """generate_env: trivial edges, left environments below the center, right environments above it"""
    n = 0
    fns = F.q('quantit::generate_env')
    ctx.need(len(fns) >= 2, 'generate_env')
    for fn in fns:
        R = Run(F, fn, (), NT)
        ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
        h, st = fn.params[0]['n'], fn.params[1]['n']
        H, S = chain(h), chain(st)
        N = size(H)
        oc = ('get', ('sym', st), ('f', 'orthogonality_center'))
        for s, x, L in R.rets():
            n += 1
            t = x
            for f in ('env', 'tensors'):
                t = dict(t[2]).get(('f', f)) if t[0] == 'upd' else None
                if t is None:
                    break
            if t is None:
                ob('fills the environments', False, 'returns %s' % fmt(x, 5)[:300])
                continue
            seen = {}
            kinds = []
            room = None
            while True:
                w, base = writes(R, t)
                for k, v in w.items():
                    seen.setdefault(k, v)
                if base in R.I.phirec:
                    rec = R.I.phirec[base]
                    it = ('iter', rec['site'])
                    nets = Nets(chain_ranks({h: 4, st: 3}, {base: 3}), is_torch(fn))
                    tr = R.trips.get(it, set())
                    for e in rec['ends']:
                        w, b2 = writes(R, R.N(e[2].get(base, base)))
                        if b2 != base or len(w) != 1:
                            ob('one environment per step', False, 'writes %s' % [fmt(k, 4) for k in w])
                            continue
                        (k, v), = w.items()
                        left = aff(k)[1].get(it) == 1
                        i = sub(k, ONE)         # the site the environment ends on
                        hs = leaf(('at', H, i), 4), leaf(('at', S, i), 3)
                        prev = leaf(('at', base, sub(k, ONE) if left else add(k, ONE)), 3)
                        sp = 'L[aob] M[apx] H[oqyp] M*[bqz] -> xyz' if left else 'L[aob] M[xpa] H[yqop] M*[zqb] -> xyz'
                        nm = 'left' if left else 'right'
                        kinds.append(nm)
                        v = carried(R, rec, e, base, v, k, it, sub(k, ONE) if left else add(k, ONE))
                        check_net(ctx, R, nets, '%s: %s environment of one site' % (fn.sig(), nm), W(fn), v, spec(sp, L=prev, M=hs[1], H=hs[0]))
                        ob('the %s environments start at the edge' % nm, sub(k, it) == ONE if left else add(k, it) == N, 'first is entry %s' % fmt(sub(k, it) if left else add(k, it), 4))
                        ob('the %s environments stop at the center' % nm, tr == {oc if left else sub(sub(N, ONE), oc)}, 'makes %s of them' % [fmt(t, 4) for t in tr])
                    t = R.N(rec['init'][base])
                    continue
                room = base
                break
            ob('both sides are made', sorted(kinds) == ['left', 'right'], 'makes %s' % kinds)
            ob('room for the edges', room[0] == 'get' and room[1][0] == 'ctor' and room[1][2] == (add(N, ('c', 2)),), 'holds %s' % fmt(room, 5)[:200])
            for nm, k, d, pos in (('left', ZERO, 0, lambda c: ('at', c, ZERO)), ('right', add(N, ONE), 2, lambda c: ('at', c, sub(size(c), ONE)))):
                v = seen.get(k)
                if v is None:
                    ob('%s edge' % nm, False, 'not set')
                    continue
                want = leaf(('ones', ((pos(S), d, True), (pos(H), d, True), (pos(S), d, False))), 3)
                try:
                    g = Nets(chain_ranks({}), is_torch(fn))(v)
                except Unknown as u:
                    ob('%s edge' % nm, False, str(u))
                    continue
                if is_torch(fn):
                    g, want = undirected(g), undirected(want)
                ob('%s edge' % nm, alike(g, want), 'is %s, not %s' % (g, want))
            ob('nothing else is set', set(seen) <= {ZERO, add(N, ONE)}, 'sets %s' % [fmt(k, 4) for k in seen])
    return n


def edge_of(t):
    """(legs, selection rule) of a shape; the rule counts the quantities of first elements"""
    o = opcall(t)
    if o is None:
        raise Unknown(fmt(t, 5)[:120])
    n, a = o
    if n == 'shape_from' and len(a) == 2 and a[0][0] in ('sym', 'ctor') and a[1][0] == 'upd' and a[1][1][0] == 'ctor' and a[1][1][1] == 'std::vector' and a[1][1][2][1] == ZERO:
        keep = [k[1] for k, v in a[1][2] if v == ('c', -1)]
        if len(keep) == 1 == len(a[1][2]):
            return [(a[0], keep[0], 1)], None
    if n in ('neutral_selection_rule', 'neutral_shape'):
        return edge_of(a[0])[0], {}
    if n == 'inverse_cvals':
        l, r = edge_of(a[0])
        return [(x, d, -s) for x, d, s in l], r if r is None else {k: -v for k, v in r.items()}
    if n == 'shape_from' and len(a) == 2 and is_ints(a[1]):
        l, r = edge_of(a[0])
        v = ints(a[1])
        if len(v) != len(l):
            raise Unknown(fmt(t, 5)[:120])
        r = None if r is None else dict(r)
        for (x, d, s), k in zip(l, v):
            if k >= 0 and r is not None:
                if k:
                    raise Unknown('element %d of an edge' % k)
                r[x, d] = r.get((x, d), 0) - s
        return [e for e, k in zip(l, v) if k < 0], r
    if n == 'shape_from':
        legs, rule = [], {}
        for x in a:
            l, r = edge_of(x)
            legs += l
            if r is None or rule is None:
                rule = None
            else:
                for k, v in r.items():
                    rule[k] = rule.get(k, 0) + v
        return legs, rule if rule is None else {k: v for k, v in rule.items() if v}
    raise Unknown(fmt(t, 5)[:120])


def trivial_rule(ctx, F):
    """edges: the outer leg with its direction reversed, and the rule that lets it be filled"""
    n = 0
    fns = F.q('quantit::details::edge_shape_prep')
    ctx.need(len(fns) >= 2, 'edge_shape_prep')
    for fn in fns:
        R = Run(F, fn, (), NT)
        x, d = (('sym', p['n']) for p in fn.params)
        rs = R.rets()
        ctx.ob('%s: returns' % fn.sig(), bool(rs), W(fn), 'never returns')
        for s, t, L in rs:
            n += 1
            try:
                l, r = edge_of(t)
                ctx.ob('%s: the leg, reversed' % fn.sig(), l == [(x, d, -1)], W(fn), 'legs %s' % [(fmt(a, 3), fmt(b, 3), s) for a, b, s in l])
                if not is_torch(fn):
                    ctx.ob('%s: an edge with the quantity of that leg can be filled' % fn.sig(), r == {(x, d): -1}, W(fn), 'the leg carries the inverse of its quantity, the rule %s times it' % (None if r is None else r.get((x, d), 0)))
            except Unknown as u:
                ctx.ob('%s: the leg, reversed' % fn.sig(), False, W(fn), str(u))
    fns = F.q('quantit::details::trivial_edge')
    ctx.need(len(fns) >= 2, 'trivial_edge')
    for fn in fns:
        R = Run(F, fn, (), NT)
        p = [('sym', p['n']) for p in fn.params]
        for s, t, L in R.rets():
            n += 1
            want = leaf(('ones', ((p[0], p[3], True), (p[1], p[4], True), (p[2], p[5], True))), 3)
            check_net(ctx, R, Nets(chain_ranks({}), is_torch(fn)), '%s: ones on the three legs' % fn.sig(), W(fn), t, want)
        ctx.ob('%s: returns' % fn.sig(), bool(R.rets()), W(fn), 'never returns')
    return n


# ---------------------------------------------------------------- A15: the orthogonality center
def isometry(nets, t, bond):
    """None, or why t is not one factor of a singular value decomposition with the new bond on the given leg"""
    try:
        x = nets(t)
    except Unknown as u:
        return str(u)
    if len(x.nodes) != 1 or x.nodes[0][0][0] != 'svd' or x.nodes[0][0][3] == 1 or x.scal:
        return 'it is %s' % x
    l, c, g = x.nodes[0]
    if x.out.index(g[-1]) != bond % x.rank:
        return 'the new bond is leg %d' % x.out.index(g[-1])
    return None


def two_site(left, right):
    return join(left, right, (left.rank - 1 if left.rank == 3 else 2,), (0,))


def move_rule(ctx, F):
    n = 0
    fns = F.q('quantit::MPS::move_oc') + F.q('quantit::bMPS::move_oc')
    ctx.need(len(fns) == 2, 'move_oc')
    for fn in fns:
        R = Run(F, fn, (), NT)
        ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
        i = ('sym', fn.params[0]['n'])
        C = chain('this')
        center = ('get', T, ('f', 'orthogonality_center'))
        ok = False
        for s, facts in R.throws():
            out = known_lt(facts, i, ZERO) is True or known_lt(facts, i, size(C)) is False
            ob('only sites outside the chain are refused', out, 'refuses a site of the chain')
            ok = ok or out
            t = R.N(s.env.get(('o', 'this'), T))
            ob('refused before anything is changed', t == T, 'leaves %s' % fmt(t, 5)[:200])
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            L = R.lits(s.facts)
            raw = {(k, R.N(d)): v for (k, d), v in s.facts.items()}
            ob('sites outside the chain are refused', known_lt(raw, i, ZERO) is False and known_lt(raw, i, size(C)) is True, 'a center outside the chain is accepted')
            t = R.N(s.env.get(('o', 'this'), T))
            w = dict(t[2]) if t[0] == 'upd' else {}
            c = w.get(('f', 'orthogonality_center'), center)
            ts = w.get(('f', 'tensors'), C)
            for at in sorted((x for x in subterms(c) if len(x) == 2 and x[0] == 'iter'), key=lambda x: -x[1][1]):
                for tr in R.trips.get(at, ()):
                    if known_lt(raw, tr, ZERO) is False:
                        c = subst(c, at, tr)
                        break
            ob('ends on the requested site', c == i or known_lt(raw, c, i) is False and known_lt(raw, i, c) is False, 'ends on %s' % fmt(c, 5))
            # every step
            while True:
                m, base = writes(R, ts)
                if m:
                    ob('tensors are only changed by the steps', False, 'writes %s' % [fmt(k, 4) for k in m])
                if base not in R.I.phirec:
                    break
                rec = R.I.phirec[base]
                pc = [p for p in rec['init'] if p != base and p[2][-2:] == (('f', 'orthogonality_center'), ('f', 'value'))]
                for e in rec['ends']:
                    if not pc:
                        ob('the center follows', False, 'the loop never moves the center')
                        continue
                    step_check(ctx, R, fn, base, R.N(pc[0]), R.N(e[2].get(pc[0], pc[0])), R.N(e[2].get(base, base)), lambda a, b, e=e: known_lt({(k, R.N(d)): v for (k, d), v in e[1].items()}, a, b), i)
                ts = R.N(rec['init'][base])
            ob('nothing else is changed', base == C, 'starts from %s' % fmt(base, 4))
    return n


def step_check(ctx, R, fn, base, c, c2, new, less, i):
    ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
    d = sub(c2, c)
    if d not in (ONE, ('c', -1)):
        ob('the center moves by one site', False, 'moves by %s' % fmt(d, 4))
        return
    right = d == ONE
    ob('the center moves towards the requested site', less(c, i) is True if right else less(i, c) is True, 'moves from %s to %s' % (fmt(c, 4), fmt(c2, 4)))
    m, b = writes(R, new)
    ob('only the two sites change', b == base and set(m) == {c, c2}, 'writes %s' % [fmt(k, 4) for k in m])
    if set(m) != {c, c2}:
        return
    nets = Nets(chain_ranks({}, {base: 3}), is_chain_of_torch(fn))
    old = [leaf(('at', base, x), 3) for x in ((c, c2) if right else (c2, c))]
    side = 'right' if right else 'left'
    try:
        a, b = (nets(m[x]) for x in ((c, c2) if right else (c2, c)))
        got = recompose(nets, two_site(a, b))
        want = two_site(*old)
        ob('moving %s leaves the state as it was' % side, alike(got, want), 'the two sites become %s' % got)
    except Unknown as u:
        ob('moving %s leaves the state as it was' % side, False, str(u))
    why = isometry(nets, m[c], -1 if right else 0)
    ob('moving %s leaves an isometry behind' % side, why is None, why)


def subst(t, a, b):
    """t with b for a, sums kept in normal form"""
    if t == a:
        return b
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'aff':
        r = ('c', t[1])
        for x, k in t[2]:
            r = add(r, subst(x, a, b), k)
        return r
    if t[0] in ('begin', 'L', 'c', 'iter'):
        return t
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)


def is_chain_of_torch(fn):
    return not fn.q.startswith('quantit::b')


def coalesce_rule(ctx, F):
    n = 0
    fns = [fn for fn in F.q('quantit::bMPO::coalesce') + F.q('quantit::MPO::coalesce')]
    ctx.need(fns, 'coalesce')
    for fn in fns:
        R = Run(F, fn, (), NT)
        ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
        C = chain('this')
        rs = R.rets()
        ob('returns', bool(rs), 'never returns')
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            t = R.N(s.env.get(('o', 'this'), T))
            w = dict(t[2]) if t[0] == 'upd' else {}
            p = w.get(('f', 'tensors'))
            if p not in R.I.phirec or len(w) != 1:
                ob('one loop over the bonds', False, 'leaves %s' % fmt(t, 5)[:300])
                continue
            rec = R.I.phirec[p]
            it = ('iter', rec['site'])
            ob('starts from the operator', R.N(rec['init'][p]) == C, 'starts from %s' % fmt(R.N(rec['init'][p]), 4))
            ob('every bond is visited', R.trips.get(it) == {sub(size(C), ONE)}, 'visits %s' % [fmt(x, 4) for x in R.trips.get(it, ())])
            nets = Nets(chain_ranks({}, {p: 4}), is_chain_of_torch(fn))
            for e in rec['ends']:
                m, b = writes(R, R.N(e[2].get(p, p)))
                i, j = it, add(it, ONE)
                if b != p or set(m) != {i, j}:
                    ob('both sites of the bond change', False, 'writes %s' % [fmt(x, 4) for x in m])
                    continue
                a, c = leaf(('at', p, i), 4), leaf(('at', p, j), 4)
                try:
                    got = recompose(nets, join(nets(m[i]), nets(m[j]), (2,), (0,)))
                    ob('the operator stays the same', alike(got, join(a, c, (2,), (0,))), 'the two sites become %s' % got)
                except Unknown as u:
                    ob('the operator stays the same', False, str(u))
                for x in subterms(m[i]):
                    o = opcall(x) if len(x) > 2 else None
                    if o and o[0] == 'svd':
                        ob('the given cutoff decides what is dropped', len(o[1]) > 2 and o[1][2] == ('sym', fn.params[0]['n']), 'splits with %s' % fmt(x, 3)[:200])
    return n


def update_rule(ctx, F):
    """the two-site update of DMRG: right environments in, the optimised pair out, center and environments in step"""
    n = 0
    fns = F.q('quantit::dmrg_2sites_update::operator()')
    ctx.need(len(fns) == 2, 'dmrg_2sites_update::operator()')
    for fn in fns:
        R = Run(F, fn, (), NT)
        ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
        st, step = (('sym', p['n']) for p in fn.params)
        tor = is_torch(fn)
        g = lambda *fs: chain_get(T, fs)
        c = g('orthogonality_center')
        c1 = add(c, ONE)
        S, H, H2, E = chain(st[1]), g('hamil', 'tensors'), g('twosite_hamil', 'tensors'), g('Env', 'env', 'tensors')
        table = {S: 3, H: 4, H2: 6, E: 3}
        rs = R.rets()
        ob('returns', bool(rs), 'never returns')
        for s, x, L in rs:
            n += 1
            fwd = eq_lit(L, step, ONE)
            if fwd is None:
                fwd = None if known_lt(L, ZERO, step) is None else known_lt(L, ZERO, step)
            nm = 'moving right' if fwd else 'moving left'
            if fwd is None:
                ob('tells the two directions apart', False, 'the step is not looked at')
                continue
            if not (x[0] == 'get' and x[2] == ('f', 'get0') and opcall(x[1]) and opcall(x[1])[0] == 'two_sites_update' and len(opcall(x[1])[1]) == 4):
                ob('the energy of the update is returned', False, 'returns %s' % fmt(x, 4)[:200])
                continue
            U = x[1]
            a = opcall(U)[1]
            nets = Nets(lambda t: {('get', U, ('f', 'get1')): 4}.get(t) if t[0] == 'get' else table.get(t[1]) if t[0] == 'at' else None, tor)
            pair = two_site(leaf(('at', S, c), 3), leaf(('at', S, c1), 3))
            check_net(ctx, R, nets, '%s: %s: the pair is joined' % (fn.sig(), nm), W(fn), a[0], pair)
            ob('%s: operator of that pair' % nm, a[1] == ('at', H2, c), 'uses %s' % fmt(a[1], 4))
            ob('%s: left environment of that pair' % nm, a[2] == ('at', E, c), 'uses %s' % fmt(a[2], 4))
            ob('%s: right environment of that pair' % nm, a[3] == ('at', E, add(c, ('c', 3))), 'uses %s' % fmt(a[3], 4))
            t = R.N(s.env.get(('o', st[1]), st))
            w = dict(t[2]) if t[0] == 'upd' else {}
            m, b = writes(R, w.get(('f', 'tensors'), S))
            ob('%s: the pair is replaced' % nm, b == S and set(m) == {c, c1} and set(w) == {('f', 'tensors')}, 'writes %s' % [fmt(k, 4) for k in m])
            t = R.N(s.env.get(('o', 'this'), T))
            env = t
            for f in ('Env', 'env', 'tensors'):
                env = dict(env[2]).get(('f', f), ('get', env[1], ('f', f))) if env[0] == 'upd' else ('get', env, ('f', f))
            me, be = writes(R, env)
            slot = c1 if fwd else add(c, two_)
            ob('%s: the environment left behind is renewed' % nm, be == E and set(me) == {slot}, 'writes entries %s' % [fmt(sub(k, ONE), 4) for k in me])
            nc = dict(t[2]).get(('f', 'orthogonality_center'), c) if t[0] == 'upd' else c
            ob('%s: the position moves with the step' % nm, nc in (add(c, step), add(c, ONE) if fwd else None), 'becomes %s' % fmt(nc, 4))
            if set(m) != {c, c1}:
                continue
            try:
                got = recompose(nets, two_site(nets(m[c]), nets(m[c1])))
                want = leaf(('get', U, ('f', 'get1')), 4)
                scal = got.scal
                ok = alike(Net(got.nodes, got.out), want)
                ob('%s: the pair is the optimised one' % nm, ok, 'is %s' % got)
                ok = len(scal) == 1 and scal[0][1] == -1 and scal[0][0][0] == 'norm' and singular_values(scal[0][0][1], ('get', U, ('f', 'get1')))
                ob('%s: the pair is normalised' % nm, ok, 'scaled by %s' % [(fmt(t, 4)[:80], p) for t, p in scal])
            except Unknown as u:
                ob('%s: the pair is the optimised one' % nm, False, str(u))
            why = isometry(nets, m[c] if fwd else m[c1], -1 if fwd else 0)
            ob('%s: an isometry is left behind' % nm, why is None, why)
            for tt in (m[c], m[c1]):
                for y in subterms(tt):
                    o = opcall(y) if len(y) > 2 else None
                    if o and o[0] == 'svd':
                        opt = tuple(g('options', f) for f in ('cutoff', 'minimum_bond', 'maximum_bond'))
                        ob('%s: truncated as the options say' % nm, o[1][2:5] == opt, 'splits with %s' % [fmt(z, 3)[:60] for z in o[1][2:]])
            if set(me) == {slot}:
                if fwd:
                    want = spec('L[aob] M[apx] H[oqyp] M*[bqz] -> xyz', L=leaf(('at', E, c), 3), M=nets(m[c]), H=leaf(('at', H, c), 4))
                else:
                    want = spec('L[aob] M[xpa] H[yqop] M*[zqb] -> xyz', L=leaf(('at', E, add(c, ('c', 3))), 3), M=nets(m[c1]), H=leaf(('at', H, c1), 4))
                check_net(ctx, R, nets, '%s: %s: the renewed environment' % (fn.sig(), nm), W(fn), me[slot], want)
    return n


two_ = ('c', 2)


def chain_get(t, fs):
    for f in fs:
        t = ('get', t, ('f', f))
    return t


def singular_values(t, x):
    """t are the singular values of x"""
    return t[0] == 'get' and t[2] == ('f', 'get1') and opcall(t[1]) is not None and opcall(t[1])[0] == 'svd' and opcall(t[1])[1][0] == x


def a15(ctx):
    F = load(['dmrg.cpp', 'MPT.cpp'], True)
    ctx.meta = {'moves of the center': move_rule(ctx, F), 'coalescing': coalesce_rule(ctx, F), 'two-site updates': update_rule(ctx, F)}


def a14(ctx):
    F = load(['dmrg.cpp', 'MPT.cpp'], True)
    ctx.meta = {'closed contractions': pure_rule(ctx, F), 'chain contractions': transfer_rule(ctx, F), 'edges': edges_rule(ctx, F), 'two-site operators': two_rule(ctx, F), 'environments': env_rule(ctx, F),
                'edge shapes': trivial_rule(ctx, F)}
