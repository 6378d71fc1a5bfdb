"""Ready-made local operators and model Hamiltonians (A20): constant propagation into small matrices whose entries are polynomials in
the model's parameters, finite-state expansion of the operator chain, and abelian words for the conserved quantities."""
from fractions import Fraction
from itertools import product
from rules.networks import *

OPS = 'quantit::'
KINT8 = ('c', 1)


class MD(NT):
    """element accessors name the entry of the tensor they were taken from"""

    def on_call(self, s, e, f, ol, args):
        n = f.split('::')[-1]
        if ol is not None and n in ('accessor', 'packed_accessor', 'packed_accessor32', 'packed_accessor64') and f.startswith('at::'):
            return [(s, ('acc', ol, ()))]
        if ol is not None and 'TensorAccessor' in f and n == 'operator[]' and len(args) == 1:
            v = self.read(s, ol)
            if v[0] == 'acc':
                i = v[2] + (self.argval(s, args[0]),)
                if 'TensorAccessor' in self.types(e['t']):
                    return [(s, ('acc', v[1], i))]
                return [(s, ('LOC', (v[1][0], v[1][1] + (('i', ('tuple', i)),))))]
        if f == 'quantit::for_each' and len(args) == 2:
            t, fv = (self.argval(s, a) for a in args)
            if t[0] == 'tuple':
                outs = [(s, ())]
                for x in t[1]:
                    nxt = []
                    for s2, got in outs:
                        for s3, r in self.call_value(s2, fv, [('l', self.tmp(s2, x))], e):
                            nxt.append((s3, got + (r if r[0] != 'LOC' else self.read(s3, r[1]),)))
                    outs = nxt
                return [(s2, ('tuple', g)) for s2, g in outs]
        return super().on_call(s, e, f, ol, args)


# ---------------------------------------------------------------- polynomials and small matrices
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            k = tuple(sorted(m + m2))
            r[k] = r.get(k, 0) + c * c2
    return {k: v for k, v in r.items() if v}


def const(c):
    return {(): Fraction(c)} if c else {}


class Mat:
    """dt: 'f' floating, 'i8' small integers known exactly, 'p' the type the caller's number has"""

    def __init__(self, shape, ent, dt):
        self.shape, self.ent, self.dt = tuple(shape), {k: v for k, v in ent.items() if v}, dt

    def same(self, o):
        return self.shape == o.shape and self.ent == o.ent


def scalar(p, dt):
    return Mat((), {(): p}, dt)


def symbolic(m):
    return any(k != () for p in m.ent.values() for k in p)


class Ev:
    def __init__(self, env, n=None, length=None):
        self.env, self.n, self.length, self.narrow = env, n, length, []
        self.memo = {}

    def __call__(self, t):
        if t not in self.memo:
            self.memo[t] = self.go(t)
        return self.memo[t]

    def int(self, t):
        if t[0] == 'c' and isinstance(t[1], int):
            return t[1]
        if t == self.length:
            return self.n
        if t[0] == 'aff':
            return t[1] + sum(k * self.int(a) for a, k in t[2])
        if t[0] == 'call' and t[1] in ('size',) or t[0] == 'call' and t[1].split('::')[-1] == 'size':
            return len(self.chain(t[2][0]))
        if t[0] == 'ctor' and len(t[2]) == 1:
            return self.int(t[2][0])
        raise Unknown('number %s' % fmt(t, 4))

    def dims(self, t):
        while t[0] == 'ctor' and t[2]:
            t = t[2][0]
        if t[0] == 'ctor':
            return ()
        if t[0] in ('list', 'tuple'):
            return tuple(self.int(x) for x in t[1])
        raise Unknown('sizes %s' % fmt(t, 4))

    def dtype(self, t):
        """of tensor options or a type value"""
        if t == KINT8:
            return 'i8'
        if t[0] == 'c' and isinstance(t[1], int):
            return {0: 'i8', 1: 'i8', 2: 'i8', 3: 'i8', 4: 'i8', 6: 'f', 7: 'f'}.get(t[1], 'f')
        if t[0] == 'call' and t[1].split('::')[-1] == 'get_default_dtype':
            return 'f'
        if t[0] == 'ctor' and t[1] == 'c10::TensorOptions' and not t[2]:
            return 'f'
        if t[0] in ('ctor', 'call') and len(t[2]) == 1:
            n = t[1].split('::')[-1]
            if n in ('scalarTypeToTypeMeta', 'TensorOptions', 'dtype', 'typeMetaToScalarType', 'TypeMeta', 'get_default_dtype_as_scalartype'):
                return self.dtype(t[2][0])
            if n in ('options', 'scalar_type'):
                return self(t[2][0]).dt
        if t[0] == 'op' and t[1] in ('options', 'dtype', 'scalar_type') and len(t[2]) == 1:
            return self(t[2][0]).dt
        if t[0] == 'call' and t[1].split('::')[-1] in ('options', 'dtype', 'scalar_type', 'get_default_dtype_as_scalartype'):
            return self(t[2][0]).dt if t[2] else 'f'
        raise Unknown('element type %s' % fmt(t, 4))

    def opts(self, a):
        return self.dtype(a[0]) if a else 'f'

    # ------------------------------------------------------------ tensors
    def go(self, t):
        if t in self.env:
            return self.env[t]
        k = t[0]
        if k == 'c' and isinstance(t[1], (int, float)):
            return scalar(const(Fraction(t[1])), 'cf' if isinstance(t[1], float) else 'c')
        if k == 'aff':
            r = scalar(const(Fraction(t[1])), 'c')
            for x, f in t[2]:
                y = self(x)
                if y.shape:
                    raise Unknown('value %s' % fmt(t, 4))
                r = scalar(padd(r.ent.get((), {}), pmul(y.ent.get((), {}), const(Fraction(f)))), y.dt if y.dt != 'c' else r.dt)
            return r
        if k == 'fl':
            return scalar(const(Fraction(t[1])), 'cf')
        if k == 'ctor' and t[1] in ('c10::Scalar', 'at::Tensor') and len(t[2]) == 1:
            return self(t[2][0])
        if k == 'upd':
            b = self(t[1])
            ent = dict(b.ent)
            for key, v in t[2]:
                if key[0] != 'i':
                    raise Unknown('entry %s' % fmt(key, 3))
                i = key[1]
                i = tuple(self.int(x) for x in i[1]) if i[0] == 'tuple' else (self.int(i),)
                if len(i) != len(b.shape) or any(not 0 <= x < d for x, d in zip(i, b.shape)):
                    raise Unknown('entry %s of a tensor of sizes %s' % (i, b.shape))
                x = self(v)
                if x.shape:
                    raise Unknown('a tensor as entry')
                ent[i] = x.ent.get((), {})
            return Mat(b.shape, ent, b.dt)
        if k == 'get' and t[2][0] == 'i' or k == 'at':
            i = t[2][1] if k == 'get' else t[2]
            if k == 'get' and i[0] == 'tuple':
                b = self(t[1])
                return scalar(b.ent.get(tuple(self.int(x) for x in i[1]), {}), 'c')
            l = self.chain(t[1])
            j = self.int(i)
            if not 0 <= j < len(l):
                raise Unknown('site %d of %d' % (j, len(l)))
            return l[j]
        if k == 'get' and t[1][0] == 'tuple' and t[2][0] == 'f' and t[2][1].startswith('get'):
            return self(t[1][1][int(t[2][1][3:])])
        o = opcall(t)
        if o is None:
            raise Unknown('value %s' % fmt(t, 4))
        n, a = o
        if n == 'sub' and len(a) == 1:
            n = 'neg'
        f = getattr(self, 'op_' + n, None)
        if f is None:
            raise Unknown('operation %s' % n)
        return f(*a)

    def op_zeros(self, d, *o):
        return Mat(self.dims(d), {}, self.opts(o))

    def op_zeros_like(self, x, *o):
        m = self(x)
        return Mat(m.shape, {}, m.dt if not o else self.opts(o))

    def op_ones(self, d, *o):
        s = self.dims(d)
        return Mat(s, {i: const(1) for i in product(*map(range, s))}, self.opts(o))

    def op_full(self, d, v, *o):
        s, x = self.dims(d), self(v)
        return Mat(s, {i: x.ent.get((), {}) for i in product(*map(range, s))}, self.opts(o) if o else x.dt)

    def op_eye(self, n, *o):
        n = self.int(n)
        return Mat((n, n), {(i, i): const(1) for i in range(n)}, self.opts(o))

    def op_tensor(self, v, *o):
        def nest(t):
            while t[0] == 'ctor' and len(t[2]) >= 1:
                t = t[2][0]
            if t[0] in ('list', 'tuple'):
                return [nest(x) for x in t[1]]
            return self(t)
        x = nest(v)
        shape, y = [], x
        while isinstance(y, list):
            shape.append(len(y))
            y = y[0] if y else None
        ent = {}
        for i in product(*map(range, shape)):
            y = x
            for j in i:
                y = y[j]
            ent[i] = y.ent.get((), {})
        dt = self.opts(o) if o and not (o[0][0] == 'ctor' and not o[0][2]) else (x.dt if not shape else 'p')
        return Mat(shape, ent, dt)

    def items(self, lst, rank):
        while lst[0] == 'ctor' and len(lst[2]) >= 1 and lst[1].split('::')[-1] in ('ArrayRef', 'initializer_list', 'vector'):
            lst = lst[2][0]
        if lst[0] not in ('list', 'tuple'):
            raise Unknown('index list %s' % fmt(lst, 4))
        its = []
        for x in lst[1]:
            while x[0] == 'ctor' and x[1].endswith('TensorIndex') and len(x[2]) == 1:
                x = x[2][0]
            if x[0] == 'ctor' and x[1].endswith('Slice'):
                e = []
                for y in x[2]:
                    while y[0] == 'ctor' and len(y[2]) == 1:
                        y = y[2][0]
                    e.append(None if y[0] != 'aff' and y[0] != 'c' else self.int(y))
                its.append(('s',) + tuple((e + [None] * 3)[:3]))
            elif x[0] in ('c', 'aff') or x == self.length:
                its.append(('i', self.int(x)))
            elif 'Ellipsis' in repr(x) or x == ('c', 'Ellipsis'):
                its.append('...')
            elif x[0] == 'list' or x[0] == 'tuple':
                raise Unknown('index %s' % fmt(x, 4))
            elif 'Slice' in repr(x) and x[0] == 'list':
                its.append(('s', None, None, None))
            else:
                raise Unknown('index %s' % fmt(x, 4))
        if its.count('...') == 1:
            p = its.index('...')
            its[p:p + 1] = [('s', None, None, None)] * (rank - len(its) + 1)
        if len(its) > rank:
            raise Unknown('too many indices')
        return its + [('s', None, None, None)] * (rank - len(its))

    def picked(self, its, shape):
        """per dimension the positions chosen, and which dimensions stay"""
        sel, keep = [], []
        for d, it in enumerate(its):
            if it[0] == 'i':
                i = it[1] + shape[d] if it[1] < 0 else it[1]
                if not 0 <= i < shape[d]:
                    raise Unknown('index %d of a dimension of size %d' % (it[1], shape[d]))
                sel.append([i])
            else:
                sel.append(list(range(shape[d]))[slice(*it[1:])])
                keep.append(d)
        return sel, keep

    def op_index(self, x, lst, *r):
        m = self(x)
        sel, keep = self.picked(self.items(lst, len(m.shape)), m.shape)
        ent = {}
        for pos in product(*[range(len(s)) for s in sel]):
            v = m.ent.get(tuple(s[p] for s, p in zip(sel, pos)))
            if v:
                ent[tuple(pos[d] for d in keep)] = v
        return Mat([len(sel[d]) for d in keep], ent, m.dt)

    def op_slice(self, x, d, b=('c', 0), e=None, step=('c', 1)):
        m, d = self(x), self.int(d)
        its = [('s', None, None, None)] * len(m.shape)
        un = lambda y: None if y is None or y[0] not in ('c', 'aff', 'ctor') else self.int(y)
        its[d] = ('s', un(b), un(e), un(step))
        sel, keep = self.picked(its, m.shape)
        return Mat([len(s) for s in sel], {pos: m.ent.get(tuple(s[p] for s, p in zip(sel, pos)), {}) for pos in product(*[range(len(s)) for s in sel])}, m.dt)

    def op_narrow(self, x, d, b, l):
        return self.op_slice(x, d, b, ('c', self.int(b) + self.int(l)))

    def op_index_put(self, x, lst, v, *r):
        m, y = self(x), self(v)
        sel, keep = self.picked(self.items(lst, len(m.shape)), m.shape)
        if len(y.shape) > len(keep):
            raise Unknown('stores a tensor of rank %d at %d dimensions' % (len(y.shape), len(keep)))
        if symbolic(y) and m.dt != 'f':
            self.narrow.append('a coupling is stored in a tensor of small integers')
        ent = dict(m.ent)
        off = len(keep) - len(y.shape)
        for d, n in zip(keep[off:], y.shape):
            if n != 1 and n != len(sel[d]):
                raise Unknown('stores sizes %s at sizes %s' % (y.shape, [len(sel[d]) for d in keep]))
        for pos in product(*[range(len(s)) for s in sel]):
            at = tuple(pos[d] if n != 1 else 0 for d, n in zip(keep[off:], y.shape))
            ent[tuple(s[p] for s, p in zip(sel, pos))] = y.ent.get(at, {})
        return Mat(m.shape, ent, m.dt)

    def op_fill(self, x, v):
        m, y = self(x), self(v)
        return Mat(m.shape, {i: y.ent.get((), {}) for i in product(*map(range, m.shape))}, m.dt)

    def result(self, a, b, div=False):
        """element type of a op b, as torch promotes"""
        rank = {'c': 0, 'i8': 1, 'p': 1, 'cf': 2, 'f': 2}
        lo = {'i8', 'p', 'c'}
        if div and a.dt in lo and b.dt in lo:
            return 'f'
        if a.dt in lo and b.dt in lo:
            if bool(a.shape) == bool(b.shape) or a.dt == 'c' or b.dt == 'c':
                return 'p' if 'p' in (a.dt, b.dt) else 'i8' if 'i8' in (a.dt, b.dt) else 'c'
            # the tensor with dimensions decides between integers
            return (a if a.shape else b).dt
        return 'f' if a.shape or b.shape or 'f' in (a.dt, b.dt) else 'f'

    def pointwise(self, x, y, f, div=False):
        a, b = self(x), self(y)
        n = max(len(a.shape), len(b.shape))
        sa, sb = (1,) * (n - len(a.shape)) + a.shape, (1,) * (n - len(b.shape)) + b.shape
        if any(p != q and 1 not in (p, q) for p, q in zip(sa, sb)):
            raise Unknown('sizes %s and %s' % (a.shape, b.shape))
        shape = tuple(max(p, q) for p, q in zip(sa, sb))
        ent = {}
        for i in product(*map(range, shape)):
            ia = tuple(0 if d == 1 else p for p, d in zip(i, sa))[n - len(a.shape):]
            ib = tuple(0 if d == 1 else p for p, d in zip(i, sb))[n - len(b.shape):]
            ent[i] = f(a.ent.get(ia, {}), b.ent.get(ib, {}))
        r = Mat(shape, ent, self.result(a, b, div))
        if r.dt == 'i8' and symbolic(r):
            self.narrow.append('a product with a coupling is held in 8 bit integers')
        return r

    def op_mul(self, x, y):
        return self.pointwise(x, y, pmul)

    op_multiply = op_mul

    def op_div(self, x, y):
        def f(p, q):
            if set(q) - {()} or not q:
                raise Unknown('division')
            return {m: c / q[()] for m, c in p.items()}
        return self.pointwise(x, y, f, True)

    def op_add(self, x, y, al=('c', 1)):
        k = self(al).ent.get((), {})
        return self.pointwise(x, y, lambda p, q: padd(p, pmul(q, k)))

    def op_sub(self, x, y, al=('c', 1)):
        k = self(al).ent.get((), {})
        return self.pointwise(x, y, lambda p, q: padd(p, pmul(q, k), -1))

    def op_neg(self, x):
        m = self(x)
        return Mat(m.shape, {i: {k: -c for k, c in v.items()} for i, v in m.ent.items()}, m.dt)

    def op_pow(self, x, n):
        m, n = self(x), self.int(n)
        r = m
        for _ in range(n - 1):
            r = Mat(m.shape, {i: pmul(r.ent.get(i, {}), v) for i, v in m.ent.items()}, m.dt)
        if n < 1:
            raise Unknown('power')
        return r

    def op_matmul(self, x, y):
        a, b = self(x), self(y)
        if len(a.shape) != 2 or len(b.shape) != 2 or a.shape[1] != b.shape[0]:
            raise Unknown('product of sizes %s and %s' % (a.shape, b.shape))
        ent = {}
        for (i, k), v in a.ent.items():
            for (k2, j), w in b.ent.items():
                if k == k2:
                    ent[i, j] = padd(ent.get((i, j), {}), pmul(v, w))
        dt = a.dt if a.dt == b.dt else 'f' if 'f' in (a.dt, b.dt) else 'p'
        return Mat((a.shape[0], b.shape[1]), ent, dt)

    op_mm = op_matmul

    def op_t(self, x):
        return self.perm(self(x), (1, 0))

    op_adjoint = op_mH = op_mT = op_H = op_numpy_T = op_t

    def op_transpose(self, x, i, j):
        m = self(x)
        p = list(range(len(m.shape)))
        i, j = self.int(i), self.int(j)
        p[i], p[j] = p[j], p[i]
        return self.perm(m, p)

    def op_permute(self, x, p):
        m = self(x)
        return self.perm(m, [q % len(m.shape) for q in self.dims(p)])

    def perm(self, m, p):
        if sorted(p) != list(range(len(m.shape))):
            raise Unknown('permutation of a tensor of sizes %s' % (m.shape,))
        return Mat([m.shape[i] for i in p], {tuple(k[i] for i in p): v for k, v in m.ent.items()}, m.dt)

    def op_conj(self, x):
        return self(x)

    op_contiguous = op_clone = op_detach = op_alias = op_conj = op_resolve_conj = op_conj_physical = lambda self, x, *r: self(x)

    def op_to(self, x, o, *r):
        m = self(x)
        try:
            d = self.dtype(o)
        except Unknown:
            return m
        if d != 'f' and symbolic(m):
            self.narrow.append('a coupling is converted to integers')
        return Mat(m.shape, m.ent, d)

    op_toType = op_type = op_to

    # ------------------------------------------------------------ chains
    def chain(self, t):
        if t[0] == 'ctor' and len(t[2]) == 1:
            return self.chain(t[2][0])
        if t[0] == 'ctor' and len(t[2]) == 2:
            n = self.int(t[2][0])
            return [self(t[2][1]) for _ in range(n)]
        if t[0] == 'get' and t[2] == ('f', 'tensors'):
            return self.chain(t[1])
        if t[0] == 'upd':
            l = list(self.chain(t[1]))
            for key, v in t[2]:
                if key == ('f', 'tensors'):
                    l = list(self.chain(v))
                elif key[0] == 'i':
                    i = self.int(key[1])
                    if not 0 <= i < len(l):
                        raise Unknown('site %d of %d' % (i, len(l)))
                    l[i] = self(v)
                elif key[1] != 'orthogonality_center':
                    raise Unknown('part %s of a chain' % (key,))
            return l
        raise Unknown('chain %s' % fmt(t, 4))

    def sites_written(self, t):
        """positions a chain value is changed at"""
        if t[0] == 'ctor' and len(t[2]) == 1 or t[0] == 'get' and t[2] == ('f', 'tensors'):
            return self.sites_written(t[2][0] if t[0] == 'ctor' else t[1])
        if t[0] == 'upd':
            r = self.sites_written(t[1])
            for key, v in t[2]:
                r |= self.sites_written(v) if key == ('f', 'tensors') else {key[1]} if key[0] == 'i' else set()
            return r
        return set()


def kron(a, b):
    return Mat((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]),
               {(i * b.shape[0] + k, j * b.shape[1] + l): pmul(v, w) for (i, j), v in a.ent.items() for (k, l), w in b.ent.items()}, 'f')


def msum(*ms):
    r = ms[0]
    for m in ms[1:]:
        ent = dict(r.ent)
        for i, v in m.ent.items():
            ent[i] = padd(ent.get(i, {}), v)
        r = Mat(r.shape, ent, 'f')
    return r


def scaled(p, m):
    return Mat(m.shape, {i: pmul(p, v) for i, v in m.ent.items()}, m.dt)


def mm(a, b):
    ent = {}
    for (i, k), v in a.ent.items():
        for (k2, j), w in b.ent.items():
            if k == k2:
                ent[i, j] = padd(ent.get((i, j), {}), pmul(v, w))
    return Mat((a.shape[0], b.shape[1]), ent, 'f')


def tr(a):
    return Mat(a.shape[::-1], {(j, i): v for (i, j), v in a.ent.items()}, 'f')


def mat(n, **e):
    return Mat((n, n), {(int(k[1]), int(k[2])): const(v) for k, v in e.items()}, 'f')


def ident(n):
    return Mat((n, n), {(i, i): const(1) for i in range(n)}, 'f')


def commutator(a, b, sign=-1):
    return msum(mm(a, b), scaled(const(sign), mm(b, a)))


def is_zero(m):
    return not m.ent


def expand_chain(ws):
    """operator of a chain of (left, out, right, in) tensors"""
    d = ws[0].shape[1]
    if ws[0].shape[0] != 1 or ws[-1].shape[2] != 1:
        raise Unknown('the ends of the chain have sizes %s and %s' % (ws[0].shape, ws[-1].shape))
    cur = {0: Mat((1, 1), {(0, 0): const(1)}, 'f')}
    for p, w in enumerate(ws):
        if len(w.shape) != 4 or w.shape[1] != d or w.shape[3] != d or p and ws[p - 1].shape[2] != w.shape[0]:
            raise Unknown('site %d has sizes %s' % (p, w.shape))
        ops = {}
        for (a, i, b, j), v in w.ent.items():
            ops.setdefault((a, b), {})[i, j] = v
        nxt = {}
        for (a, b), e in ops.items():
            if a in cur and cur[a].ent:
                k = kron(cur[a], Mat((d, d), e, 'f'))
                nxt[b] = msum(nxt[b], k) if b in nxt else k
        cur = nxt
    n = d ** len(ws)
    return cur.get(0, Mat((n, n), {}, 'f'))


def embed(n, d, site, op, string=None):
    """op at one site, identities (or a string of another operator before it) elsewhere"""
    r = None
    k = 0
    while k < n:
        m = op if k == site else (string if string is not None and k < site else ident(d))
        r = m if r is None else kron(r, m)
        k += 1
    return r


def wanted_heisenberg(n, J):
    """-J sum S.S over neighbours, spins one half"""
    X, iY, Z = mat(2, e01=1, e10=1), mat(2, e01=1, e10=-1), mat(2, e00=1, e11=-1)
    r = Mat((2 ** n, 2 ** n), {}, 'f')
    for i in range(n - 1):
        for o, sg in ((X, 1), (iY, -1), (Z, 1)):
            r = msum(r, scaled(pmul({(J,): Fraction(-1)}, const(Fraction(sg, 4))), mm(embed(n, 2, i, o), embed(n, 2, i + 1, o))))
    return r


def wanted_hubbard(n, U, mu, ops, t):
    """U n_up n_dn - mu N, and t (c+ c + h.c.) over neighbours for both spins, with the fermions of different sites anticommuting"""
    cu, cd, F, one = ops
    r = Mat((4 ** n, 4 ** n), {}, 'f')
    nu, nd = mm(tr(cu), cu), mm(tr(cd), cd)
    loc = msum(scaled({(U,): Fraction(1)}, mm(nu, nd)), scaled({(mu,): Fraction(-1)}, msum(nu, nd)))
    for i in range(n):
        r = msum(r, embed(n, 4, i, loc))
    for i in range(n - 1):
        for c in (cu, cd):
            h = mm(tr(embed(n, 4, i, c, F)), embed(n, 4, i + 1, c, F))
            r = msum(r, scaled(const(t), msum(h, tr(h))))
    return r


def short_range(w, s, f):
    """the bulk tensor only produces terms on one site or on two neighbours -> reason it does not, or None"""
    d = w.shape[1]
    ops = {}
    for (a, i, b, j), v in w.ent.items():
        ops.setdefault((a, b), {})[i, j] = v
    one = ident(d).ent
    if s == f:
        return 'the chain starts and ends in the same state'
    for k in (s, f):
        if ops.get((k, k)) != one:
            return 'state %d does not carry the identity along' % k
    for (a, b) in ops:
        if (a, b) in ((s, s), (f, f), (s, f)):
            continue
        if not (a == s and b not in (s, f) or b == f and a not in (s, f)):
            return 'state %d leads to state %d' % (a, b)
    return None


def scalars_of(fn):
    """parameters that are numbers or 0-dimensional tensors -> names"""
    return [p['n'] for p in fn.params]


def length_of(fn):
    for p, t in zip(fn.params, fn.ptypes()):
        if 'Tensor' not in t and 'Scalar' not in t and 'btensor' not in t:
            return ('sym', p['n'])
    return None


DEEP = {'quantit::pauli', 'quantit::fermions', 'quantit::Heisenberg', 'quantit::Hubbard', 'quantit::to_bMPO'}


class Word(dict):
    """element of the abelian group generated by the quantities of the local states"""


def word(t, phys, lookup=None):
    """quantity expression -> {state: exponent}"""
    while t[0] == 'ctor' and len(t[2]) == 1 or t[0] == 'call' and t[1] in IDENT and len(t[2]) == 1:
        t = t[2][0]
    if t[0] == 'call' and t[1].split('::')[-1] == 'element_conserved_qtt' and t[2][0] == phys:
        if t[2][1] != ZERO or t[2][2][0] != 'c':
            raise Unknown('quantity %s' % fmt(t, 4))
        return {t[2][2][1]: 1}
    o = opcall(t)
    if o:
        n, a = o
        if n in ('mul', 'op', 'mul_'):
            x, y = word(a[0], phys), word(a[1], phys)
            return {k: v for k, v in ((k, x.get(k, 0) + y.get(k, 0)) for k in set(x) | set(y)) if v}
        if n in ('inverse', 'inverse_'):
            return {k: -v for k, v in word(a[0], phys).items()}
        if n == 'neutral':
            return {}
        if n == 'get' and len(a) == 1:
            return word(a[0], phys)
    raise Unknown('quantity %s' % fmt(t, 4))


def wadd(*ws):
    r = {}
    for sg, w in ws:
        for k, v in w.items():
            r[k] = r.get(k, 0) + sg * v
    return {k: v for k, v in r.items() if v}


def unlist(t):
    while t[0] == 'ctor' and len(t[2]) >= 1 and (t[2][0][0] in ('list', 'ctor') and t[1].split('::')[-1] in ('vector', 'initializer_list')):
        t = t[2][0]
    if t[0] != 'list':
        raise Unknown('list %s' % fmt(t, 4))
    return t[1]


def bond_words(t, phys):
    """quantities of the states of a block tensor of rank one given section by section"""
    if not (t[0] == 'ctor' and t[1].split('::')[-1] == 'btensor' and len(t[2]) >= 2):
        raise Unknown('bond %s' % fmt(t, 4))
    dims = unlist(t[2][0])
    if len(dims) != 1:
        raise Unknown('a bond of rank %d' % len(dims))
    r = []
    for p in unlist(dims[0]):
        x = p[2] if p[0] == 'ctor' else p[1]
        if x[0][0] != 'c':
            raise Unknown('section size %s' % fmt(x[0], 4))
        r += [word(x[1], phys)] * x[0][1]
    return r, word(t[2][1], phys)


def shape_words(t, phys):
    """local block shape -> (words of the first, ..., last dimension as written, words of the rule)"""
    if not (t[0] == 'call' and t[1].split('::')[-1] == 'shape_from'):
        raise Unknown('local shape %s' % fmt(t, 4))
    parts = []
    a = t[2]
    if len(a) == 1 and a[0][0] in ('list', 'ctor'):
        a = unlist(a[0])
    for x in a:
        sg = 1
        while True:
            o = opcall(x)
            if x[0] == 'ctor' and len(x[2]) == 1:
                x = x[2][0]
            elif o and o[0] in ('conj', 'conj_only', 'inverse_cvals', 'inverse_cvals_') and len(o[1]) == 1 and o[0] != 'conj_only':
                sg, x = -sg, o[1][0]
            else:
                break
        if x == phys:
            parts.append(('phys', sg))
        else:
            parts.append((bond_words(x, phys), sg))
    return parts


class Blocks(Ev):
    """a chain of block tensors, each known by the view of the local shape it takes and the site of the dense chain it holds"""

    def __init__(self, R, shape_, dense, n, length, D):
        super().__init__({}, n, length)
        self.R, self.shape_, self.dense, self.D, self.checked = R, shape_, dense, D, set()
        self.its = {}

    def int(self, t):
        if t in self.its:
            return self.its[t]
        if t[0] in ('at', 'get') and self.sizes_of(t[1]) and (t[2] == ZERO or t[2] == ('i', ZERO)):
            return self.D
        if t[0] == 'call' and t[1].split('::')[-1] == 'size' and self.is_dense(t[2][0]):
            return self.n
        return super().int(t)

    def sizes_of(self, t):
        o = opcall(t)
        return bool(o) and o[0] == 'sizes' and o[1][0] == self.shape_

    def is_dense(self, t):
        while t[0] == 'ctor' and len(t[2]) == 1 or t[0] == 'get' and t[2] == ('f', 'tensors') or t[0] == 'call' and t[1] in IDENT:
            t = t[1] if t[0] == 'get' else t[2][0]
        return t == self.dense

    def go(self, t):
        while t[0] == 'ctor' and len(t[2]) == 1:
            t = t[2][0]
        if t[0] in ('at', 'get') and (t[0] == 'at' or t[2][0] == 'i'):
            i = self.int(t[2] if t[0] == 'at' else t[2][1])
            if self.is_dense(t[1]):
                if not 0 <= i < self.n:
                    raise Unknown('site %d of %d' % (i, self.n))
                return ('dense', i)
            l = self.chain(t[1])
            if not 0 <= i < len(l):
                raise Unknown('site %d of %d' % (i, len(l)))
            return l[i]
        o = opcall(t)
        if o and o[0] == 'from_basic_tensor_like':
            if len(o[1]) > 2:
                c = o[1][2]
                while c[0] == 'ctor' and len(c[2]) == 1:
                    c = c[2][0]
                if c[0] not in ('fl', 'c') or float(c[1]) > 1e-12:
                    raise Unknown('entries up to %s are dropped' % fmt(c, 3))
            v = (-1,) * 4
            s = o[1][0]
            while s[0] == 'ctor' and len(s[2]) == 1:
                s = s[2][0]
            p = opcall(s)
            if p and p[0] in ('basic_create_view', 'basic_index'):
                if len(p[1]) < 3 or p[1][2] != ONE:
                    raise Unknown('the rank is not kept')
                v, s = self.dims(p[1][1]), p[1][0]
            if s != self.shape_:
                raise Unknown('shape %s' % fmt(s, 4))
            x = self(o[1][1])
            if x[0] != 'dense':
                raise Unknown('values %s' % fmt(o[1][1], 4))
            return ('site', v, x[1])
        raise Unknown('site tensor %s' % fmt(t, 4))

    def chain(self, t):
        if t[0] == 'phi' and t in self.R.I.phirec:
            rec = self.R.I.phirec[t]
            it = ('iter', rec['site'])
            tr_ = self.R.trips.get(it)
            if not tr_ or len(tr_) != 1:
                raise Unknown('the loop at line %s' % rec['line'])
            l = list(self.chain(self.R.N(rec['init'][t])))
            for i in range(max(0, self.int(next(iter(tr_))))):
                res = set()
                for e in rec['ends']:
                    self.its[it] = i
                    self.memo = {}
                    if not self.holds({(k, self.R.N(d)): v for (k, d), v in e[1].items()}):
                        continue
                    res.add(tuple(self.writes(self.R.N(e[2].get(t, t)), t, l)))
                if len(res) != 1:
                    raise Unknown('iterations of the loop at line %s differ' % rec['line'])
                l = list(res.pop())
            self.its.pop(it, None)
            self.memo = {}
            return l
        if t[0] == 'ctor' and len(t[2]) == 1 and self.countish(t[2][0]):
            return [None] * self.int(t[2][0])
        return super().chain(t)

    def countish(self, t):
        try:
            self.int(t)
            return True
        except Unknown:
            return False

    def writes(self, t, base, l):
        if t == base:
            return l
        if t[0] == 'upd':
            l = list(self.writes(t[1], base, l))
            for key, v in t[2]:
                if key[0] != 'i':
                    raise Unknown('part of a chain')
                i = self.int(key[1])
                if not 0 <= i < len(l):
                    raise Unknown('site %d of %d' % (i, len(l)))
                l[i] = self(v)
            return l
        raise Unknown('chain %s' % fmt(t, 4))

    def holds(self, facts):
        """the integer conditions hold; comparisons with the dense chain are remembered"""
        for (k, d), v in facts.items():
            o = opcall(d)
            if k == 'eq0' and o and o[0] in ('allclose', 'equal') and not v:
                try:
                    pair = []
                    for x in o[1][:2]:
                        p = opcall(x)
                        pair.append(self(p[1][0] if p and p[0] == 'to_dense' else x))
                    self.checked.add(tuple(sorted(pair, key=repr)))
                except Unknown:
                    pass
                continue
            try:
                x = self.int(d)
            except Unknown:
                continue
            if v != (x == 0 if k == 'eq0' else x < 0):
                return False
        return True


def return_paths(R):
    return [(s, R.val(s, v), {(k, R.fin(R.N(d))): x for (k, d), x in s.facts.items()}) for s, k, v in R.outs if k == 'return']


def operators_rule(ctx, F):
    """pauli() and fermions()"""
    n = 0

    def tuples(q, size):
        fs = [f for f in F.q(q) if not f.params]
        ctx.need(fs, q)
        for fn in fs:
            R = Run(F, fn, DEEP, MD)
            for s, v, facts in return_paths(R):
                try:
                    if v[0] != 'tuple' or len(v[1]) != size:
                        raise Unknown('returns %s' % fmt(v, 4))
                    yield fn, [Ev({})(x) for x in v[1]]
                except Unknown as u:
                    ctx.ob('%s: operators are known' % q, False, W(fn), str(u))
    for fn, (X, iY, Z, lo, one) in tuples('quantit::pauli', 5):
        ob = lambda nm, ok, why='': ctx.ob('pauli: ' + nm, ok, W(fn), why or 'it does not hold for the matrices returned', key='pauli|' + nm)
        n += 1
        ob('Sx is the Pauli matrix', X.same(mat(2, e01=1, e10=1)))
        ob('iSy is i times the Pauli matrix', iY.same(mat(2, e01=1, e10=-1)))
        ob('Sz is the Pauli matrix', Z.same(mat(2, e00=1, e11=-1)))
        ob('the lowering operator lowers the spin by one', lo.ent and is_zero(msum(commutator(Z, lo), scaled(const(2), lo))))
        ob('lowering and raising add up to Sx', msum(lo, tr(lo)).same(X))
        ob('the last one is the identity', one.same(ident(2)))
    for fn, (cu, cd, P, one) in tuples('quantit::fermions', 4):
        ob = lambda nm, ok, why='': ctx.ob('fermions: ' + nm, ok, W(fn), why or 'it does not hold for the matrices returned', key='fermions|' + nm)
        n += 1
        for a, c in (('up', cu), ('down', cd)):
            ob('c_%s anticommutes with its conjugate to one' % a, commutator(c, tr(c), 1).same(ident(4)))
            ob('c_%s squares to zero' % a, is_zero(mm(c, c)))
            ob('the phase operator anticommutes with c_%s' % a, is_zero(commutator(P, c, 1)))
        ob('both species anticommute', is_zero(commutator(cu, cd, 1)) and is_zero(commutator(cu, tr(cd), 1)))
        num = msum(mm(tr(cu), cu), mm(tr(cd), cd))
        par = mm(msum(ident(4), scaled(const(-2), mm(tr(cu), cu))), msum(ident(4), scaled(const(-2), mm(tr(cd), cd))))
        ob('the phase operator is the parity of the number of electrons', P.same(par))
        ob('the states have definite numbers of electrons', all(i == j for i, j in num.ent))
        ob('the last one is the identity', one.same(ident(4)))
        ups = {i: mm(tr(cu), cu).ent.get((i, i), {}).get((), 0) for i in range(4)}
        dns = {i: mm(tr(cd), cd).ent.get((i, i), {}).get((), 0) for i in range(4)}
        ob('the first state is empty and the last full', (ups[0], dns[0], ups[3], dns[3]) == (0, 0, 1, 1))
    return n


def block_operators_rule(ctx, F):
    n = 0
    for q, order in (('quantit::pauli', (2, 3, 4)), ('quantit::fermions', (0, 1, 2, 3))):
        fs = [f for f in F.q(q) if len(f.params) == 1 and is_bt(f.ptypes()[0])]
        ctx.need(fs, q + '(btensor)')
        dense = [f for f in F.q(q) if not f.params]
        for fn in fs:
            R = Run(F, fn, DEEP, MD)
            D = Run(F, dense[0], DEEP, MD)
            ops = D.rets()[0][1][1]
            shape_ = ('sym', fn.params[0]['n'])
            ob = lambda nm, ok, why: ctx.ob('%s: %s' % (fn.sig(), nm), ok, W(fn), why)
            rs = R.rets()
            ob('returns', bool(rs), 'never returns')
            for s, v, _ in rs:
                n += 1
                if v[0] != 'tuple' or len(v[1]) != len(order):
                    ob('one block operator for each', False, 'returns %s' % fmt(v, 4))
                    continue
                for i, x in zip(order, v[1]):
                    o = opcall(x)
                    while x[0] == 'ctor' and len(x[2]) == 1:
                        x, o = x[2][0], opcall(x[2][0])
                    good = bool(o) and o[0] == 'from_basic_tensor_like'
                    ob('operator %d is filled from the dense operator' % i, good and same_op(o[1][1], ops[i], D), 'it is %s' % fmt(x, 5)[:300])
                    if not good:
                        continue
                    r = opcall(o[1][0])
                    ok = bool(r) and r[0] in ('set_selection_rule', 'set_selection_rule_') and r[1][0] == shape_
                    rule = opcall(r[1][1]) if ok else None
                    ok = ok and bool(rule) and rule[0] == 'find_selection_rule' and same_op(rule[1][0], ops[i], D) and rule[1][1] == shape_
                    ob('operator %d has the shape asked for and its own selection rule' % i, ok, 'its shape is %s' % fmt(o[1][0], 5)[:300])
    return n


def same_op(a, b, D):
    try:
        return Ev({})(a).same(Ev({})(b))
    except Unknown:
        return False


def models_rule(ctx, F):
    n = 0
    starts = {}
    for q, want in (('quantit::Heisenberg', 1), ('quantit::Hubbard', 2)):
        fs = [f for f in F.q(q) if not any('btensor' in t for t in f.ptypes())]
        ctx.need(fs, q)
        try:
            pf = [f for f in F.q('quantit::fermions') if not f.params][0]
            ops = [Ev({})(x) for x in Run(F, pf, DEEP, MD).rets()[0][1][1]]
        except (Unknown, IndexError):
            ops = None
        for fn in fs:
            tag = fn.sig()
            ob = lambda nm, ok, why: ctx.ob('%s: %s' % (tag, nm), ok, W(fn), why)
            R = Run(F, fn, DEEP, MD)
            L = length_of(fn)
            names = [p['n'] for p in fn.params if ('sym', p['n']) != L]
            env = {('sym', x): scalar({(x,): Fraction(1)}, 'p') for x in names}
            done = 0
            for s, v, facts in return_paths(R):
                try:
                    ev = Ev(env, 1, L)
                    if not possible(ev, facts):
                        continue
                    done += 1
                    n += 1
                    ob('a chain without sites is refused', not at_length(ev, facts, 0), 'a length of 0 goes on to site 0')
                    where = ev.sites_written(v)
                    stray = [fmt(x, 4) for x in where for k in (2, 3, 4, 5) if Ev(env, k, L).int(x) not in (0, k - 1)]
                    ob('only the ends differ from the other sites', not stray, 'sites %s are changed' % sorted(set(stray)))
                    for k in (1, 2, 3, 4):
                        ev = Ev(env, k, L)
                        if not at_length(ev, facts, k):
                            continue
                        ws = ev.chain(v)
                        ok = len(ws) == k
                        ob('there are as many sites as asked for', ok, '%d sites for a length of %d' % (len(ws), k))
                        if not ok:
                            break
                        ob('couplings are never held in small integers', not ev.narrow, '; '.join(sorted(set(ev.narrow))))
                        H = expand_chain(ws)
                        ws_ = [wanted_heisenberg(k, names[0])] if want == 1 else [wanted_hubbard(k, names[0], names[1], ops, t) for t in (1, -1)]
                        ob('it is the documented sum of terms', any(H.same(w) for w in ws_), 'for %d sites the operator differs: %s' % (k, diff(H, ws_[0])))
                        if k == 3:
                            bulk = ws[1]
                            ss = [a for a in range(bulk.shape[0]) if row(bulk, a).same(ws[0])]
                            es = [b for b in range(bulk.shape[2]) if col(bulk, b).same(ws[2])]
                            ob('the ends are a row and a column of the other sites', bool(ss and es), 'they are not')
                            if ss and es:
                                why = [short_range(bulk, a, b) for a in ss for b in es]
                                ob('longer chains add nothing but these terms', None in why, why[0])
                                starts[q] = (bulk, ss, es)
                except Unknown as u:
                    ob('the operator can be told', False, str(u))
            ob('returns for numbers', done, 'no way to return')
    return n, starts


def row(w, a):
    return Mat((1,) + w.shape[1:], {(0,) + k[1:]: v for k, v in w.ent.items() if k[0] == a}, w.dt)


def col(w, b):
    return Mat(w.shape[:2] + (1,) + w.shape[3:], {k[:2] + (0,) + k[3:]: v for k, v in w.ent.items() if k[2] == b}, w.dt)


def diff(a, b):
    if a.shape != b.shape:
        return 'sizes %s' % (a.shape,)
    for k in sorted(set(a.ent) | set(b.ent)):
        if a.ent.get(k, {}) != b.ent.get(k, {}):
            sh = lambda p: ' + '.join('%s%s' % (c, ''.join('*' + x for x in m)) for m, c in sorted(p.items())) or '0'
            return 'element %s is %s, expected %s' % (k, sh(a.ent.get(k, {})), sh(b.ent.get(k, {})))
    return ''


def at_length(ev, facts, n):
    """the path is open to chains of n sites"""
    old, ev.n = ev.n, n
    try:
        for (k, d), v in facts.items():
            try:
                x = ev.int(d)
            except Unknown:
                continue
            if v != (x == 0 if k == 'eq0' else x < 0):
                return False
        return True
    finally:
        ev.n = old


def possible(ev, facts):
    """the path is open to real numbers as couplings"""
    for (k, d), v in facts.items():
        o = opcall(d)
        if k == 'eq0' and o and o[0] in ('is_floating_point', 'is_complex', 'isFloatingPoint', 'isComplex') and len(o[1]) == 1:
            try:
                dt = ev(o[1][0]).dt
            except Unknown:
                continue
            if dt in ('f', 'cf') and v == ('loating' in o[0]) or 'omplex' in o[0] and not v:
                return False
        c, m = aff(d)
        if len(m) == 1:
            (a, f), = m.items()
            p = opcall(a)
            if p and p[0] in ('size', 'dim', 'ndimension') and len(p[1]) == 1:
                x = p[1][0]
                y = opcall(x)
                try:
                    r = len(ev(y[1][0] if y and y[0] == 'sizes' else x).shape)
                except Unknown:
                    continue
                if v != (c + f * r == 0 if k == 'eq0' else c + f * r < 0):
                    return False
    return True


def block_models_rule(ctx, F, starts):
    n = 0
    for q, rel in (('quantit::Heisenberg', {}), ('quantit::Hubbard', {3: 1, 0: 1, 1: -1, 2: -1})):
        fs = [f for f in F.q(q) if any('btensor' in t for t in f.ptypes())]
        ctx.need(fs, q + ' with blocks')
        dense = {f.j.get('u') for f in F.q(q) if not any('btensor' in t for t in f.ptypes())}
        for fn in fs:
            tag = fn.sig()
            ob = lambda nm, ok, why: ctx.ob('%s: %s' % (tag, nm), ok, W(fn), why)
            R = Run(F, fn, {'quantit::to_bMPO'}, type('BMD', (MDB,), {'blockq': q}))
            phys = next(('sym', p['n']) for p, t in zip(fn.params, fn.ptypes()) if 'btensor' in t)
            L = length_of(fn)
            ps = return_paths(R)
            ob('returns', bool(ps), 'never returns')
            seen = set()
            for s, v, facts in ps:
                n += 1
                try:
                    t = v
                    while t[0] == 'ctor' and len(t[2]) == 1 and not (t[2][0][0] == 'call' and t[2][0][1].split('::')[-1] == 'size'):
                        t = t[2][0]
                    o = opcall(t)
                    if o and o[0] == 'coalesce':
                        t = o[1][0]
                    ch = [x for x in subterms(t) if len(x) > 2 and x[0] == 'call' and x[1] == q]
                    sh = [x for x in subterms((t, tuple(facts))) if len(x) > 2 and x[0] == 'call' and x[1].split('::')[-1] == 'shape_from']
                    for p in [x for x in subterms(t) if len(x) == 3 and x[0] == 'phi' and x in R.I.phirec]:
                        for e in R.I.phirec[p]['ends']:
                            nv = R.N(e[2].get(p, p))
                            ch += [x for x in subterms(nv) if len(x) > 2 and x[0] == 'call' and x[1] == q]
                            sh += [x for x in subterms(nv) if len(x) > 2 and x[0] == 'call' and x[1].split('::')[-1] == 'shape_from']
                    if len(set(ch)) != 1 or len(set(sh)) != 1:
                        raise Unknown('one dense chain and one local shape: %d, %d' % (len(set(ch)), len(set(sh))))
                    dense_, shape_ = ch[0], sh[0]
                    args = [strip_conv(x) for x in dense_[2]]
                    ob('the dense chain has the couplings and length asked for', args == [('sym', p['n']) for p in fn.params if ('sym', p['n']) != phys] or
                       all(mentions_only(x, ('sym', p['n'])) for x, p in zip(args, fn.params)), 'it is %s' % fmt(dense_, 4))
                    parts = shape_words(shape_, phys)
                    if len(parts) != 4 or [p[0] == 'phys' for p in parts] != [False, True, False, True]:
                        raise Unknown('the local shape is not bond, state, bond, state')
                    (lb, lr), ls = parts[0]
                    (rb, rr), rs = parts[2]
                    rule = wadd((ls, lr), (rs, rr))
                    if parts[1][1] + parts[3][1]:
                        raise Unknown('both local states enter with the same sign')
                    D = len(lb)
                    if q not in starts:
                        raise Unknown('the dense chain is not known')
                    bulk, ss, es = starts[q]
                    ob('the bond has the states of the dense chain', (D, len(rb)) == (bulk.shape[0], bulk.shape[2]), '%d and %d states' % (D, len(rb)))
                    bad = None
                    if (D, len(rb)) == (bulk.shape[0], bulk.shape[2]):
                        for (a, i, b, j) in sorted(bulk.ent):
                            w = wadd((ls, lb[a]), (parts[1][1], {i: 1}), (rs, rb[b]), (parts[3][1], {j: 1}), (-1, rule))
                            if not multiple(w, rel):
                                bad = 'element %s has quantity %s' % ((a, i, b, j), w)
                                break
                    ob('every term is allowed by the quantities of the bond', bad is None, bad)
                    for k in (1, 2, 3, 4, 5):
                        B = Blocks(R, shape_, dense_, k, L, D)
                        if not B.holds(facts):
                            continue
                        seen.add(k)
                        l = B.chain(t)
                        B.holds(facts)
                        want = [('site', (ss[0] if i == 0 else -1, -1, es[0] if i == k - 1 else -1, -1), i) for i in range(k)]
                        cand = [[('site', (a if i == 0 else -1, -1, b if i == k - 1 else -1, -1), i) for i in range(k)] for a in ss for b in es]
                        ob('every site holds its site of the dense chain', l in cand, 'for %d sites it is %s, expected %s' % (k, l, want))
                        for i, x in enumerate(l):
                            ob('a site that does not fit is refused', tuple(sorted([x, ('dense', i)], key=repr)) in B.checked, 'site %d of %d is not compared with the dense one' % (i, k))
                except Unknown as u:
                    ob('the operator can be told', False, str(u))
            ob('every length is handled', seen == {1, 2, 3, 4, 5}, 'lengths %s' % sorted(seen))
    return n


def multiple(w, rel):
    if not w:
        return True
    if set(w) != set(rel):
        return False
    return len({Fraction(w[k], rel[k]) for k in w}) == 1


def strip_conv(t):
    while t[0] == 'ctor' and len(t[2]) == 1:
        t = t[2][0]
    o = opcall(t)
    if o and o[0] == 'full' and len(o[1]) >= 2:
        return strip_conv(o[1][1])
    return t


def mentions_only(t, x):
    return t == x


class MDB(MD):
    """the dense model stays one value"""
    blockq = ''

    def want_inline(self, fn, st, node, args):
        if fn.q == self.blockq:
            return any('btensor' in t for t in fn.ptypes())
        return super().want_inline(fn, st, node, args)

    def on_call(self, s, e, f, ol, args):
        if ol is not None and f.split('::')[-1] == 'basic_create_view':
            return [(s, ('call', f, (self.read(s, ol),) + tuple(self.argval(s, a) for a in args)))]
        return super().on_call(s, e, f, ol, args)


def a20(ctx):
    F = load(['models.cpp', 'operators.cpp'], True)
    n = operators_rule(ctx, F) + block_operators_rule(ctx, F)
    k, starts = models_rule(ctx, F)
    ctx.meta['outcomes'] = n + k + block_models_rule(ctx, F, starts)
