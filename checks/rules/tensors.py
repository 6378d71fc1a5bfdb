"""Rules about the block tensor: a shared abstract model and the properties decided on it."""
import os
from lib import *

KNOWN = set(open(os.path.join(os.path.dirname(__file__), '..', 'api.txt')).read().split('\n'))
BTQ = 'quantit::btensor::'
AQV = 'quantit::any_quantity_vector::'
MAPQ = 'quantit::flat_map::'


OUTARG = {'copy': 2, 'copy_n': 2, 'copy_backward': 2, 'move_backward': 2, 'copy_if': 2, 'partial_sum': 2, 'inclusive_scan': 2,
          'exclusive_scan': 2, 'iota': 0, 'fill': 0, 'fill_n': 0, 'sort': 0, 'stable_sort': 0, 'reverse': 0, 'rotate': 0,
          'generate': 0, 'adjacent_difference': 2, 'reverse_copy': 2, 'rotate_copy': 3, 'transform': 2, 'replace': 0, 'remove_if': 0, 'unique': 0}
BASE_DEEP = {BTQ + x for x in ('begin', 'end', 'cbegin', 'cend', 'blocks', 'options', 'dim')}


def e_is_map(e):
    return (e.get('f') or '').startswith(MAPQ)


SMALL = NARROW + ('bool',)


class BT(Num):
    """block tensor functions: functions that exist on the pinned tree are opaque unless the rule asks to look into them
    (`deep`); functions added since are always looked into, so moving code into a helper changes nothing."""
    deep = frozenset()
    cbs_run = True
    site_by_path = True

    def __init__(self, F, deep=()):
        super().__init__(F)
        self.deep = set(deep)
        self.summed = {}

    def want_inline(self, fn, st, node, args):
        if fn.q.startswith(MAPQ):
            return False
        return fn.q not in KNOWN or fn.q in self.deep or fn.q in BASE_DEEP

    def on_store(self, st, val, ty, node):
        super().on_store(st, val, ty, node)
        src = self.types(node['t']).replace('const ', '').replace('&', '').strip() if 't' in node else ''
        if is_c(val) or src in SMALL:
            return None
        return ('call', 'kept as %s' % ty, (val,))      # a wider value may not fit

    def ev_(self, st, e):
        out = super().ev_(st, e)
        if e is not None and e.get('k') == 'call' and 't' in e and self.types(e['t']).replace('const ', '') in NARROW:
            out = [(s, ('call', 'kept as a small integer', (t,)) if t[0] == 'call' and t[1] in ('std::reduce', 'std::accumulate', 'std::inner_product') else t) for s, t in out]
        return out

    split_minmax = False

    def minmax(self, s, f, args):
        a, b = (self.argval(s, x) for x in args)
        l = lit_lt(a, b)
        if isinstance(l, bool):
            t, fl = ([s], []) if l else ([], [s])
        else:
            t, fl = self.assume(s, l[0])
        return [(x, b if f == 'std::max' else a) for x in t] + [(x, a if f == 'std::max' else b) for x in fl]

    # ---- iterators into containers are positions of the container
    reversed_iters = True

    def walks(self, t, seen=()):
        """(container location, 1 or -1 for forward or reverse) an iterator value walks, if it can be told"""
        _, m = aff(t)
        r = {}
        for a, k in m.items():
            o = None
            if a[0] == 'begin':
                o = ((a[1], a[2]), 1)
            elif a[0] == 'phi' and a not in seen and a in self.phi_init:
                os_ = {self.walks(x, seen + (a,)) for x in self.phi_init[a]}
                if len(os_) == 1:
                    o = os_.pop()
            if o is not None:
                r[o[0]] = r.get(o[0], 0) + k * o[1]
        r = [(o, k) for o, k in r.items() if k]
        return r[0] if len(r) == 1 and r[0][1] in (1, -1) else None

    def origin(self, t, seen=()):
        """the container location an iterator value walks, if it can be told"""
        r = self.walks(t, seen)
        return r[0] if r and r[1] == 1 else None

    def ptrloc(self, st, t, node=None):
        if t[0] not in ('ref', 'dyn'):
            r = self.walks(t)
            if r is not None and r[0][0][0] != 'g':
                o, d = r
                self.on_deref(st, t, node)
                return (o[0], o[1] + (('i', sub(t if d == 1 else sub(MINUS, t), ('begin', o[0], o[1]))),))
        return super().ptrloc(st, t, node)

    def range_loc(self, st, loc, e):
        t = self.types(e['t']).replace('const ', '').replace('&', '').strip() if e.get('t') is not None else ''
        if t in ('quantit::btensor', 'btensor', 'class quantit::btensor') and not loc[1][-1:] == (('f', 'blocks_list'),):
            return (loc[0], loc[1] + (('f', 'blocks_list'),))
        return loc

    loop_algos = frozenset({'for_each', 'transform'})
    folds = False

    def as_loop(self, s, e, n, args):
        v = [self.argval(s, a) for a in args]
        if len(v) < 3 or any(x[0] == 'unknown' for x in v[:2]):
            return None
        put = None
        if n == 'for_each' and len(v) == 3:
            starts, op = [v[0]], v[2]
        elif n == 'transform' and len(v) in (4, 5):
            starts, op, put = ([v[0]] if len(v) == 4 else [v[0], v[2]]), v[-1], v[-2]
        elif n == 'copy' and len(v) == 3:
            starts, op, put = [v[0]], None, v[2]
        else:
            return None
        back = put[1] if put is not None and put[0] == 'backins' else None
        if put is not None and back is None:
            starts = starts + [put]

        def step(st, its):
            els = [('l', self.ptrloc(st, x, e)) for x in (its if put is None or back is not None else its[:-1])]
            outs = [(st, self.read(st, els[0][1]))] if op is None else self.call_value(st, op, els, e)
            for s2, val in outs:
                if back is not None:
                    self.write(s2, back, ('mut', 'std::vector::push_back', 'obj', (self.read(s2, back), val)), e)
                elif put is not None:
                    self.write(s2, self.ptrloc(s2, its[-1], e), val, e)
            return [s2 for s2, _ in outs]
        res = []
        for s2, its in self.algo_loop(s, e.get('l'), starts, v[1], step, e):
            res.append((s2, op if n == 'for_each' else ('void',) if back is not None else its[-1]))
        return res

    def algorithm(self, s, e, f, args):
        """std algorithms that write through an iterator"""
        n = f.split('::')[-1]
        if n in self.loop_algos:
            r = self.as_loop(s, e, n, args)
            if r is not None:
                return r
        if n in ('accumulate', 'reduce') and args:
            b = self.argval(s, args[0])
            for a in aff(b)[1]:
                if a[0] == 'begin' and a[1][0] == 'v' and not a[2]:
                    self.summed.setdefault(a[1], set()).add(self.read(s, (a[1], ())))
            if self.folds and len(args) == 4:
                return self.fold(s, e, [self.argval(s, a) for a in args])
        if n in ('equal', 'all_of', 'any_of', 'none_of'):
            return self.quantified(s, e, n, [self.argval(s, a) for a in args])
        if n not in OUTARG:
            return None
        v = tuple(self.argval(s, a) for a in args)
        k = OUTARG[n]
        if k >= len(v):
            return None
        if v[k][0] == 'backins':                            # appended at the end of a container
            o = v[k][1]
            old = self.read(s, o)
            s.event('call', f, None, v, e.get('l'), None)
            self.write(s, o, ('mut', 'std::vector::insert', 'obj', (old, add(self.begin(s, o), self.size(s, o)), v[0], v[1])) if n == 'copy' else ('mut', f, 'out', (old,) + v), e)
            return [(s, v[k])]
        o = self.origin(v[k])
        if o is None:
            return None
        old = self.read(s, o)
        s.event('call', f, None, v, e.get('l'), None)
        self.write(s, o, ('mut', f, 'out', (old,) + v), e)
        if n == 'copy' and len(v) == 3:                     # where the copy ended
            return [(s, add(v[2], sub(v[1], v[0])))]
        return [(s, ('call', f, v))]

    def fold(self, s, e, v):
        """std::accumulate with an operation of its own: the loop it stands for"""
        if v[3][0] != 'lam' or any(x[0] == 'unknown' for x in v[:2]):
            return None
        acc = (('v', self.frame, ('alg', e.get('l'), e.get('c'), 'acc')), ())

        def step(st, its):
            out = []
            for s2, val in self.call_value(st, v[3], [('v', self.read(st, acc)), ('l', self.ptrloc(st, its[0], e))], e):
                self.write(s2, acc, val, e)
                out.append(s2)
            return out
        s.env[acc[0]] = v[2]
        return [(s2, self.read(s2, acc)) for s2, _ in self.algo_loop(s, e.get('l'), [v[0]], v[1], step, e)]

    def quantified(self, s, e, n, v):
        """std::equal and the like with a predicate: the loop that applies it to every element"""
        if len(v) < 3 or v[-1][0] != 'lam' or any(x[0] == 'unknown' for x in v[:2]):
            return None
        if n == 'equal' and len(v) == 5:
            same, other = self.compare(s, '==', sub(v[1], v[0]), sub(v[3], v[2]))
            return [(s2, ZERO) for s2 in other] + [x for s2 in same for x in self.quantified(s2, e, n, v[:3] + v[4:])]
        starts = [v[0]] if n != 'equal' else [v[0], v[2]]
        flag = (('v', self.frame, ('alg', e.get('l'), e.get('c'), 'flag')), ())
        found = n in ('any_of', 'none_of')

        def step(st, its):
            els = [('l', self.ptrloc(st, x, e)) for x in its]
            out = []
            for s2, val in self.call_value(st, v[-1], els, e):
                self.write(s2, flag, ('bin', '|' if found else '&', self.read(s2, flag), val), e)
                out.append(s2)
            return out
        s.env[flag[0]] = ZERO if found else ONE
        res = []
        for s2, _ in self.algo_loop(s, e.get('l'), starts, v[1], step, e):
            x = self.read(s2, flag)
            if n == 'none_of':
                yes, no = self.test(s2, x)
                res += [(s3, ZERO) for s3 in yes] + [(s3, ONE) for s3 in no]
            else:
                res.append((s2, x))
        return res

    def on_call(self, s, e, f, ol, args):
        if f in ('std::max', 'std::min') and len(args) == 2 and self.split_minmax:
            return self.minmax(s, f, args)
        if f.startswith('std::') and ol is None:
            r = self.algorithm(s, e, f, args)
            if r is not None:
                return r
        if f.startswith(AQV) and ol is not None:
            n = f.split('::')[-1]
            if n in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'size', 'empty', 'operator[]') and f not in self.deep:
                return self.map_call(s, e, n, ol, args)
        if f in CONVS and ol is not None and not args:
            return [(s, ('LOC', ol))]                       # the quantity a wrapper holds
        if f.startswith('quantit::quantity_vector::') and ol is not None:
            n = f.split('::')[-1]
            if n in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'size', 'empty', 'operator[]', 'at') and f not in self.deep:
                return self.map_call(s, e, n, ol, args)
        if f.startswith(MAPQ) and ol is not None:
            return self.map_call(s, e, f.split('::')[-1], ol, args)
        if f == 'std::advance' and len(args) == 2 and args[0][0] == 'l':
            self.write(s, args[0][1], add(self.read(s, args[0][1]), self.argval(s, args[1])), e)
            return [(s, ('void',))]
        if f == 'std::back_inserter' and len(args) == 1 and args[0][0] == 'l':
            return [(s, ('backins', args[0][1]))]
        if f in ('std::vector::reserve', 'std::vector::shrink_to_fit'):
            return [(s, ('void',))]
        if f == 'std::invoke' and args:
            return self.call_value(s, self.argval(s, args[0]), args[1:], e)
        if f in (BTQ + 'reserve_space_', BTQ + 'reserve_space_to_max_'):
            return [(s, ('void',))]
        if f in (BTQ + 'block', BTQ + 'block_at') and ol is not None and args:
            v = self.argval(s, args[0])
            s.event('blk', f, self.read(s, ol), (v,), e.get('l'), ol)
            return [(s, ('LOC', (ol[0], ol[1] + (('f', 'blocks_list'), ('i', ('key', v))))))]
        if ol is None and len(args) == 1 and self.is_iter_cls(f.rsplit('::', 1)[0]) and f.rsplit('::', 1)[0].endswith(f.rsplit('::', 1)[-1]):
            return [(s, self.argval(s, args[0]))]       # iterator -> const_iterator
        s.event('call', f, self.read(s, ol) if ol is not None else None, tuple(self.argval(s, a) for a in args), e.get('l'), ol, e.get('u'))
        return None

    def on_fnvalue(self, s, node, ft, locs):
        o = torch_op(ft[1]) if ft[0] == 'fn' else None
        if o is None:
            return None
        vals = tuple(self.read(s, l) for l in locs)
        s.event('call', ft[1], None, vals, node.get('l'), None)
        if o[1]:
            self.write(s, locs[0], ('mut', ft[1], 'obj', vals), node)
            return [(s, self.read(s, locs[0]))]
        return [(s, ('call', ft[1], vals))]

    def arg_readonly(self, e, name, i, kind):
        return name.startswith('fmt::') or super().arg_readonly(e, name, i, kind)

    def map_call(self, s, e, n, ol, args):
        v = tuple(self.argval(s, a) for a in args)
        if n in ('begin', 'cbegin'):
            return [(s, self.begin(s, ol))]
        if n in ('end', 'cend'):
            return [(s, add(self.begin(s, ol), self.size(s, ol)))]
        if n in ('rbegin', 'crbegin', 'rend', 'crend'):
            return [(s, mul(add(self.begin(s, ol), self.size(s, ol)) if 'begin' in n else self.begin(s, ol), MINUS))]
        if n == 'size':
            return [(s, self.size(s, ol))]
        if n == 'empty':
            l = lit_eq(self.size(s, ol), ZERO)
            if isinstance(l, bool):
                return [(s, ONE if l else ZERO)]
            t, fl = self.assume(s, l[0])
            return [(x, ONE) for x in t] + [(x, ZERO) for x in fl]
        if n in ('operator[]', 'at') and args:
            s.event('index', ol, v[0], e.get('l'), n)
            p = ('key', v[0]) if e_is_map(e) else v[0]
            return [(s, ('LOC', (ol[0], ol[1] + (('i', p),))))]
        if n in ('emplace', 'insert', 'try_emplace', 'emplace_hint', 'insert_or_assign', 'merge', 'insert_range', 'clear', 'erase'):
            s.event('put' if n not in ('merge', 'clear', 'erase') else n, ol, v, e.get('l'), n)
            old = self.read(s, ol)
            self.write(s, ol, ('mut', n, 'obj', (old,) + v), e)
            return [(s, ('call', MAPQ + n, (old,) + v))]
        if n in ('reserve', 'shrink_to_fit'):
            return [(s, ('void',))]
        if n == 'swap' and len(args) == 1 and args[0][0] == 'l':
            a, b = self.read(s, ol), self.read(s, args[0][1])
            self.write(s, ol, b, e)
            self.write(s, args[0][1], a, e)
            return [(s, ('void',))]
        if n == 'operator=' and len(v) == 1:
            self.write(s, ol, v[0], e)
            return [(s, ('LOC', ol))]
        return None


def bt_fns(F, name):
    return [f for f in F.q(BTQ + name)]


# ------------------------------------------------------------------ canonical forms
ALIAS = {'less': 'lt', 'greater': 'gt', 'less_equal': 'le', 'greater_equal': 'ge', 'not_equal': 'ne', 'multiply': 'mul',
         'divide': 'div', 'true_divide': 'div', 'subtract': 'sub', 'absolute': 'abs', 'negative': 'neg',
         'operator*': 'mul', 'operator+': 'add', 'operator/': 'div', 'operator-': 'sub', 'operator*=': 'mul', 'operator+=': 'add',
         'operator/=': 'div', 'operator-=': 'sub', 'operator<': 'lt', 'operator>': 'gt', 'operator<=': 'le', 'operator>=': 'ge',
         'operator==': 'eq', 'operator!=': 'ne'}
FIELD = {'first': 'get0', 'second': 'get1'}


def torch_op(f):
    """'at::Tensor::mul_' -> ('mul', inplace)"""
    for p in ('at::Tensor::', 'at::TensorBase::', 'at::', 'torch::'):
        if f.startswith(p):
            n = f[len(p):]
            if n.startswith('operator'):
                return (ALIAS[n], n.endswith('=') and n not in ('operator==', 'operator!=', 'operator<=', 'operator>=')) if n in ALIAS else None
            inp = n.endswith('_') and not n.endswith('__')
            n = n.rstrip('_') if inp else n
            return ALIAS.get(n, n), inp
    return None


COPYCTOR = ('at::Tensor', 'quantit::btensor', 'quantit::flat_map', 'quantit::any_quantity', 'quantit::any_quantity_vector', 'std::vector',
            'std::pair', 'std::tuple', 'c10::Scalar', 'c10::ArrayRef')


CONVS = {'quantit::any_quantity::operator quantit::vquantity &', 'quantit::any_quantity::operator const quantit::vquantity &',
         'quantit::any_quantity_cref::operator const quantit::vquantity &'}
IDENT = {'quantit::any_quantity::get', 'quantit::any_quantity::operator quantit::vquantity &',
         'quantit::any_quantity::operator const quantit::vquantity &', 'quantit::any_quantity_cref::operator const quantit::vquantity &',
         'quantit::any_quantity_cref::get', 'quantit::any_quantity_ref::get', 'std::move', 'std::forward', 'std::as_const'}


class Canon:
    """rewrites values so that equivalent ways of writing the same thing look the same"""

    def __init__(self, I):
        self.I = I
        self.memo = {}

    def __call__(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = r = self.go(t)
        return r

    def untouched(self, b, idx):
        """the container carried by the loop as b is not changed at other positions before position idx is read"""
        return False

    def elem_iter(self, it):
        """iterator value -> (container term, position) when it is a plain walk of one container"""
        if it[0] == 'phi':
            rec = self.I.phirec.get(it)
            if rec is None or it not in rec.get('init', {}):
                return None
            init = rec['init'][it]
            step = {e[2].get(it) for e in rec['ends']}
            if init[0] == 'begin' and step <= {add(it, ONE)}:
                return self.loc(init[1], init[2], rec['entry']), ('pos', it[1])
        if it[0] == 'elem' and it[1][0] == 'begin':
            return self.loc(it[1][1], it[1][2], None), ('pos', ('elem', it[1]))
        if it[0] == 'begin':
            return self.loc(it[1], it[2], None), ZERO
        return None

    def loc(self, root, path, st):
        v = st.env.get(root) if st is not None else None
        if v is None:
            v = ('sym', root[1]) if root[0] == 'o' else ('sym', root)
        for k in path:
            v = proj(v, k)
        return self(v)

    def closed(self, t):
        """affine in the iteration counters: every loop variable with a constant step becomes start + step * ('iter', loop)"""
        for _ in range(6):
            c, m = aff(t)
            hit = None
            for a in m:
                if a[0] == 'phi' and a in self.I.phirec and a[2] != 'idx':
                    rec = self.I.phirec[a]
                    steps = {sub(e[2].get(a, a), a) for e in rec['ends']}
                    if len(steps) == 1 and is_c(next(iter(steps))) and a in rec['init']:
                        hit = a, add(rec['init'][a], ('iter', a[1]), next(iter(steps))[1])
                        break
                elif a[0] == 'phi' and a[2] == 'idx':
                    hit = a, ('iter', a[1])
                    break
            if hit is None:
                return t
            t = add(sub(t, hit[0], m[hit[0]]) if False else add(t, hit[0], -m[hit[0]]), hit[1], m[hit[0]])
        return t

    def go(self, t):
        k = t[0]
        if k == 'get' and t[2][0] == 'i':
            b = t[1]
            while b[0] == 'phi' and b in self.I.phirec and self.untouched(b, t[2][1]):
                b = self.I.phirec[b]['init'][b]
            return ('at', self(strip_copies(b)), self(self.closed(t[2][1])))
        if k == 'get' and t[2][0] == 'f':
            f = FIELD.get(t[2][1], t[2][1])
            b = t[1]
            if f == 'value':
                c = self(b)
                return c
            if b[0] == 'deref' and f in ('get0', 'get1'):
                e = self.elem_iter(b[1])
                if e:
                    return ('E', e[0], e[1], f)
            b = self(b)
            if b[0] == 'at' and f in ('get0', 'get1') and b[2][0] == 'iter':
                return ('E', b[1], ('pos', b[2][1]), f)
            if b[0] == 'at' and f in ('get0', 'get1') and b[2][0] != 'key':
                return ('E', b[1], b[2], f)
            if b[0] in ('tuple', 'pair') and f[:3] == 'get' and f[3:].isdigit():
                return b[1][int(f[3:])]
            return ('get', b, ('f', f))
        if k == 'ctor':
            if t[1] in COPYCTOR and len(t[2]) == 1:
                return self(t[2][0])
            if t[1].startswith('property') and len(t[2]) == 1:
                return self(t[2][0])
            if t[1].startswith('quantit::any_quantity') and len(t[2]) == 1:
                return self(t[2][0])
            if t[1] in ('std::pair', 'std::tuple'):
                return ('tuple', tuple(self(x) for x in t[2]))
        if k == 'call':
            o = torch_op(t[1])
            a = tuple(self(x) for x in t[2])
            if len(a) == 1 and t[1] in IDENT:
                return a[0]
            if o:
                return ('op', o[0], a)
            if t[1] in ('std::make_pair', 'std::make_tuple'):
                return ('tuple', a)
            return ('call', t[1], a) + tuple(t[3:])
        if k == 'mut' and torch_op(t[1]) and torch_op(t[1])[1]:
            return ('op', torch_op(t[1])[0], tuple(self(x) for x in t[3]))
        if k == 'mut' and t[1].endswith('::operator=') and t[2] == 'obj' and len(t[3]) == 2 and t[1].startswith('quantit::any_quantity'):
            return self(t[3][1])
        if k == 'upd' and len(t[2]) == 1 and t[2][0][0] == ('f', 'value'):
            return self(t[2][0][1])
        if k == 'upd':
            b = self(t[1])
            return ('upd', b, tuple((self(kk), self(v)) for kk, v in t[2]))
        return tuple(self(x) if isinstance(x, tuple) else x for x in t)


class Norm:
    """Canon with every loop variable in closed form, sizes of the structural lists named by what they count, and renamings"""

    raw_sizes = False

    def __init__(self, I, C, ren=()):
        self.I, self.C, self.ren, self.memo = I, C, dict(ren), {}

    def __call__(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t not in self.memo:
            self.memo[t] = self.go(self.close(t))
        return self.memo[t]

    def close(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'phi' and len(t) == 3:
            r = self.C.closed(t)
            return self.close(r) if r != t else t
        if t[0] == 'aff':
            r = ('c', t[1])
            for a, k in t[2]:
                r = add(r, self.close(a), k)
            return r
        if t[0] in ('begin', 'L'):
            return t
        return tuple(self.close(x) if isinstance(x, tuple) else x for x in t)

    def go(self, t):
        return self.simp(self.C(t))

    def simp(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t in self.ren:
            return self.ren[t]
        if t[0] == 'aff':
            r = ('c', t[1])
            for a, k in t[2]:
                r = add(r, self.simp(a), k)
            return r
        if t[0] in ('begin', 'L', 'c', 'iter'):
            return t
        t = tuple(self.simp(x) if isinstance(x, tuple) else x for x in t)
        if t in self.ren:
            return self.ren[t]
        if t[:2] == ('call', 'size') and len(t[2]) == 1:
            x = strip_copies(t[2][0])
            if x[0] == 'get' and x[2] == ('f', 'sections_by_dim') and not self.raw_sizes:
                return self.simp(('get', x[1], ('f', 'rank')))
            if x[0] == 'ctor' and x[1] in ('std::vector', 'quantit::any_quantity_vector') and x[2] and x[2][0][0] != 'list' and len(x[2]) >= 2 and not vectorish(x[2][0]):
                return x[2][0]
            y = fixed_size(self.I, ('call', 'size', (x,)))
            if y != ('call', 'size', (x,)):
                return self(y)
        if t[0] == 'call' and t[1] == 'quantit::btensor::dim' and len(t[2]) == 1:
            return self.simp(('get', t[2][0], ('f', 'rank')))
        if t[0] == 'call' and t[1] == 'quantit::btensor::section_number' and len(t[2]) == 2:
            return ('at', ('get', t[2][0], ('f', 'sections_by_dim')), t[2][1])
        return t


def vectorish(t):
    return t[0] in ('begin', 'list') or t[0] == 'aff' and 'begin' in repr(t)


PUTS = ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint', 'emplace_back', 'push_back')


class Contrib:
    """one thing a loop iteration adds to a container: key and value, under the iteration's facts"""

    def __init__(self, key, val, facts, rec, pos=None):
        self.key, self.val, self.facts, self.rec, self.pos = key, val, facts, rec, pos


def put_kv(a):
    """arguments of an insertion -> (key, value)"""
    a = list(a)
    if a and (a[0][0] in ('begin', 'aff', 'phi', 'lb') and len(a) in (2, 3)) and 'begin' in repr(a[0])[:60]:
        a = a[1:]
    if len(a) == 1:
        p = a[0]
        while p[0] == 'ctor' and p[1] in ('std::pair', 'std::tuple') and len(p[2]) == 1:
            p = p[2][0]
        if p[0] == 'ctor' and p[1] in ('std::pair', 'std::tuple') and len(p[2]) == 2:
            return p[2]
        if p[0] == 'tuple' and len(p[1]) == 2:
            return p[1]
        return (proj(p, ('f', 'get0')), proj(p, ('f', 'get1')))
    if len(a) == 2:
        return a[0], a[1]
    return None


def strip_copies(t):
    while t[0] == 'ctor' and len(t[2]) == 1 and (t[1].startswith('quantit::flat_map') or t[1] in ('std::vector', 'quantit::btensor')):
        t = t[2][0]
    return t


def peel(t, name):
    """the insertions/updates that turned `name` into t; None when something else happened"""
    acc = []
    while t != name:
        if t[0] == 'mut' and t[1].split('::')[-1] in PUTS and t[2] == 'obj':
            kv = put_kv(t[3][1:])
            if kv is None:
                return None
            acc.append(('key', kv[0], kv[1]))
            t = t[3][0]
        elif t[0] == 'upd' and all(k[0] == 'i' for k, _ in t[2]):
            for k, v in t[2]:
                if k[1][0] == 'key':
                    acc.append(('key', k[1][1], v))
                else:
                    acc.append(('idx', k[1], v))
            t = t[1]
        elif t[0] == 'mut' and t[1].split('::')[-1] in ('reserve', 'shrink_to_fit') and t[2] == 'obj':
            t = t[3][0]
        else:
            return None
    return acc[::-1]


def contents(I, t):
    """container value -> (initial container, [per loop, per back edge: (facts, [('key'|'idx', key, value)])], complete)
    or None.  A container not built by a loop has no contributions."""
    t = strip_copies(t)
    layers = []
    for _ in range(4):
        if t[0] == 'mut' and t[1].split('::')[-1] in ('reserve', 'shrink_to_fit') and t[2] == 'obj':
            t = strip_copies(t[3][0])
            continue
        if t[0] == 'phi' and t in I.phirec:
            rec = I.phirec[t]
            its = []
            for log, facts, vals, st in rec['ends']:
                p = peel(vals.get(t, t), t)
                if p is None:
                    return None
                its.append((facts, p))
            for log, facts, vals, st in rec['exits']:
                if vals.get(t, t) != t:
                    return None
            layers.append((rec, its))
            t = strip_copies(rec['init'].get(t, t))
            continue
        break
    return t, layers


KEY, VAL = ('KEY',), ('VAL',)       # index and block of the element a walk is at


def steps(rec, nm):
    """constant step of a loop variable, or None"""
    r = {sub(e[2].get(nm, nm), nm) for e in rec['ends']}
    if len(r) == 1:
        x = next(iter(r))
        if is_c(x):
            return x[1]
    return None


def base_list(I, x):
    """the container before loops that only overwrite its elements"""
    for _ in range(8):
        x = strip_copies(x)
        if x[0] == 'phi' and x in I.phirec:
            rec = I.phirec[x]
            if x not in rec['init']:
                break
            ok = True
            for e in rec['ends']:
                v = strip_copies(e[2].get(x, x))
                if v[0] == 'phi' and v != x and v in I.phirec and I.phirec[v]['init'].get(v) == x:
                    r2 = I.phirec[v]
                    ps = [peel(f[2].get(v, v), v) for f in r2['ends']]
                else:
                    ps = [peel(v, x)]
                ok = ok and all(p is not None and all(q[0] == 'idx' for q in p) for p in ps)
            if ok:
                x = rec['init'][x]
                continue
        elif x[0] == 'upd' and all(k[0] == 'i' and k[1][0] != 'key' for k, _ in x[2]):
            x = x[1]
            continue
        break
    return x


def unphi(I, C, t):
    """elements of a container a loop overwrites in place -> elements of the container before the loop"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'phi' and t in I.phirec:
        b = base_list(I, t)
        return C(b) if b != t else t
    return tuple(unphi(I, C, x) if isinstance(x, tuple) else x for x in t)


def fixed_size(I, t):
    """sizes of containers whose elements a loop only overwrites are the sizes before the loop"""
    if not isinstance(t, tuple):
        return t
    if t[:2] == ('call', 'size') and len(t[2]) == 1:
        return ('call', 'size', (base_list(I, t[2][0]),))
    if t[0] == 'aff':
        r = ('c', t[1])
        for a, k in t[2]:
            r = add(r, fixed_size(I, a), k)
        return r
    return tuple(fixed_size(I, x) if isinstance(x, tuple) else x for x in t)


def walked(I, rec):
    """raw values of the containers the loop visits completely, from the first element to the last, without early exit"""
    if rec.get('rets'):
        return []
    if rec['kind'] == 'rfor':
        if len(rec['exits']) != 1:
            return []
        return [I.read(rec['entry'], rec['rng'])]
    if rec['kind'] == 'do' or not rec['exits']:
        return []
    cand = []
    for log, facts, vals, st in rec['exits']:
        for k, d in list(facts):
            for x in subterms(d):
                if x[:2] == ('call', 'size') and len(x[2]) == 1:
                    y = fixed_size(I, x)[2][0]
                    if (y, x) not in cand:
                        cand.append((y, x))
    for nm, init in rec['init'].items():
        if nm[0] == 'phi' and init[0] == 'begin' and steps(rec, nm) == 1:
            y = I.read(rec['entry'], (init[1], init[2]))
            x = I.size(rec['entry'], (init[1], init[2]))
            cand.append((fixed_size(I, x)[2][0] if x[:2] == ('call', 'size') else y, x))
    out = []
    for y, x in cand:
        for nm, init in rec['init'].items():
            if steps(rec, nm) != 1:
                continue
            if init[0] == 'begin' and fixed_size(I, ('call', 'size', (strip_fields(I.read(rec['entry'], (init[1], init[2]))),)))[2][0] != y:
                continue
            left = sub(sub(nm, init), x)        # from 0 in steps of one: the first value that is not below the size is the size
            if all(I.decide(st, ('eq0', left)) is True or I.decide(st, ('lt0', left)) is False for log, facts, vals, st in rec['exits']):
                out.append(y)
    return out


def sub_elems(t, site, conts):
    """elements of the walked container -> KEY / VAL"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'E' and t[2] == ('pos', site) and t[1] in conts:
        return KEY if t[3] == 'get0' else VAL if t[3] == 'get1' else t
    if t[0] == 'at' and t[2] == ('iter', site) and t[1] in conts:
        return ('tuple', (KEY, VAL))
    return tuple(sub_elems(x, site, conts) if isinstance(x, tuple) else x for x in t)


def compose(t, k, v):
    if t == KEY:
        return k
    if t == VAL:
        return v
    if not isinstance(t, tuple):
        return t
    return tuple(compose(x, k, v) if isinstance(x, tuple) else x for x in t)


def mapped(I, C, lst, alias=(), depth=3):
    """block list as the image of another one -> (canonical source list, [[(key, value)] per way through an iteration]) with
    KEY/VAL standing for the element of the source, or (None, why)"""
    al = lambda c: dict(alias).get(c, c)
    lst = strip_copies(lst)
    r = contents(I, lst)
    if r is None:
        return None, 'the block list of the result is not built by inserting into it'
    init, layers = r
    if not layers:
        return al(C(init)), [[(KEY, VAL)]]
    if depth == 0:
        return None, 'too many passes over the blocks'
    rec, its = layers[0]
    init = strip_copies(rec['init'].get(lst, init)) if lst[0] == 'phi' else init
    site = rec['site']
    kinds = {p[0] for f, ps in its for p in ps}
    if kinds == {'idx'}:
        src = init
        conts = {C(lst), C(init), al(C(init))}
        if not any(al(C(strip_copies(w))) in conts for w in walked(I, rec)):
            return None, 'the loop at line %s may skip some of the blocks' % rec['line']
        srcs = [src]
    elif kinds == {'key'}:
        if not empty_container(init):
            return None, 'the result does not start without blocks but from %s' % fmt(C(init), 4)
        srcs = [strip_copies(w) for w in walked(I, rec)]
        if not srcs:
            return None, 'the loop at line %s may skip some of the blocks' % rec['line']
        conts = None
    else:
        return None, 'no block is stored' if not kinds else 'blocks are inserted and overwritten in one loop'
    for src in srcs:
        cs = conts or {C(src), al(C(src))}
        inner, ims = mapped(I, C, src, alias, depth - 1)
        if inner is None:
            why = ims
            continue
        res = []
        for facts, ps in its:
            one = []
            for kind, k, v in ps:
                if kind == 'idx':
                    at = C.closed(k)
                    if k != ('phi', site, 'idx') and at != ('iter', site):
                        return None, 'a block at another position than the visited one is changed (line %s)' % rec['line']
                    e = C(v)
                    if v[0] == 'upd':
                        kv = {FIELD.get(kk[1], kk[1]): x for kk, x in v[2]}
                        if set(kv) - {'get0', 'get1'}:
                            return None, 'part of an element changes: %s' % fmt(v, 4)
                        kk, vv = C(kv['get0']) if 'get0' in kv else KEY, C(kv['get1']) if 'get1' in kv else VAL
                    elif e[0] == 'tuple' and len(e[1]) == 2:
                        kk, vv = e[1]
                    else:
                        return None, 'an element becomes %s' % fmt(e, 4)
                else:
                    kk, vv = C(k), C(v)
                one.append((sub_elems(kk, site, cs), sub_elems(vv, site, cs)))
            for im in ims:
                if len(im) != 1:
                    return None, 'an intermediate pass stores %d blocks per block' % len(im)
                res.append([(compose(k, *im[0]), compose(v, *im[0])) for k, v in one])
        return inner, res
    return None, why


def empty_container(t):
    t = strip_copies(t)
    while t[0] == 'mut' and t[1].split('::')[-1] in ('reserve', 'clear'):
        if t[1].endswith('clear'):
            return True
        t = strip_copies(t[3][0])
    if t[0] == 'ctor' and ('flat_map' in t[1] or 'allocator' in t[1] or 'vector' in t[1]):
        return all(x[0] == 'c' or empty_container(x) or (x[0] == 'call' and 'size' in x[1]) for x in t[2])
    return t in (('list', ()), ('obj', 'quantit::flat_map'))


def full_walk(I, C, rec, src):
    """the loop visits every element of the container with canonical value src, without early exit"""
    if rec.get('rets'):
        return False
    if rec['kind'] == 'rfor':
        r = C.loc(rec['rng'][0], rec['rng'][1], rec['entry'])
        return len(rec['exits']) == 1 and (r == src or src == ('get', r, ('f', 'blocks_list')))
    for nm, init in rec['init'].items():
        e = C.elem_iter(nm) if nm[0] == 'phi' else None
        if e and e[0] == src:
            end = add(init, I.size(rec['entry'], (init[1], init[2])))
            for log, facts, vals, st in rec['exits']:
                if I.decide(st, ('eq0', sub(nm, end))) is not True:
                    return False
            return True
    return False
