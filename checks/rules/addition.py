"""Sums and differences of block tensors (A11)."""
from rules.transforms import *

ADDERS = {BTQ + x for x in ('add', 'add_', 'sub', 'sub_', 'subtract', 'subtract_', 'add_tensor_check', 'test_same_shape', 'operator+=', 'operator-=',
                            'operator+', 'operator-')} | {'quantit::' + x for x in ('operator+', 'operator-', 'add', 'add_', 'sub', 'sub_')}
OWN, OTH, NEW = (('o', x) for x in ('OWN', 'OTH', 'NEW'))
SELF = {('o', x): ('sym', x) for x in ('OWN', 'OTH', 'NEW')}


class MC(BT):
    """merging two block lists: what the callbacks do to (own block, other block) and to a copied block"""

    def map_call(self, s, e, n, ol, args):
        if n != 'merge' or len(args) < 3:
            return super().map_call(s, e, n, ol, args)
        v = tuple(self.argval(s, a) for a in args)
        old = self.read(s, ol)
        res = []
        for roots, fv in (((OWN, OTH), v[1]), ((NEW,), v[2])):
            s2 = s.copy()
            for r in roots:
                s2.env[r] = ('sym', r[1])
            keep = {r: x for r, x in s2.env.items()}
            outs = []
            for s3, _ in self.call_value(s2, fv, [('l', (r, ())) for r in roots], e):
                new = tuple(sorted(((k, val) for k, val in s3.facts.items() if k not in s.facts), key=repr))
                other = tuple(r for r, x in s3.env.items() if r in keep and r not in roots and r[0] == 'o' and x != keep[r])
                outs.append((new, tuple(s3.env.get(r) for r in roots), other))
            res.append(tuple(outs))
        s.event('put', ol, v, e.get('l'), n)
        self.write(s, ol, ('merged', old, v[0], res[0], res[1]), e)
        return [(s, ('LOC', ol))]


def strip_conv(t):
    """drop the conversions of a quantity to its interface"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(strip_conv(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'call' and len(t[2]) == 1 and isinstance(t[1], str) and ('vquantity &' in t[1] or t[1] in IDENT):
        return t[2][0]
    return t


def whole_list(b, e):
    """the member whose beginning and end the iterators are"""
    if len(b) > 2 and b[0] == 'begin' and b[1][0] == 'o' and len(b[2]) == 1:
        x = ('get', ('sym', b[1][1]), b[2][0])
        if sub(e, b) == ('call', 'size', (x,)) or b[2][0] == ('f', 'sections_by_dim') and sub(e, b) == ('get', x[1], ('f', 'rank')):
            return x
    return None


def same(L, a, b):
    """do the literals say that a equals b?  True / False / None"""
    for (k, d), v in L.items():
        d = strip_conv(d)
        if k == 'eq0' and d[0] == 'call' and len(d[2]) == 2 and set(d[2]) == {a, b} and a != b:
            n = d[1].split('::')[-1]
            if n == 'operator==':
                return not v
            if n == 'operator!=':
                return v
        if k == 'eq0' and d[0] == 'call' and d[1] == 'std::equal' and len(d[2]) == 4 and a[0] == b[0] == 'get':      # both lists from end to end
            h = [whole_list(d[2][i], d[2][i + 1]) for i in (0, 2)]
            if set(h) == {a, b}:
                return not v
    return eq_lit({(k, strip_conv(d)): v for (k, d), v in L.items()}, a, b)


COMPAT = ('c_vals', 'selection_rule', 'sections_sizes', 'sections_by_dim')


def factor(t):
    """scalar up to notation: (sign, atom)"""
    sg = 1
    while True:
        if t[0] == 'ctor' and t[1] in ('c10::Scalar',) and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == 'call' and t[1] in ('c10::Scalar::operator-', 'operator-') and len(t[2]) == 1:
            sg, t = -sg, t[2][0]
        else:
            break
    if t[0] == 'c':
        return (1, ('c', t[1] * sg))
    if t[0] == 'aff':
        c, m = aff(t)
        if c == 0 and len(m) == 1:
            (a, k), = m.items()
            if k == -1:
                return (-sg, a)
    return (sg, t)


def nop(t):
    """block value up to notation -> ('sum', base, (sign, factor), addend) / ('times', x, factor) / ..."""
    t = norm(t)
    return t


def is_times(v, x, al):
    """v is al * x"""
    if v == x:
        return al == (1, ('c', 1))
    if v[0] == 'op' and v[1] == 'mul' and len(v[2]) == 2:
        a, b = v[2]
        for p, q in ((a, b), (b, a)):
            if p == x and factor(q) == al:
                return True
    if v[0] == 'op' and v[1] == 'neg' and v[2] == (x,):
        return al == (1, ('c', -1))
    return False


def is_sum(v, a, b, al):
    """v is a + al * b"""
    if v[0] != 'op' or v[1] not in ('add', 'sub'):
        return False
    x = v[2]
    one = ('c', 1)
    f = factor(x[2]) if len(x) > 2 else (1, one)
    if v[1] == 'sub':
        f = factor(('c', -f[1][1])) if f[1][0] == 'c' else (-f[0], f[1])
    if x[0] == a and (x[1] == b and f == al or f == (1, one) and is_times(x[1], b, al)):
        return True
    return f == (1, one) and x[1] == a and is_times(x[0], b, al) and v[1] == 'add'


def in_place(v):
    """the storage a chain of in-place operations writes to, or None"""
    hit = None
    while v[0] == 'mut' and torch_op(v[1]) and torch_op(v[1])[1]:
        v = hit = v[3][0]
    return hit


def refcap(facts, x):
    """largest number of owners of block x the path admits"""
    for (k, d), v in facts:
        if k == 'lt0':
            # c - refcount < 0 is false: refcount <= c
            c, m = aff(d)
            if len(m) == 1:
                (a, q), = m.items()
                if a[0] == 'call' and a[1].endswith('get_refcount') and a[2] == (x,):
                    if q == -1 and not v:
                        return c
                    if q == 1 and v:
                        return -c - 1
        if k == 'eq0' and v:
            c, m = aff(d)
            if len(m) == 1:
                (a, q), = m.items()
                if a[0] == 'call' and a[1].endswith('get_refcount') and a[2] == (x,):
                    return abs(c)
    return None


def a11(ctx):
    F = load(['btensor.cpp'], True)
    n = 0

    def fns(q, k):
        return [f for f in F.q(q) if k(f)]

    def check(fn, a, b, al, inplace):
        """fn computes a + al*b; a, b names of the operand symbols"""
        nonlocal n
        tag = fn.sig()
        R = Run(F, fn, ADDERS, MC)
        I, C, N = R.I, R.C, R.N
        w = W(fn)
        ob = lambda nm, ok, why='': ctx.ob('%s: %s' % (nm, tag), ok, w, why, key='%s|%s' % (nm, tag))
        A, B = ('sym', a), ('sym', b)
        rets = [(s, v) for s, k, v in R.outs if k == 'return']
        if not ob('has a normal outcome', bool(rets), 'it never returns normally'):
            return
        rv = b != 'this' and '&&' in dict(zip([p['n'] for p in fn.params], fn.ptypes())).get(b, '')
        for s, v in rets:
            n += 1
            L = R.lits(s.facts)
            for m in COMPAT:
                ob('the sum is computed only where %s agree' % m, same(L, ('get', A, ('f', m)), ('get', B, ('f', m))) is True,
                   'a path returns without having found them equal')
            cur = s.env.get(('o', a), A)
            res = strip_copies(cur if inplace else value(I, s, v))
            if inplace:
                ob('returns the tensor it changed', v is not None and v[0] == 'l' and v[1] == (('o', a), ()), 'it returns %s' % fmt(C(value(I, s, v)), 3))
            else:
                ob('the first operand is unchanged', cur == A, 'it becomes %s' % fmt(C(cur), 4))
            if not rv:
                ob('the second operand is unchanged', s.env.get(('o', b), B) == B, 'it becomes %s' % fmt(C(s.env.get(('o', b), B)), 4))
            lst = strip_copies(proj(res, ('f', 'blocks_list')))
            if not ob('the two block lists are merged', lst[0] == 'merged', 'the blocks are %s' % fmt(C(lst), 4)):
                continue
            _, own, oth, coll, new = lst
            oth = N(strip_copies(oth))
            srcs = {x: ('get', x, ('f', 'blocks_list')) for x in (A, B)}
            at, ims = mapped(I, C, own, [(A, srcs[A])])
            fresh = False
            if at == srcs[A] and oth == srcs[B]:
                good = all(len(im) == 1 and im[0][0] == KEY and (im[0][1] == VAL or im[0][1][0] == 'op' and im[0][1][1] == 'clone' and im[0][1][2][0] == VAL) for im in ims)
                fresh = all(len(im) == 1 and im[0][1] != VAL for im in ims)
                ob('blocks only the first operand has are kept', good, 'they become %s' % ', '.join(fmt(im, 4) for im in ims))
            else:
                ob('the blocks merged are those of the operands, in order', False, 'merges %s into %s' % (fmt(oth, 4), fmt(at, 4) if at else ims))
                continue
            if not inplace:
                ob('the result shares no block with the first operand', fresh, 'blocks of the first operand are stored without a copy')
            for facts, (x, y), more in coll:
                ob('blocks both have are added with the factor', is_sum(norm(C(x)), ('sym', 'OWN'), ('sym', 'OTH'), al), 'the block becomes %s' % fmt(norm(C(x)), 5))
                if not inplace and in_place(x) == ('sym', 'OWN'):
                    ob('blocks changed in place are copies', fresh, "the first operand's blocks are changed in place")
                ob("the other tensor's block is not changed", y == ('sym', 'OTH') and not more, 'it becomes %s' % fmt(C(y), 4))
            for facts, (x,), more in new:
                ob('blocks only the second operand has are multiplied with the factor', is_times(norm(C(x)), ('sym', 'NEW'), al), 'the block becomes %s' % fmt(norm(C(x)), 5))
                own_storage = x == ('sym', 'NEW') or in_place(x) == ('sym', 'NEW')
                cap = refcap([((k, strip_copies_all(N(d))), v2) for (k, d), v2 in facts], ('sym', 'NEW'))
                ob("the other tensor's storage is not changed or shared", not own_storage or rv and cap is not None and cap <= 2 or inplace_ok(x, rv),
                   'the copied block still is the block of the other tensor' + ('' if cap is None else ' when it has up to %s owners' % cap))
                ob('nothing else changes', not more, str(more))
            for m in META:
                x = N(proj(res, ('f', m)))
                ok = x == ('get', A, ('f', m)) or m in COMPAT and x == ('get', B, ('f', m))
                ob("the result has the operands' %s" % m, ok, 'it is %s' % fmt(x, 4))
            o = last_opt(proj(res, ('f', '_options')))
            if inplace:
                ob('the options are those of the tensor', C(o) == ('get', A, ('f', '_options')) or is_block_option(I, C, s, o, lst), 'options %s' % fmt(C(o), 4))
            elif known_size(s.facts, lst) != 'empty':
                ob('the options are those of a stored block', is_block_option(I, C, s, o, lst), 'options %s' % fmt(C(o), 4))
        for s, k, v in R.outs:
            if k != 'throw':
                continue
            n += 1
            L = R.lits(s.facts)
            ob('refused only where the structures differ', any(same(L, ('get', A, ('f', m)), ('get', B, ('f', m))) is False for m in COMPAT),
               'a path throws although nothing was found to differ')
            for r in (a, b):
                ob('nothing is changed when refused', s.env.get(('o', r), ('sym', r)) == ('sym', r), '%s becomes %s' % (r, fmt(C(s.env.get(('o', r))), 4)))

    def inplace_ok(x, rv):
        return False

    def strip_copies_all(t):
        return t

    bt = lambda f, i: i < len(f.params) and is_bt(f.ptypes()[i])
    seen = 0
    for nm in ('add', 'sub', 'subtract'):
        for suf in ('', '_'):
            fs = fns(BTQ + nm + suf, lambda f: bt(f, 0))
            ctx.need(fs or nm == 'subtract', 'btensor::%s not found' % (nm + suf))
            for f in fs:
                al = (1, pval(f, 1)) if len(f.params) > 1 else (1, ('c', 1))
                if nm != 'add':
                    al = (-1, al[1]) if al[1][0] != 'c' else (1, ('c', -1))
                check(f, 'this', f.params[0]['n'], al, bool(suf))
                seen += 1
    for nm, sg in (('operator+=', 1), ('operator-=', -1)):
        for f in fns(BTQ + nm, lambda f: bt(f, 0)):
            check(f, 'this', f.params[0]['n'], (1, ('c', sg)), True)
            seen += 1
    for q in ('quantit::', BTQ):
        for nm, sg in (('operator+', 1), ('operator-', -1)):
            for f in F.q(q + nm):
                ops = ([] if q == 'quantit::' else ['this']) + [p['n'] for p, t in zip(f.params, f.ptypes()) if is_bt(t)]
                if len(ops) == 2 and len(f.params) == (2 if q == 'quantit::' else 1):
                    check(f, ops[0], ops[1], (1, ('c', sg)), False)
                    seen += 1
        for nm in ('add', 'add_', 'sub', 'sub_'):
            for f in F.q('quantit::' + nm):
                if q == 'quantit::' and len(f.params) in (2, 3) and bt(f, 0) and bt(f, 1):
                    al = pval(f, 2) if len(f.params) > 2 else ('c', 1)
                    sg = 1 if nm.startswith('add') else -1
                    check(f, f.params[0]['n'], f.params[1]['n'], (sg, al) if al[0] != 'c' else (1, ('c', sg)), nm.endswith('_'))
                    seen += 1
    # with a scalar: every allowed block of the tensor, filled, plus the tensor
    for nm in ('add', 'sub', 'subtract', 'operator+=', 'operator-='):
        for suf in ('', '_'):
            if nm.startswith('op') and suf:
                continue
            for f in fns(BTQ + nm + suf, lambda f: f.params and not is_bt(f.ptypes()[0])):
                scalar_add(ctx, F, f, nm, bool(suf) or nm.startswith('op'))
    # the comparison of structures
    for f in F.q(BTQ + 'test_same_shape'):
        R = Run(F, f, set(), BT)
        a, b = (('sym', p['n']) for p in f.params)
        for s, v, L in R.rets():
            t = [same(L, ('get', a, ('f', m)), ('get', b, ('f', m))) for m in COMPAT]
            if v[0] != 'c':
                ctx.ob('test_same_shape: answers', False, W(f), 'returns %s' % fmt(v, 4))
            elif v[1]:
                ctx.ob('test_same_shape: true only where all agree', all(x is True for x in t), W(f), 'returns true without comparing ' + ', '.join(m for m, x in zip(COMPAT, t) if x is not True))
            else:
                ctx.ob('test_same_shape: false only where something differs', any(x is False for x in t), W(f), 'returns false although nothing differs')
        ctx.ob('test_same_shape: always answers', not R.throws(), W(f), 'it can throw')
    ctx.need(F.q(BTQ + 'test_same_shape'), 'btensor::test_same_shape not found')
    for f in F.q('quantit::detail_mul') + F.q('quantit::Scalar_mul'):
        R = Run(F, f, set(), BT)
        want = tuple(sorted([pval(f, 0), pval(f, 1)], key=repr))
        rets = R.rets()
        ctx.ob('product of two numbers: answers: %s' % f.sig(), bool(rets), W(f), 'it never returns')
        for s, v, L in rets:
            ctx.ob('product of two numbers: %s' % f.sig(), num_product(v) == want, W(f), 'returns %s' % fmt(v, 5))
    ctx.meta['outcomes'] = n


def num_product(t):
    """the factors of a product of converted numbers"""
    while t[0] == 'ctor' and len(t[2]) == 1 or t[0] == 'call' and t[1] == 'c10::Scalar::to' and len(t[2]) == 1:
        t = t[2][0]
    if t[0] == 'call' and len(t[2]) == 2 and t[1].split('::')[-1] in ('operator*', 'detail_mul', 'Scalar_mul'):
        return tuple(sorted(num_product(t[2][0]) + num_product(t[2][1]), key=repr))
    if t[0] == 'bin' and t[1] == '*':
        return tuple(sorted(num_product(t[2]) + num_product(t[3]), key=repr))
    if t[0] == 'mul' and len(t) == 3:
        return tuple(sorted(num_product(t[1]) + num_product(t[2]), key=repr))
    return (t,)


def product(t):
    """scalar product up to order and sign: (sign, factors without 1) """
    sg, x = factor(t)
    if x[0] == 'call' and len(x[2]) == 2 and x[1].split('::')[-1] in ('Scalar_mul', 'operator*', 'detail_mul'):
        (a, p), (b, q) = product(x[2][0]), product(x[2][1])
        return sg * a * b, tuple(sorted(p + q, key=repr))
    if x[0] == 'c':
        v = x[1] * sg
        return (-1 if v < 0 else 1), (() if abs(v) == 1 else (('c', abs(v)),))
    return sg, (x,)


def scalar_add(ctx, F, fn, nm, inplace):
    """adding a number: every allowed block, filled with the number, plus the tensor"""
    tag = fn.sig()
    R = Run(F, fn, ADDERS, MC)
    I, C, N = R.I, R.C, R.N
    w = W(fn)
    ob = lambda x, ok, why='': ctx.ob('%s: %s' % (x, tag), ok, w, why, key='%s|%s' % (x, tag))
    sg = 1 if nm in ('add', 'operator+=') else -1
    want = (sg, tuple(sorted([pval(fn, i) for i in range(len(fn.params))], key=repr)))
    srcT = ('get', T, ('f', 'blocks_list'))
    rets = [(s, v) for s, k, v in R.outs if k == 'return']
    ob('has a normal outcome', bool(rets), 'it never returns normally')

    def full(x):
        x = strip_copies(x)
        return x[0] == 'call' and x[1] == 'quantit::full_like' and strip_copies(x[2][0]) == T and product(x[2][1]) == want and \
            (len(x[2]) < 3 or strip_conv(x[2][2]) in (('ctor', 'c10::TensorOptions', ()), ('get', T, ('f', '_options'))) or x[2][2] == ('list', ()))
    for s, v in rets:
        cur = s.env.get(('o', 'this'), T)
        res = strip_copies(cur if inplace else value(I, s, v))
        if inplace:
            ob('returns the tensor it changed', v is not None and v[0] == 'l' and v[1] == (('o', 'this'), ()), 'it returns something else')
        else:
            ob('the operand is unchanged', cur == T, 'it becomes %s' % fmt(C(cur), 4))
        lst = strip_copies(proj(res, ('f', 'blocks_list')))
        if not ob('the tensor and the number are merged', lst[0] == 'merged', 'the blocks are %s' % fmt(C(lst), 4)):
            continue
        _, own, oth, coll, new = lst
        got = []
        for x in (own, oth):
            x = strip_copies(x)
            at, ims = mapped(I, C, x, [(T, srcT)])
            if at == srcT:
                got.append('this')
            else:
                y = C(x) if at is None else at
                y = strip_copies(y)
                y = strip_copies(y[1]) if y[0] == 'get' and y[2] == ('f', 'blocks_list') else y
                got.append('number' if full(y) else 'something else: %s' % fmt(y, 5))
        ob('the operands are the tensor and every allowed block filled with the number', sorted(got) == ['number', 'this'], 'merges %s' % ' and '.join(got))
        one = (1, ('c', 1))
        for facts, (x, y), more in coll:
            ob('the number is added to each block', is_sum(norm(C(x)), ('sym', 'OWN'), ('sym', 'OTH'), one) or is_sum(norm(C(x)), ('sym', 'OTH'), ('sym', 'OWN'), one), 'the block becomes %s' % fmt(norm(C(x)), 5))
            if not inplace and got[0] == 'this':
                ob('blocks changed in place are copies', in_place(x) != ('sym', 'OWN'), "the operand's blocks are changed in place")
        for facts, (x,), more in new:
            ob('further blocks are kept', is_times(norm(C(x)), ('sym', 'NEW'), one), 'the block becomes %s' % fmt(norm(C(x)), 5))
        o = strip_copies(res)
        for m in META:
            x = C(proj(o, ('f', m)))
            ok = x == ('get', T, ('f', m)) or x[0] == 'get' and x[2] == ('f', m) and full(x[1])
            ob("the result has the operand's %s" % m, ok, 'it is %s' % fmt(x, 4))
