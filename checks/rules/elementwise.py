"""Element-wise operations of block tensors: by a scalar or of one tensor (A06), broadcasting (A07)."""
from rules.tensors import *

def W(fn):
    return "%s %s" % (fn.loc, fn.q)


APPLY = {BTQ + x for x in ('new_block_list_apply_to_all_blocks', 'new_block_list_apply_to_all_blocks_mod_index', 'apply_to_all_blocks',
                           'apply_to_all_blocks_mod_index', 'force_inplace_apply_to_all_blocks', 'force_inplace_apply_to_all_blocks_mod_index',
                           'btensor')} | {'quantit::sparse_zeros_like'}
BOOL = ('c', 11)         # c10::ScalarType::Bool
META = ('rank', 'sections_by_dim', 'sections_sizes', 'c_vals', 'selection_rule')
MIRROR = {'gt': 'lt', 'ge': 'le'}
COMM = {'eq', 'ne', 'mul', 'add'}
CMP = {'le', 'ge', 'eq', 'lt', 'gt', 'ne', 'isnan'}


def norm(t):
    """equivalent torch expressions get one form"""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(norm(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'ctor' and t[1] in ('c10::Scalar', 'c10::TensorOptions') and len(t[2]) == 1:
        return t[2][0]
    if t[0] == 'op':
        n, a = t[1], t[2]
        if n in ('contiguous', 'alias'):
            return a[0]
        if n == 'neg':
            n, a = 'mul', (a[0], ('c', -1))
        if n in MIRROR and len(a) == 2:
            n, a = MIRROR[n], (a[1], a[0])
        if n in COMM and len(a) == 2:
            a = tuple(sorted(a, key=repr))
        return ('op', n, a)
    return t


def rebase(t, pairs):
    """replace containers"""
    if not isinstance(t, tuple):
        return t
    for a, b in pairs:
        if t == a:
            return b
    return tuple(rebase(x, pairs) if isinstance(x, tuple) else x for x in t)


def known_size(facts, lst):
    """None / 'empty' / 'nonempty' """
    for (k, d), v in facts.items():
        if d[0] == 'call' and d[1] == 'empty' and k == 'eq0' and strip_copies(d[2][0]) == lst:
            return 'nonempty' if v else 'empty'
        c, m = aff(d)
        if len(m) != 1:
            continue
        (a, n), = m.items()
        if not (a[0] == 'call' and a[1] == 'size' and strip_copies(a[2][0]) == lst) or abs(n) != 1:
            continue
        if k == 'eq0':
            if c == 0:
                return 'empty' if v else 'nonempty'
            if v and -c * n > 0:
                return 'nonempty'
        elif k == 'lt0' and n < 0:
            # c - size < 0
            if v and c >= 0:
                return 'nonempty'
            if not v and c == 0:
                return 'empty'
        elif k == 'lt0':
            # c + size < 0
            if v and c == -1:
                return 'empty'
            if not v and c < 0:
                return 'nonempty'
    return None


def last_opt(t):
    """the options that win in a chain of merge_in"""
    while t[0] == 'call' and t[1].split('::')[-1] in ('merge_in', 'merge_memory_format') and len(t[2]) == 2:
        t2 = t[2][1]
        if t2 == ('ctor', 'c10::TensorOptions', ()):
            t = t[2][0]
        else:
            t = t2
    return t


def mentions(t, what):
    return what in repr(t)


def eachblock(ctx, I, C, fn, s, res, operand, expect, inplace, boolean, tag, opts=True, same_type=False):
    """one outcome of an elementwise operation"""
    where = W(fn)
    ob = lambda n, ok, why: ctx.ob('%s: %s' % (n, tag), ok, where, why, key='%s|%s' % (n, tag))
    src = ('get', operand, ('f', 'blocks_list'))
    lst = strip_copies(proj(res, ('f', 'blocks_list')))
    sizes = (known_size(s.facts, lst), known_size({(k, C(d)): v for (k, d), v in s.facts.items()}, src))
    at, ims = mapped(I, C, lst, [(operand, src)])
    if not ob('every stored block is visited', at is not None, ims):
        return
    ob('the blocks come from the operand', at == src, 'they come from %s' % fmt(at, 4))
    why = 'nothing is stored'
    good = bool(ims)
    exp = [norm(x) for x in expect(VAL)]
    for im in ims:
        if len(im) != 1:
            good, why = False, 'an iteration stores %d blocks' % len(im)
            break
        k, v = im[0]
        if k != KEY:
            good, why = False, 'the block is stored at %s instead of its own index' % fmt(k, 5)
            break
        if norm(v) not in exp and not (v == VAL and 'empty' in sizes):
            good, why = False, 'the stored block is %s, expected %s' % (fmt(norm(v), 5), fmt(exp[0], 5))
            break
    ob('each block is the operation applied to the operand\'s block', good, why)
    for m in META:
        v = C(proj(res, ('f', m)))
        ob('the result keeps the operand\'s %s' % m, v == C(('get', operand, ('f', m))), 'it is %s' % fmt(v, 5))
    if not opts:
        return
    o = last_opt(proj(res, ('f', '_options')))
    if boolean:
        ob('options are boolean', mentions(o, 'kBool') or o == ('ctor', 'c10::TensorOptions', (BOOL,)) or o == BOOL, 'options %s' % fmt(o, 5))
    elif inplace:
        ok = C(o) == ('get', operand, ('f', '_options')) or is_block_option(I, C, s, o, lst, inplace)
        ob('options describe the blocks', ok, 'options %s' % fmt(C(o), 5))
    elif same_type and C(o) == ('get', operand, ('f', '_options')):
        ob('options describe the blocks', True, '')
    elif 'empty' not in sizes:
        ob('options describe the blocks', is_block_option(I, C, s, o, lst) or would_be_block(C(o), src, expect), 'options %s are not those of the new blocks' % fmt(C(o), 5))


def would_be_block(o, src, expect):
    """o is the options of the operation applied to some block of the operand"""
    if not (o[0] == 'op' and o[1] == 'options' and len(o[2]) == 1):
        return False
    es = []

    def find(t):
        if isinstance(t, tuple):
            if len(t) == 4 and t[0] == 'E' and t[1] == src and t[3] == 'get1':
                es.append(t)
            else:
                for x in t:
                    find(x)
    find(o)
    return any(norm(o[2][0]) in [norm(x) for x in expect(e)] for e in es)


def block_in(o, lst):
    """o is the options of a tensor the iteration stores in the list"""
    while o[0] == 'ctor' and o[1] == 'c10::TensorOptions' and len(o[2]) == 1:
        o = o[2][0]
    return o[0] == 'call' and o[1].split('::')[-1] == 'options' and len(o[2]) == 1 and lst is not None and o[2][0] in subterms(lst)


def is_block_option(I, C, s, o, lst, inplace=False):
    """o is the options of an element of the list lst"""
    if o[0] == 'phi' and o in I.phirec:
        # the options of every visited block, in turn
        rec = I.phirec[o]
        ws = [strip_copies(w) for w in walked(I, rec)]
        if not any(w in (lst, strip_copies(rec['init'].get(lst, lst))) or C(w) == C(lst) for w in ws) or any(rec['rets']):
            return False
        nvs = [e[2] for e in rec['ends']]
        return bool(nvs) and all(block_in(nv[o], nv.get(lst)) for nv in nvs if o in nv) and all(o in nv for nv in nvs)
    while o[0] == 'ctor' and o[1] == 'c10::TensorOptions' and len(o[2]) == 1:
        o = o[2][0]
    if not (o[0] == 'call' and o[1].split('::')[-1] == 'options' and len(o[2]) == 1):
        return False
    t = o[2][0]
    if not (t[0] == 'get' and FIELD.get(t[2][1], t[2][1]) == 'get1'):
        return False
    b = t[1]
    if b[0] == 'deref' and b[1][0] == 'begin':
        v = s.env.get(b[1][1])
        if v is None:
            return False
        for k in b[1][2]:
            v = proj(v, k)
        return strip_copies(v) == lst
    if b[0] == 'get' and b[2][0] == 'i':
        return strip_copies(b[1]) == lst
    return False


SHARES = {'contiguous', 'alias', 'view', 'reshape', 'squeeze', 'unsqueeze', 'permute', 'transpose', 'to', 'detach', 'expand', 'index', 't',
          'slice', 'narrow', 'select', 'conj', 'real', 'flatten', 'view_as', 'expand_as', 'reshape_as', 'swapaxes', 'resolve_conj', 'type_as'}


def storage(C, v):
    """the tensor whose storage v may share"""
    v = C(v)
    while v[0] == 'op' and v[1] in SHARES and v[2]:
        v = v[2][0]
    return v


class EW(BT):
    """records the torch tensors that are changed in place"""

    def __init__(self, F, deep=()):
        super().__init__(F, deep)
        self.changed = []

    def on_write(self, st, loc, v, node):
        super().on_write(st, loc, v, node)
        if v[0] == 'mut' and v[3] and torch_op(v[1]) and torch_op(v[1])[1]:
            b = v[3][0]
            while b[0] == 'mut' and b[3] and torch_op(b[1]) and torch_op(b[1])[1]:
                b = b[3][0]
            self.changed.append((b, (node or {}).get('l')))


def block_of(C, v, operand):
    """v is a block the operand holds"""
    v = storage(C, v)
    return v[0] == 'E' and strip_copies(v[1]) in (operand, ('get', operand, ('f', 'blocks_list')))


def run_outs(ctx, F, fn, deep, args=None):
    I = EW(F, deep)
    outs = I.analyse(fn, args) if args else I.analyse(fn)
    return I, Canon(I), outs


def pval(fn, i):
    return ('sym', fn.params[i]['n'] or '#%d' % i)


def is_bt(ty):
    return 'btensor' in ty and 'Scalar' not in ty


SCALAR_OPS = {'mul': 'mul', 'div': 'div', 'pow': 'pow', 'le': 'le', 'ge': 'ge', 'eq': 'eq', 'less': 'lt', 'greater': 'gt', 'not_equal': 'ne'}
UNARY = {'sqrt': 'sqrt', 'abs': 'abs', 'isnan': 'isnan', 'conj_only': 'conj'}
SYMBOL = {'operator*': 'mul', 'operator/': 'div', 'operator<': 'lt', 'operator>': 'gt', 'operator<=': 'le', 'operator>=': 'ge',
          'operator==': 'eq', 'operator!=': 'ne'}


def a06(ctx):
    F = load(['btensor.cpp'], True)
    members = {BTQ + n + x for n in list(SCALAR_OPS) + list(UNARY) for x in ('', '_')} | {BTQ + 'to'} | \
        {BTQ + o + '=' for o in ('operator*', 'operator/')} | {'quantit::' + n for n in list(SCALAR_OPS) + list(UNARY)} | \
        {BTQ + 'operator-', BTQ + 'options'}
    deep = APPLY | members | {'quantit::' + n + '_' for n in list(SCALAR_OPS) + list(UNARY)}
    n = 0

    def do(fn, operand, expect, inplace, boolean, opts=True):
        nonlocal n
        tag = fn.sig()
        I, C, outs = run_outs(ctx, F, fn, deep)
        rets = [(s, value(I, s, v), v) for s, k, v in outs if k == 'return']
        ctx.ob('has a normal outcome: %s' % tag, bool(rets), W(fn), 'it never returns normally')
        for s, val, raw in rets:
            n += 1
            cur = C(s.env.get(('o', operand[1]), operand))
            same = fn.name in ('conj_only', 'conj')
            if inplace:
                st = s.env.get(('o', operand[1]), operand)
                eachblock(ctx, I, C, fn, s, st, operand, expect, True, boolean, tag, opts)
                ctx.ob('returns the tensor it changed: %s' % tag, raw is not None and raw[0] == 'l' and raw[1][0] == ('o', operand[1]) and not raw[1][1],
                       W(fn), 'it returns %s' % fmt(C(val), 3))
            else:
                eachblock(ctx, I, C, fn, s, val, operand, expect, False, boolean, tag, opts, same)
                ctx.ob('operand is unchanged: %s' % tag, cur == operand, W(fn), 'the operand becomes %s' % fmt(cur, 4))
        if not inplace:
            hit = [l for b, l in I.changed if block_of(C, b, operand)]
            ctx.ob("operand's blocks are not changed in place: %s" % tag, not hit, W(fn),
                   'line %s changes a tensor that shares the storage of a block of the operand' % (hit and hit[0]))

    def op(name, *a):
        return ('op', name, tuple(a))
    T = ('sym', 'this')
    for nm, o in SCALAR_OPS.items():
        for inp in (False, True):
            fs = [f for f in F.q(BTQ + nm + ('_' if inp else '')) if f.params and not is_bt(f.ptypes()[0])]
            if not inp or nm in ('mul', 'div', 'pow'):
                ctx.need(fs, 'btensor::%s(Scalar) not found' % (nm + ('_' if inp else '')))
            for f in fs:
                do(f, T, lambda x, f=f, o=o: [op(o, x, pval(f, 0))], inp, o in CMP)
    for nm, o in UNARY.items():
        for inp in (False, True):
            fs = F.q(BTQ + nm + ('_' if inp else ''))
            ctx.need(fs or inp, 'btensor::%s not found' % nm)
            for f in fs:
                do(f, T, lambda x, o=o: [op(o, x)], inp, o in CMP)
    for f in F.q(BTQ + 'operator-'):
        do(f, T, lambda x: [op('mul', x, ('c', -1))], False, False)
    for sy, o in (('operator*=', 'mul'), ('operator/=', 'div')):
        for f in F.q(BTQ + sy):
            if f.params and not is_bt(f.ptypes()[0]):
                do(f, T, lambda x, f=f, o=o: [op(o, x, pval(f, 0))], True, False)
    tos = F.q(BTQ + 'to')
    ctx.need(len(tos) >= 4, 'btensor::to not found')
    for f in tos:
        ps = [pval(f, i) for i in range(len(f.params))]
        if is_bt(f.ptypes()[0]):
            ps[0] = ('get', ps[0], ('f', '_options'))
        do(f, T, lambda x, ps=ps: [op('to', x, *ps)], False, False)
    # free functions and operators
    free = dict(SCALAR_OPS)
    free.update(SYMBOL)
    for nm, o in free.items():
        for f in F.q('quantit::' + nm) + F.q('quantit::' + nm + '_'):
            if len(f.params) != 2 or is_bt(f.ptypes()[0]) == is_bt(f.ptypes()[1]) or not any(is_bt(f.ptypes()[i]) for i in (0, 1)):
                continue
            if any('quantity' in f.ptypes()[i] or 'torch' in f.ptypes()[i] or 'at::Tensor' in f.ptypes()[i] for i in (0, 1)):
                continue
            inp = f.q.endswith('_')
            if is_bt(f.ptypes()[0]):
                do(f, pval(f, 0), lambda x, f=f, o=o: [op(o, x, pval(f, 1))], inp, o in CMP)
            else:
                do(f, pval(f, 1), lambda x, f=f, o=o: [op(o, pval(f, 0), x)], inp, o in CMP)
    for nm, o in UNARY.items():
        for f in F.q('quantit::' + nm) + F.q('quantit::' + nm + '_'):
            if len(f.params) == 1 and is_bt(f.ptypes()[0]):
                do(f, pval(f, 0), lambda x, o=o: [op(o, x)], f.q.endswith('_'), o in CMP)
    for f in F.q('quantit::operator-'):
        if len(f.params) == 1 and is_bt(f.ptypes()[0]):
            do(f, pval(f, 0), lambda x: [op('mul', x, ('c', -1))], False, False)
    ctx.meta['outcomes'] = n
