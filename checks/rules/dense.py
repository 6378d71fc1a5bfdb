"""Factories and the conversion between block tensors and dense ones (A21)."""
from rules.slicing import *
from rules.decomp import DE
from rules.networks import subst

Q = 'quantit::'
KEEP = {BTQ + 'sizes', BTQ + 'full_slice', Q + 'reshape_helpers::no_possible_block', Q + 'sparse_zeros', Q + 'sparse_zeros_like', Q + 'shape_from',
        BTQ + 'test_same_shape', BTQ + 'block_increment', BTQ + 'block_conservation_rule_test', Q + 'any_truth', BTQ + 'conj'}
WALKS = {Q + 'factory_wrap', Q + 'from_basic_impl'}


class DS(DE):
    opaque = False
    target = None

    def want_inline(self, fn, st, node, args):
        if fn.q in KEEP and fn.q != self.target:
            return False
        return super().want_inline(fn, st, node, args)

    def analyse(self, fn, *a, **k):
        self.target = fn.q
        return super().analyse(fn, *a, **k)


def go(F, fn, deep=()):
    return Run(F, fn, LOOKUPS | WALKS | set(deep), cls=DS)


def is_call(t, *names):
    return len(t) > 2 and t[0] == 'call' and t[1].split('::')[-1] in names


def of(made, f):
    return ('get', made, ('f', f))


def room(R, s, L, made):
    """every dimension of the tensor has a section: True, False, or None when nobody looked"""
    N = R.N
    sbd = of(made, 'sections_by_dim')

    def list_of(b):
        if b == ('begin',) + tuple(b[1:]) and b[1][0] in ('v', 't') and b[2] == ():
            return N(strip_copies(s.env.get(b[1], ('?',))))
        return None
    for (k, d), v in L.items():
        if k != 'eq0':
            continue
        if is_call(d, 'no_possible_block') and bare_tensor(d[2][0]) == made:
            return v
        for f in aff(d)[1]:
            if is_call(f, 'find') and len(f[2]) == 3 and f[2][2] == ZERO and (add(f[2][1], f, -1) == d or sub(f, f[2][1]) == d):
                c, m = aff(f[2][0])
                if c == 0 and len(m) == 1 and span(R, f[2][0], f[2][1]) is not None:
                    b = next(iter(m))
                    if b[0] == 'begin' and (list_of(b) == sbd or C_list(R, s, b) == sbd):
                        return v
    for n in (of(made, 'rank'), ('call', 'size', (sbd,))):
        def some_section(R, L, it):
            x = ('at', sbd, it)
            for (k, d), v in L.items():
                if k == 'eq0' and d == x:
                    return not v
                if k == 'lt0' and d in (add(x, ('c', -1)), sub(ZERO, x)):
                    return not v if d != sub(ZERO, x) else v
            return None
        r, why = for_all(R, L, n, some_section)
        if r is not None:
            return r
        for rec in R.I.loops:
            it = ('iter', rec['site'])
            if [N(t) for t in R.trips.get(it, ())] != [n] or not all(some_section(R, lits(N, e[1]), it) is True for e in rec['ends']):
                continue
            if some_section(R, L, it) is False:
                return False
            # left at its end: every literal of its start still holds, and none of a way out does
            if not rec['cond_exits'] and all(L.get(k) == v for k, v in lits(N, rec['entry'].facts).items()) and s is not rec['entry']:
                return True
    return None


def C_list(R, s, b):
    try:
        return R.N(R.C.loc(b[1], b[2], s))
    except Exception:
        return None


def rows(x):
    """arguments of a container's constructor without its allocator"""
    return [y for y in x[2] if not (y[0] == 'ctor' and 'allocator' in y[1])]


def first_key(R, x, made):
    x = bare(R.N(x))
    if x[0] != 'ctor' or x[1] not in LISTS:
        return False
    a = rows(x)
    return bool(a) and a[0] in (of(made, 'rank'), ('call', 'size', (of(made, 'sections_by_dim'),))) and a[1:] in ([], [ZERO])


def truth_of(L, x):
    """known truth of any_truth(x)"""
    for (k, d), v in L.items():
        if k == 'eq0' and is_call(d, 'any_truth') and bare(d[2][0]) == x:
            return not v
    return None


def next_key(t, idx, made):
    t = bare(t)
    if not (len(t) > 3 and t[0] == 'mut' and t[1] == BTQ + 'block_increment'):
        return False
    a = [bare_tensor(x) for x in t[3]]
    return all(x in (made, idx) for x in a) and idx in a


class Walk:
    """a loop over every block index of the tensor `made`, in the order of block_increment"""

    def __init__(self, R, rec, idx, blocks):
        self.R, self.rec, self.idx, self.blocks = R, rec, idx, blocks


def walks(R, made):
    """[(Walk, why)]"""
    N = R.N
    out = []
    for rec in R.I.loops:
        ph = [p for p in rec['init'] if p[0] == 'phi']
        idx = [p for p in ph if first_key(R, rec['init'][p], made)]
        if len(idx) != 1:
            continue
        idx = idx[0]
        bl = [p for p in ph if N(strip_copies(rec['init'][p])) == of(made, 'blocks_list')]
        why = None
        if len(bl) != 1:
            why = 'no list of blocks grows in the loop at line %s' % rec['line']
        inc = [e[2].get(idx, idx) for e in rec['ends']]
        if not why and not all(next_key(x, idx, made) for x in inc):
            why = 'the loop at line %s does not go from one index to the next one' % rec['line']
        for e in rec['exits'] + rec['leaves']:
            if not why and not over(R, rec, e, idx, made):
                why = 'the loop at line %s may stop before the last index' % rec['line']
        out.append((Walk(R, rec, idx, bl[0] if bl else None), why))
    return out


def over(R, rec, e, idx, made):
    """the exit is taken when the odometer is back at its start"""
    L = lits(R.N, e[1])
    now = e[2].get(idx, idx)
    for (k, d), v in L.items():
        if k == 'eq0' and v is True and is_call(d, 'any_truth'):
            if next_key(d[2][0], idx, made):
                return True
            if bare(d[2][0]) == idx:       # tested at the head: the first round was let through
                return any(p != idx and L.get(('eq0', p)) is True and rec['init'].get(p, ZERO) not in (ZERO,) and rec['init'][p][0] == 'c' and
                           all(R.N(x[2].get(p, p)) == ZERO for x in rec['ends']) for p in rec['init'])
        if k == 'eq0' and v is True and d[0] == 'phi' and d in rec['init'] and rec['init'][d][0] == 'c' and rec['init'][d] != ZERO:
            n = [R.N(x[2].get(d, d)) for x in rec['ends']]
            if n and all(is_call(x, 'any_truth') and next_key(x[2][0], idx, made) for x in n):
                return True
    return False


def allowed(R, L, made, idx):
    for (k, d), v in L.items():
        if k == 'eq0' and is_call(d, 'block_conservation_rule_test') and bare_tensor(d[2][0]) == made and bare(d[2][1]) == idx:
            return not v
    return None


def block_extent(t, made, key):
    """t is the list of the sizes of block `key` of the tensor"""
    t = bare(t)
    fs = {y for y in subterms(t) if len(y) > 2 and y[0] == 'call' and y[1] == BTQ + 'block_sizes'}
    if len(fs) != 1:
        return False
    f = next(iter(fs))
    if bare_tensor(f[2][0]) != made or bare(f[2][1]) != key:
        return False
    ends = [y[1].split('::')[-1].replace('cbegin', 'begin').replace('cend', 'end') for y in rows(t)] if t[0] == 'ctor' and all(is_call(y, 'begin', 'cbegin', 'end', 'cend') for y in rows(t)) else None
    return t == f or ends == ['begin', 'end']


def op_args(t):
    return [y for y in t[2] if 'nullopt' not in repr(y)[:40] and not (y[0] == 'ctor' and y[1].endswith('optional') and not y[2])]


def filling(R, ob, w, made, name, before, after, kind='block'):
    """each allowed index gets exactly one block, name(before..., sizes, after..., options); other indices none"""
    N = R.N
    for e in w.rec['ends'] + w.rec['exits'] + w.rec['leaves']:
        L = lits(N, e[1])
        z = strip_copies(e[2].get(w.blocks, w.blocks))
        ps = peel(z, w.blocks)
        al = allowed(R, L, made, w.idx)
        if al is None and z == w.blocks and truth_of(L, w.idx) is False:
            continue            # the loop ended at its head
        if e not in w.rec['ends'] and z == w.blocks and al is None:
            continue
        if not ob('an index is tested against the selection rule', al is not None, 'an iteration at line %s does not look at the selection rule' % w.rec['line']):
            continue
        if not ob('only blocks are stored', ps is not None, 'the blocks become %s' % fmt(N(z), 4)):
            continue
        if al is False:
            ob('a forbidden index gets no block', not ps, 'line %s stores a block at an index that the selection rule forbids' % w.rec['line'])
            continue
        if kind == 'block':
            ob('every allowed index gets a block', len(ps) == 1, 'an allowed index gets %d blocks at line %s' % (len(ps), w.rec['line']))
        for p in ps:
            ob('the block is stored at its index', p[0] == 'key' and bare(p[1]) == w.idx, 'it is stored at %s' % fmt(N(p[1]), 4))
            yield L, N(strip_copies(p[2])), e, ps
        if not ps:
            yield L, None, e, ps


EXTRA = {'full': ((), (1,)), 'randint': ((0, 1), ())}


def factory_rule(ctx, F):
    n = 0
    for nm in ('zeros', 'ones', 'empty', 'rand', 'randn', 'full', 'randint'):
        for q in (nm, nm + '_like'):
            fns = F.q(Q + q)
            ctx.need([f for f in fns if any('btensor' in t or 'tuple' in t for t in f.ptypes())], 'quantit::%s not found' % q)
            for fn in fns:
                n += one_factory(ctx, F, fn, nm, q)
    return n


def arg_roles(fn):
    """parameters by what they are"""
    r = {'num': []}
    for p, t in zip(fn.params, fn.ptypes()):
        x = ('sym', p['n'])
        if 'TensorOptions' in t:
            r['opt'] = x
        elif 'torch_shape' in t:
            r['shape'] = x
        elif 'btensor' in t and 'Scalar' not in t:
            r['like'] = x
        elif 'tuple' in t or 'vec_list' in t:
            r['spec'] = x
        elif 'quantity' in t:
            r['rule'] = x
        else:
            r['num'].append(x)
    return r


def one_factory(ctx, F, fn, nm, q):
    r = arg_roles(fn)
    R = go(F, fn, {f for f in (Q + nm, Q + nm + '_like')})
    N, w = R.N, W(fn)
    ob = lambda t, ok, why='': ctx.ob('%s: %s' % (q, t), ok, w, why or '')
    if 'opt' not in r:
        return 0
    num = list(r['num'])
    if nm == 'randint' and len(num) == 1:
        num = [ZERO] + num
    if nm == 'full' and len(num) != 1 or nm == 'randint' and len(num) != 2 or nm not in ('full', 'randint') and num:
        return 0
    if 'shape' in r:
        x = r['shape']
        for s, k, v in R.outs:
            if k != 'return':
                continue
            t = R.val(s, v)
            want = {'full': [of(x, '_sizes')] + num}.get(nm, num + [of(x, '_sizes')])
            ok = t[0] == 'op' and t[1] == nm and len(op_args(t)) == len(want) + 1 and [bare(y) for y in op_args(t)[:-1]] == want
            ob('the tensor of torch with the sizes of the shape', ok, 'it returns %s' % fmt(t, 5))
            o = op_args(t)[-1] if t[0] == 'op' and t[2] else ('?',)
            ob('options of the shape overridden by the given ones', is_call(o, 'merge_in') and o[2] == (of(x, 'opt'), r['opt']), 'the options are %s' % fmt(o, 4))
        return 1
    if 'like' in r:
        bases = [('call', Q + 'sparse_zeros_like', (r['like'], r['opt']))]
    else:
        bases = [('call', Q + 'sparse_zeros', (r['spec'], r['rule'], r['opt'])), ('ctor', 'quantit::btensor', (r['spec'], r['rule'], r['opt']))]
        none = ('ctor', 'c10::TensorOptions', ())
        bases += [('call', Q + 'sparse_zeros_like', (b, none)) for b in bases]
        bases += [('call', Q + 'sparse_zeros_like', (b[:2] + (b[2][:2] + (o,),), r['opt'])) for b in bases[:2] for o in (none, r['opt'])]
    filled_by(ctx, R, ob, bases, nm, num)
    return 1


def made_of(R, s, v):
    """(tensor before blocks were added, list of blocks)"""
    t = R.val(s, v)
    b = bare_tensor(t)
    bl = None
    if len(t) == 3 and t[0] == 'upd':
        bl = [x for k, x in t[2] if k == ('f', 'blocks_list')]
        bl = bl[0] if len(bl) == 1 else None
    return b, bl


def filled_by(ctx, R, ob, bases, nm, num):
    N = R.N
    done = set()
    for s, k, v in R.outs:
        if k != 'return':
            continue
        made, bl = made_of(R, s, v)
        if not ob('the tensor has the requested shape, rule and options', made in bases, 'it starts as %s' % fmt(made, 4)):
            continue
        L = lits(N, s.facts)
        rm = room(R, s, L, made)
        if bl is None:
            ob('a tensor without blocks is returned only when a dimension has no sections', rm is False, 'it is returned empty')
            continue
        ob('the walk starts only when every dimension has a section', rm is True, 'the first index may not exist')
        ws = walks(R, made)
        if not ob('one pass over the indices', len(ws) == 1, '%d passes' % len(ws)):
            continue
        wk, why = ws[0]
        if not ob('every index is visited', why is None, why):
            continue
        x = strip_copies(bl)
        ob('nothing else changes the blocks', x == wk.blocks or peel(x, wk.blocks) is not None, 'the blocks are %s' % fmt(N(x), 4))
        if made in done:
            continue
        done.add(made)
        for L2, val, e, ps in filling(R, ob, wk, made, nm, (), ()):
            if val is None:
                continue
            a = op_args(val) if val[0] == 'op' else []
            pos = 0 if nm == 'full' else len(num)
            flat = {'ones': '1.0', 'zeros': '0.0'}.get(nm)
            if flat and val[0] == 'op' and val[1] == 'full' and len(a) == 3 and a[1] in (('fl', flat), ('fl', flat[0])):      # integers would choose another type
                val, a = ('op', nm, (a[0], a[2])), [a[0], a[2]]
            ok = val[0] == 'op' and val[1] == nm and len(a) == len(num) + 2 and a[:pos] == num[:pos] and a[pos + 1:-1] == num[pos:]
            if ob('the block is made by torch', ok, 'the block is %s' % fmt(val, 4)):
                ob('the block has the sizes of its sections', block_extent(a[pos], made, wk.idx), 'the sizes are %s' % fmt(a[pos], 5))
                ob('the block has the options of the tensor', bare_opt(a[-1]) == of(made, '_options'), 'the options are %s' % fmt(a[-1], 4))


def bare_opt(t):
    if t[0] == 'get' and t[2] == ('f', '_options'):
        return of(bare_tensor(t[1]), '_options')
    return t



def room_rule(ctx, F):
    """the helper that looks for dimensions without sections"""
    n = 0
    for fn in F.q(Q + 'reshape_helpers::no_possible_block'):
        R = go(F, fn)
        x = ('sym', fn.params[0]['n'])
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            t = R.val(s, v)
            w = t[1] if t[0] == 'v' else t
            L = lits(R.N, s.facts)
            ok = None
            if w[0] == 'c':
                r = room(R, s, L, x)
                ok = r is not None and r == (w[1] == 0)
            else:
                want = None
                if w[0] == 'not' and w[1][0] == 'eq0':
                    want = {('eq0', w[1][1]): True}
                elif w[0] == 'eq0':
                    want = {('eq0', w[1]): False}
                elif w[0] == 'b' or w[0] == 'bool':
                    want = {w[1]: bool(len(w) < 3 or w[2])}
                ok = want is not None and room(R, s, want, x) is True
            ctx.ob('dimensions without sections are recognised', ok, W(fn), 'it answers %s' % fmt(t, 5))
    return n


def sparse_rule(ctx, F):
    n = 0
    for fn in F.q(Q + 'sparse_zeros'):
        R = go(F, fn)
        r = arg_roles(fn)
        if not all(x in r for x in ('spec', 'rule', 'opt')):
            continue
        for s, k, v in R.outs:
            if k == 'return':
                n += 1
                t = R.val(s, v)
                ctx.ob('sparse_zeros: an empty tensor of the given shape, rule and options', t == ('ctor', 'quantit::btensor', (r['spec'], r['rule'], r['opt'])), W(fn), 'it returns %s' % fmt(t, 4))
    ctx.need(n, 'quantit::sparse_zeros not found')
    return n


def extent(R, t, made, key, d, i):
    """t is the size of dimension d of block `key`, whose section of that dimension is i"""
    if t in of_tensor(made)[0](('c', d), i):
        return True
    x, p = t, 0
    if x[0] == 'at' and x[2] == ('c', d) and block_extent(x[1], made, key):
        return True
    if is_call(x, 'operator*'):
        x = x[2][0]
    elif x[0] == 'deref':
        x = x[1]
    else:
        return False
    while True:
        if is_call(x, 'operator++'):
            x, p = x[2][0], p + 1
        elif x[0] == 'mut' and len(x) > 3 and x[1].split('::')[-1] == 'operator++' and x[2] == 'obj':
            x, p = x[3][0], p + 1
        elif is_call(x, 'next') or is_call(x, 'operator+'):
            st = x[2][1] if len(x[2]) > 1 else ('c', 1)
            if not is_c(st):
                return False
            x, p = x[2][0], p + st[1]
        elif x[0] == 'aff' and len(x[2]) == 1 and x[2][0][1] == 1:
            x, p = x[2][0][0], p + x[1]
        else:
            break
    return p == d and is_call(x, 'begin', 'cbegin') and block_extent(x[2][0], made, key)


def pair_key(k):
    k = bare(k)
    if k[0] == 'ctor' and k[1] in LISTS and rows(k) and rows(k)[0][0] == 'list':
        k = rows(k)[0]
    if k[0] == 'list' and len(k[1]) == 2:
        return k[1]
    if k[0] == 'ctor' and k[1] in LISTS and len(rows(k)) == 2 and rows(k)[0] == ('c', 2):
        return (rows(k)[1],) * 2
    return None


def smaller(R, rec, made):
    """the loop runs over the sections that both dimensions have"""
    it = ('iter', rec['site'])
    a, b = (('at', of(made, 'sections_by_dim'), ('c', d)) for d in (0, 1))
    if [1 for x in rec.get('rets') or () if x[1] == 'return']:
        return 'the loop at line %s has another way out' % rec['line']
    t = R.trips.get(it)
    if t and len(t) == 1:
        x = R.N(next(iter(t)))
        if is_call(x, 'min') and set(x[2]) == {a, b}:
            return None
    for e in rec['exits']:
        L = lits(R.N, e[1])
        if not any(known_lt(L, it, x) is False or L.get(('eq0', sub(it, x))) is True or L.get(('eq0', sub(x, it))) is True for x in (a, b, ('call', 'min', (a, b)), ('call', 'std::min', (a, b)))):
            return 'the loop at line %s may stop before the last diagonal block' % rec['line']
    for e in rec['ends']:
        L = lits(R.N, e[1])
        m = [x for k, d in L for x in aff(d)[1] if is_call(x, 'min') and set(x[2]) == {a, b}]
        if not (all(known_lt(L, it, x) is True for x in (a, b)) or any(known_lt(L, it, x) is True for x in m)):
            return 'the loop at line %s may pass the last section' % rec['line']
    return None


def eye_rule(ctx, F):
    n = 0
    ctx.need([f for f in F.q(Q + 'eye_like') if 'like' in arg_roles(f)], 'eye_like of a block tensor not found')
    for fn in F.q(Q + 'eye_like'):
        r = arg_roles(fn)
        R = go(F, fn)
        N, w = R.N, W(fn)
        ob = lambda t, ok, why='': ctx.ob('eye_like: %s' % t, ok, w, why or '')
        if 'shape' in r:
            x = r['shape']
            for s, k, v in R.outs:
                if k == 'return':
                    n += 1
                    t = R.val(s, v)
                    a = op_args(t) if t[0] == 'op' else []
                    ob('the identity of torch with the sizes of the shape', t[0] == 'op' and t[1] == 'eye' and a[:2] == [('at', of(x, '_sizes'), ('c', d)) for d in (0, 1)] and len(a) == 3, 'it returns %s' % fmt(t, 4))
                    ob('options of the shape overridden by the given ones', bool(a) and is_call(a[-1], 'merge_in') and a[-1][2] == (of(x, 'opt'), r['opt']), 'it returns %s' % fmt(t, 5))
                    ob('only for rank 2', eq_lit(lits(N, s.facts), ('call', 'size', (of(x, '_sizes'),)), ('c', 2)) is True, 'the rank is not checked')
            continue
        if 'like' not in r:
            continue
        x = r['like']
        base = ('call', Q + 'sparse_zeros_like', (x, r['opt']))
        for s, k, v in R.outs:
            L = lits(N, s.facts)
            two = [eq_lit(L, of(y, 'rank'), ('c', 2)) for y in (x, base)]
            two = True if True in two else False if False in two else None
            if k == 'throw':
                if v[0] == 'throw':
                    ob('refused only for another rank', two is False, 'line %s throws for a matrix' % v[2])
                continue
            if k != 'return':
                continue
            n += 1
            ob('only for rank 2', two is True, 'the rank is not checked')
            made, bl = made_of(R, s, v)
            if not ob('the tensor has the shape and rule of the argument', made == base, 'it starts as %s' % fmt(made, 4)):
                continue
            if not ob('blocks are stored', bl is not None, 'no block is stored'):
                continue
            b = strip_copies(bl)
            rec = R.I.phirec.get(b)
            if not ob('one pass over the diagonal', rec is not None and N(strip_copies(rec['init'].get(b, b))) == of(made, 'blocks_list'), 'the blocks are %s' % fmt(N(b), 4)):
                continue
            why = smaller(R, rec, made)
            ob('every diagonal index is visited', why is None, why)
            it = ('iter', rec['site'])
            for e in rec['ends']:
                L = lits(N, e[1])
                al = None
                for (kk, d), val in L.items():
                    if kk == 'eq0' and is_call(d, 'block_conservation_rule_test') and bare_tensor(d[2][0]) == made and pair_key(d[2][1]) == (it, it):
                        al = not val
                z = strip_copies(e[2].get(b, b))
                ps = peel(z, b)
                if not ob('a diagonal index is tested against the selection rule', al is not None and ps is not None, 'line %s does not look at the selection rule' % rec['line']):
                    continue
                if al is False:
                    ob('a forbidden index gets no block', not ps, 'line %s stores a block at a forbidden index' % rec['line'])
                    continue
                if not ob('every allowed diagonal index gets a block', len(ps) == 1, 'it gets %d' % len(ps)):
                    continue
                key, val = ps[0][1], N(strip_copies(ps[0][2]))
                ob('the block is stored on the diagonal', ps[0][0] == 'key' and pair_key(N(key)) == (it, it), 'it is stored at %s' % fmt(N(key), 4))
                a = op_args(val) if val[0] == 'op' else []
                if ob('the block is the identity of torch', val[0] == 'op' and val[1] == 'eye' and len(a) == 3, 'the block is %s' % fmt(val, 4)):
                    for d in (0, 1):
                        ob('the block has the sizes of its sections', extent(R, a[d], made, bare(N(key)), d, it), 'dimension %d has the size %s' % (d, fmt(a[d], 6)))
                    ob('the block has the options of the tensor', bare_opt(a[2]) == of(made, '_options'), 'the options are %s' % fmt(a[2], 4))
    for fn in F.q(Q + 'eye'):
        r = arg_roles(fn)
        if 'spec' not in r:
            continue
        R = Run(F, fn, LOOKUPS, cls=type('EY', (DS,), {'want_inline': lambda self, f, st, node, args: False if f.q == Q + 'eye_like' else DS.want_inline(self, f, st, node, args)}))
        N, w = R.N, W(fn)
        ob = lambda t, ok, why='': ctx.ob('eye: %s' % t, ok, w, why or '')
        sp = r['spec']
        first = ('at', sp, ZERO)
        num = ('call', 'size', (sp,))
        for s, k, v in R.outs:
            L = lits(N, s.facts)
            some1 = L.get(('eq0', num)) is False or eq_lit(L, num, ('c', 1)) is True or eq_lit(L, num, ('c', 2)) is True
            sec = L.get(('eq0', ('call', 'size', (first,)))) is False
            if k == 'throw':
                continue
            if k != 'return':
                continue
            n += 1
            ob('a shape without dimensions or sections is refused', some1 and sec, 'the first section may not exist')
            t = R.val(s, v)
            if not ob('an identity like the shape is returned', is_call(t, 'eye_like'), 'it returns %s' % fmt(t, 3)):
                continue
            y, o = t[2]
            one = None
            if is_call(y, 'shape_from') and len(y[2]) == 2:
                b, c = y[2]
                ob('a rank 1 shape is completed by its conjugate', is_call(c, 'conj') and c[2][0] == b, 'the columns are %s' % fmt(c, 4))
                one, y = True, b
            ok = y[0] == 'ctor' and y[1] == 'quantit::btensor' and len(y[2]) == 3 and y[2][0] == sp and y[2][2] == r['opt'] or is_call(y, 'sparse_zeros') and y[2][0] == sp and y[2][2] == r['opt']
            if ob('the shape is the given one with the given options', ok, 'it is %s' % fmt(y, 4)):
                rk = of(y, 'rank')
                is1 = [eq_lit(L, z, ('c', 1)) for z in (rk, num)]
                is1 = True if True in is1 else False if False in is1 else None
                ob('a rank 1 shape and no other is completed', is1 is (one is True), 'the rank is not checked')
                ob('the selection rule is neutral', is_call(y[2][1], 'neutral'), 'it is %s' % fmt(y[2][1], 4))
            ob('no option is overridden', o[0] == 'ctor' and not o[2] or o == r['opt'], 'the options are %s' % fmt(o, 4))
    return n


def slice_rule(ctx, F):
    """full_slice: the elements of a block in the dense tensor"""
    n = 0
    fns = F.q(BTQ + 'full_slice')
    ctx.need(fns, 'btensor::full_slice not found')
    for fn in fns:
        x, key = [('sym', p['n']) for p in fn.params][:2]
        R = go(F, fn)
        N, w = R.N, W(fn)
        ob = lambda t, ok, why='': ctx.ob('place of a block: %s' % t, ok, w, why or '')
        sbd, sz, cv, rank, rule = fields(x)
        lens = [rank, ('call', 'size', (sbd,)), ('call', 'size', (key,))]

        def inside(L, it):
            b = ('at', key, it)
            return L.get(('lt0', b)), known_lt(L, b, ('at', sbd, it))
        for s, k, v in R.outs:
            L = lits(N, s.facts)
            if k == 'throw':
                if v[0] != 'throw':
                    continue
                ok = False
                for rec in R.I.loops:
                    neg, lt = inside(L, ('iter', rec['site']))
                    ok = ok or neg is True or lt is False
                ok = ok or any(eq_lit(L, ('call', 'size', (key,)), r) is False for r in (rank, ('call', 'size', (sbd,))))
                ob('refused only for an index out of range', ok, 'line %s throws for an acceptable index' % v[2])
                continue
            if k != 'return':
                continue
            n += 1
            t = bare(R.val(s, v))
            zero = L.get(('eq0', rank))
            if zero is None:
                zero = L.get(('eq0', ('call', 'size', (sbd,))))
            ell = lambda y: 'Ellipsis' in repr(y)
            if zero is True:
                ok = t[0] == 'mut' and t[1].split('::')[-1] in ('push_back', 'emplace_back') and ell(t[3][1:]) or t[0] == 'ctor' and t[1] in LISTS and ell(t) or t[0] == 'list' and len(t[1]) == 1 and ell(t)
                ob('the whole tensor for rank 0', ok, 'it returns %s' % fmt(t, 4))
                continue
            ob('torch refuses empty lists of indices', zero is False, 'rank 0 gives an empty list')
            if not ob('one entry per dimension', t[0] == 'phi' and t in R.I.phirec, 'it returns %s' % fmt(t, 4)):
                continue
            rec = R.I.phirec[t]
            it = ('iter', rec['site'])
            ob('every dimension is visited', whole_pass(R, rec, lens), 'the loop at line %s does not run over every dimension' % rec['line'])
            off = ('sum', sbd, ZERO, it)
            b = ('at', key, it)
            lo = ('sum', sz, off, add(b, off))
            his = [add(lo, ('at', sz, add(b, off))), ('sum', sz, off, add(add(b, off), ('c', 1)))]
            for e, z in entries(R, t, rec):
                L2 = lits(N, e[1])
                neg, lt = inside(L2, it)
                ob('an index outside of its dimension is refused', neg is False and lt is True, 'the index is not compared with %s' % ('the number of sections' if neg is False else 'zero'))
                z = N(untensor(strip_copies(z))) if z else ('?',)
                a = z[2] if z[0] == 'ctor' and z[1].split('::')[-1] == 'Slice' else ()
                if neg is False:
                    a = tuple(N(counted(R, y, (b, add(b, ('c', 1))), it)) for y in a)
                if ob('a slice for every dimension', len(a) in (2, 3) and (len(a) == 2 or 'nullopt' in repr(a[2]) or a[2] == ('c', 1)), 'the entry is %s' % fmt(z, 4)):
                    ob('it starts behind the sections before', a[0] == lo, 'it starts at %s' % fmt(a[0], 6))
                    ob('it ends with its section', a[1] in his, 'it ends at %s' % fmt(a[1], 6))
    return n


def counted(R, t, bounds, it):
    """counters of loops that have run to one of the bounds (not negative) replaced by it"""
    for y in {y for y in subterms(t) if len(y) == 2 and y[0] == 'iter' and y != it}:
        n = {R.N(x) for x in R.trips.get(y, ())}
        if len(n) == 1 and n & set(bounds):
            t = subst(t, y, n.pop())
    return t


def at_slice(t, made, key):
    return is_call(t, 'full_slice') and bare_tensor(t[2][0]) == made and bare(t[2][1]) == bare(key)


def through_views(R, ob, t, bl):
    """the blocks are copied into views of the dense tensor"""
    N = R.N
    copies = lambda e: [x for x in e[0] if x[0] == 'call' and (torch_op(x[1]) or ('', False))[1]]
    recs = [r for r in R.I.loops if any(copies(e) for e in r['ends'])]
    if len(recs) != 1:
        return False
    rec = recs[0]
    pos = ('pos', rec['site'])
    zeros_start(ob, t)
    ob('every block is stored', full_walk(R.I, R.C, rec, bl), 'the loop at line %s does not visit every block' % rec['line'])
    for e in rec['ends']:
        cs = copies(e)
        v = N(cs[0][2]) if len(cs) == 1 and cs[0][1] == 'at::Tensor::copy_' else ('?',)
        if ob('a block is stored in the dense tensor', v[0] == 'op' and v[1] == 'index' and len(v[2]) == 2 and v[2][0] == t, 'line %s changes %s' % (rec['line'], fmt(v, 5))):
            ob('at the place of its index', at_slice(v[2][1], T, ('E', bl, pos, 'get0')), 'the place is %s' % fmt(v[2][1], 5))
            ob('with its values', N(cs[0][3][0]) == ('E', bl, pos, 'get1'), 'the values are %s' % fmt(N(cs[0][3][0]), 5))
    return True


def zeros_start(ob, i):
    a = op_args(i) if i[0] == 'op' else []
    ob('it starts as zeros of the sizes and options of the tensor', i[0] == 'op' and i[1] == 'zeros' and len(a) == 2 and is_call(bare(a[0]), 'sizes') and bare(a[0])[2] == (T,) and a[1] == of(T, '_options'), 'it starts as %s' % fmt(i, 5))


def dense_rule(ctx, F):
    n = 0
    fns = F.q(BTQ + 'to_dense')
    ctx.need(fns, 'btensor::to_dense not found')
    for fn in fns:
        R = go(F, fn)
        N, w = R.N, W(fn)
        ob = lambda t, ok, why='': ctx.ob('dense tensor: %s' % t, ok, w, why or '')
        bl = ('get', T, ('f', 'blocks_list'))
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            t = strip_copies(value(R.I, s, v))
            if t[0] != 'phi' and through_views(R, ob, N(t), bl):
                continue
            if not ob('filled by a pass over the blocks', t[0] == 'phi' and t in R.I.phirec, 'it returns %s' % fmt(N(t), 4)):
                continue
            rec = R.I.phirec[t]
            zeros_start(ob, N(strip_copies(rec['init'].get(t, t))))
            ob('every block is stored', full_walk(R.I, R.C, rec, bl), 'the loop at line %s does not visit every block' % rec['line'])
            pos = ('pos', rec['site'])
            for e in rec['ends']:
                z = N(strip_copies(e[2].get(t, t)))
                a = z[2] if z[0] == 'op' else ()
                ok = z[0] == 'op' and z[1] == 'index_put' and len(a) >= 3 and a[0] == t
                if ob('a block is stored in the dense tensor', ok, 'line %s makes it %s' % (rec['line'], fmt(z, 5))):
                    ob('at the place of its index', at_slice(a[1], T, ('E', bl, pos, 'get0')), 'the place is %s' % fmt(a[1], 5))
                    ob('with its values', a[2] == ('E', bl, pos, 'get1') and all(y == ZERO for y in a[3:]), 'the values are %s' % fmt(a[2], 5))
    for fn in F.q(BTQ + 'item'):
        R = go(F, fn)
        N, w = R.N, W(fn)
        ob = lambda t, ok, why='': ctx.ob('single element: %s' % t, ok, w, why or '')
        cnt = ('call', 'size', (('get', T, ('f', 'blocks_list')),))
        for s, k, v in R.outs:
            L = lits(N, s.facts)
            none, one = L.get(('eq0', cnt)), eq_lit(L, cnt, ('c', 1))
            if k == 'throw':
                if v[0] == 'throw':
                    ob('refused only for several blocks', none is False and one is False, 'line %s throws for at most one block' % v[2])
                continue
            if k != 'return':
                continue
            n += 1
            t = R.val(s, v)
            x = t[2][0] if t[0] == 'op' and t[1] == 'item' else ('?',)
            if none is True:
                ob('zero without blocks', t == ZERO or x[0] == 'op' and x[1] in ('zeros', 'zero'), 'it returns %s' % fmt(t, 4))
            else:
                ob('a tensor of several blocks is refused', one is True, 'the number of blocks is not checked')
                ob('the element of the block', x[0] == 'E' and x[1] == cnt[2][0] and x[2] in (ZERO,) and x[3] == 'get1', 'it returns %s' % fmt(t, 5))
    return n


def norm_test(t):
    """the comparison of a norm with a threshold: (op, norm, threshold)"""
    while True:
        if t[0] == 'op' and t[1] in ('item', 'all', 'any'):
            t = t[2][0]
        elif is_call(t, 'toBool', 'to', 'item', 'is_nonzero', 'operator bool'):
            t = t[2][0]
        elif t[0] == 'op' and t[1] in ('le', 'lt', 'gt', 'ge') and len(t[2]) == 2:
            return t[1], t[2][0], t[2][1]
        else:
            return None


def norm_of_block(t, block):
    """t is the 2-norm of every element of the block"""
    if t[0] != 'op' or t[1] not in ('linalg::vector_norm', 'linalg_vector_norm', 'norm', 'frobenius_norm', 'linalg::norm', 'linalg_norm'):
        return 'it is %s' % fmt(t, 4)
    a = [y for y in op_args(t) if y != ZERO]
    if len(a) > 2 or len(a) == 2 and a[1] not in (('c', 2), ('fl', '2.0'), ('fl', '2')):
        return 'it is not the 2-norm of every element: %s' % fmt(t, 4)
    x = a[0]
    while x != block:
        if x[0] == 'op' and x[1] in ('flatten', 'reshape', 'view', 'ravel', 'abs', 'contiguous'):
            x = x[2][0]
        elif x[0] == 'op' and x[1] == 'to' and any(y[0] == 'op' and y[1] == 'promote_types' and any('typeMetaToScalarType' in repr(z) or 'scalar_type' in repr(z) for z in y[2]) for y in x[2][1:2]):
            x = x[2][0]
        else:
            return 'the norm is that of %s' % fmt(x, 5)
    return None


def conversion_rule(ctx, F):
    n = 0
    for q in ('from_basic_tensor', 'from_basic_tensor_like'):
        fns = F.q(Q + q)
        ctx.need(fns, 'quantit::%s not found' % q)
        for fn in fns:
            n += 1
            r = arg_roles(fn)
            R = go(F, fn, {Q + 'from_basic_tensor', Q + 'from_basic_tensor_like'})
            N, w = R.N, W(fn)
            ob = lambda t, ok, why='': ctx.ob('%s: %s' % (q, t), ok, w, why or '')
            val = cutoff = None
            for p, t in zip(fn.params, fn.ptypes()):
                if t.replace('const ', '').split(' ')[0] in ('at::Tensor', 'torch::Tensor'):
                    val = ('sym', p['n'])
                elif 'Scalar' in t:
                    cutoff = ('sym', p['n'])
            ctx.need(val and cutoff and 'opt' in r, '%s has other parameters' % q)
            done = set()
            opts = [('call', 'c10::TensorOptions::merge_in', (('op', 'options', (val,)), r['opt']))]
            for s, k, v in R.outs:
                L = lits(N, s.facts)
                fit = rk = None
                for (kk, d), tv in L.items():
                    c, m = aff(d)
                    ss = {y for y in m if y[0] == 'op' and y[1] in ('sizes', 'dim') and y[2] == (val,)}
                    if kk == 'eq0' and is_call(d, 'equals') and len(d[2]) == 2 and ('op', 'sizes', (val,)) in d[2] and any(is_call(bare(y), 'sizes') for y in d[2]):
                        fit = not tv
                    if kk == 'eq0' and len(m) == 2 and c == 0 and len(ss) == 1 and sum(m.values()) == 0:
                        o = [y for y in m if y not in ss][0]
                        nm = next(iter(ss))[1]
                        if nm == 'sizes' and is_call(bare(o), 'sizes'):
                            fit = tv
                        elif nm == 'dim' and (o[0] == 'get' and o[2] == ('f', 'rank') or is_call(o, 'size')):
                            rk = tv
                if k == 'throw':
                    if v[0] == 'throw':
                        ob('refused only for other sizes', fit is False or rk is False, 'line %s throws for values of the right sizes' % v[2])
                    continue
                if k != 'return':
                    continue
                made, bl = made_of(R, s, v)
                base = made[2] if made[0] == 'call' and made[1] in (Q + 'sparse_zeros', Q + 'sparse_zeros_like') or made[0] == 'ctor' and made[1] == 'quantit::btensor' else ()
                want = (r['like'],) if 'like' in r else (r['spec'], r['rule'])
                if 'spec' in r and len(base) == 2 and made[0] == 'call' and base[0][0] in ('call', 'ctor') and base[0][1] in ('quantit::btensor', Q + 'sparse_zeros') and len(base[0][2]) >= 2:
                    base = base[0][2][:2] + base[1:]        # an empty tensor of the shape first
                if not ob('the tensor has the requested shape and rule', base[:-1] == want, 'it starts as %s' % fmt(made, 4)):
                    continue
                ob('it has the options of the values overridden by the given ones', base[-1] in opts, 'the options are %s' % fmt(base[-1], 4))
                ob('values of other sizes are refused', fit is True, 'the sizes are not compared')
                rm = room(R, s, L, made)
                if bl is None:
                    ob('a tensor without blocks is returned only when a dimension has no sections', rm is False, 'it is returned empty')
                    continue
                ob('the walk starts only when every dimension has a section', rm is True, 'the first index may not exist')
                ws = walks(R, made)
                if not ob('one pass over the indices', len(ws) == 1, '%d passes' % len(ws)):
                    continue
                wk, why = ws[0]
                if not ob('every index is visited', why is None, why):
                    continue
                x = strip_copies(bl)
                ob('nothing else changes the blocks', x == wk.blocks or peel(x, wk.blocks) is not None, 'the blocks are %s' % fmt(N(x), 4))
                if made in done:
                    continue
                done.add(made)
                for L2, z, e, ps in filling(R, ob, wk, made, q, (), (), kind='some'):
                    small, why, piece = None, 'no norm is compared with the threshold', None
                    for (kk, d), tv in L2.items():
                        nt = norm_test(d) if kk == 'eq0' else None
                        if not nt or nt[2] != cutoff:
                            continue
                        blk = [y for y in subterms(nt[1]) if len(y) > 2 and y[0] == 'op' and y[1] == 'index' and y[2][0] == val]
                        piece = blk[0] if blk else None
                        why = norm_of_block(nt[1], piece) if piece else 'the norm is not that of the values of the block'
                        if why is None and not at_slice(piece[2][1], made, wk.idx):
                            why = 'the norm is that of %s' % fmt(piece, 5)
                        yes = not tv
                        if nt[0] == 'le':
                            small = yes
                        elif nt[0] == 'gt':
                            small = False if yes else 'maybe'
                            why = why or 'a norm that is not a number counts as small' if not yes else why
                        else:
                            why = why or 'a norm equal to the threshold is not dropped'
                    if not ps:
                        ob('a block is dropped only when its norm is known not to exceed the threshold', small is True and why is None, why or 'the norm is not known to be small')
                        continue
                    ob('a block whose norm does not exceed the threshold is dropped', small is False and why is None, why or 'it is kept')
                    a = op_args(z) if z[0] == 'op' else []
                    src = a[0] if z[0] == 'op' and z[1] == 'to' else z
                    ob('the block is the part of the values at its place', src[0] == 'op' and src[1] == 'index' and src[2][0] == val and at_slice(src[2][1], made, wk.idx), 'the block is %s' % fmt(z, 5))
                    ob('the block has the options of the tensor', z[0] == 'op' and z[1] == 'to' and bare_opt(a[1]) == of(made, '_options') and all(y == ZERO for y in a[2:]), 'the block is %s' % fmt(z, 5))
    return n



def conjuncts(t):
    """the factors of a conjunction"""
    if t[0] == 'bin' and t[1] in ('&', '&&'):
        return conjuncts(t[2]) + conjuncts(t[3])
    if t[0] in ('v', 'b2i') and len(t) == 2 and isinstance(t[1], tuple):
        return conjuncts(t[1])
    return [t]


class Merge:
    """positions in the two lists of blocks during the comparison"""

    def __init__(self, R, lists):
        self.R, self.lists = R, lists
        self.roots = [set(), set()]
        for rec in R.I.loops:
            for p, i in rec['init'].items():
                if p[0] == 'phi' and len(p[2]) == 1:
                    for side in (0, 1):
                        if self.rel(R.N(i), side) == ZERO:
                            self.roots[side].add(p[2][0])

    def begin(self, side):
        return ('begin', ('o', self.lists[side][1][1]), (('f', 'blocks_list'),))

    def rel(self, x, side):
        """position of an iterator into the list, or None"""
        return sub(x, self.begin(side))

    def at_end(self, L, x, side):
        """the position is known to be the end (True) or an element (False)"""
        r = self.rel(x, side)
        n = ('call', 'size', (self.lists[side],))
        for d in (sub(n, r), sub(r, n)):
            if d == ZERO:
                return True
            if ('eq0', d) in L:
                return L[('eq0', d)]
        if known_lt(L, r, n) is not None:
            return not known_lt(L, r, n)
        return None

    def now(self, rec, st, side):
        """(position at the head of the round, phi) in the loop"""
        for root in self.roots[side]:
            ph = next((p for p in rec['init'] if p[0] == 'phi' and p[2] == (root,)), None)
            if ph:
                return self.R.N(ph), ph
            v = st.env.get(root)
            if v is not None:
                return self.R.N(v), None
        return None, None


def order(L, ka, kb):
    """(a before b, b before a) as known"""
    lt, gt = known_lt(L, ka, kb), known_lt(L, kb, ka)
    for d in (sub(ka, kb), sub(kb, ka)):
        if L.get(('eq0', d)) is True:
            return False, False
        if L.get(('eq0', d)) is False:
            if lt is False and gt is None:
                gt = True
            if gt is False and lt is None:
                lt = True
    if lt is True:
        gt = False
    if gt is True:
        lt = False
    return lt, gt


def close_rule(ctx, F):
    n = 0
    fns = [f for f in F.q(Q + 'allclose') if len(f.params) == 5]
    ctx.need(fns, 'quantit::allclose not found')
    for fn in fns:
        R = go(F, fn)
        N, w = R.N, W(fn)
        ob = lambda t, ok, why='': ctx.ob('allclose: %s' % t, ok, w, why or '')
        a, b, rtol, atol, nan = (('sym', p['n']) for p in fn.params)
        lists = [('get', x, ('f', 'blocks_list')) for x in (a, b)]
        M = Merge(R, lists)
        if not ob('both lists of blocks are walked', all(len(r) == 1 for r in M.roots), 'positions found: %s' % [len(r) for r in M.roots]):
            continue
        block = lambda side, pos, f: ('E', lists[side], pos, f)

        def is_zero(t, x):
            return t[0] == 'op' and t[1] == 'zeros_like' and t[2][0] == x

        def test(t):
            """(sides, positions, why) of a comparison of blocks"""
            if not (t[0] == 'op' and t[1] == 'allclose' and len(t[2]) >= 5):
                return None
            x, y = t[2][:2]
            why = None if t[2][2:5] == (rtol, atol, nan) else 'the tolerances are %s' % ', '.join(fmt(z, 3) for z in t[2][2:5])
            e = [z if z[0] == 'E' and z[1] in lists and z[3] == 'get1' else None for z in (x, y)]
            if e[0] and e[1]:
                if e[0][1] == lists[1] or e[1][1] == lists[0]:
                    why = why or 'the tensors are exchanged, and the relative tolerance is that of the second one'
                return (1, 1), (e[0][2], e[1][2]), why
            if e[0] and is_zero(y, x):
                return (1, 0) if e[0][1] == lists[0] else (0, 1), (e[0][2],), why or ('a block of the second tensor is in the first place' if e[0][1] == lists[1] else None)
            if e[1] and is_zero(x, y):
                return (0, 1) if e[1][1] == lists[1] else (1, 0), (e[1][2],), why or ('a block of the first tensor is in the second place' if e[1][1] == lists[0] else None)
            return None
        flags = set()
        for rec in R.I.loops:
            if not rec['ends']:
                continue
            for e in rec['ends']:
                L = lits(N, e[1])
                if any(L.get(k) is not None and L.get(k) != v for k, v in L.items()):
                    continue
                pos, ph = zip(*(M.now(rec, e[3], sd) for sd in (0, 1)))
                if not ob('positions are kept', None not in pos, 'line %s' % rec['line']):
                    continue
                step = tuple(sub(N(e[2].get(p, p)), N(p)) if p else ZERO for p in ph)
                if not ob('a round passes a block of one tensor or of both', step in ((('c', 1), ZERO), (ZERO, ('c', 1)), (('c', 1), ('c', 1))), 'the round at line %s advances by %s' % (rec['line'], [fmt(x, 2) for x in step])):
                    continue
                move = tuple(x[1] for x in step)
                ks = [M.rel(pos[sd], sd) for sd in (0, 1)]
                ends = [M.at_end(L, pos[sd], sd) for sd in (0, 1)]
                for sd in (0, 1):
                    if move[sd]:
                        ob('a block exists before it is compared', ends[sd] is False, 'line %s may be past the last block' % rec['line'])
                lt, gt = order(L, block(0, ks[0], 'get0'), block(1, ks[1], 'get0'))
                if move == (1, 0):
                    ob('a block of the first tensor only is one before every block left in the second', lt is True or ends[1] is True, 'line %s' % rec['line'])
                elif move == (0, 1):
                    ob('a block of the second tensor only is one before every block left in the first', gt is True or ends[0] is True, 'line %s' % rec['line'])
                else:
                    ob('blocks of both have the same index', lt is False and gt is False, 'line %s compares blocks of different indices' % rec['line'])
                # what is tested, and what happens to the answer
                got = []
                for p in rec['init']:
                    if p[0] != 'phi' or p in ph:
                        continue
                    z = N(e[2].get(p, p))
                    cs = conjuncts(z)
                    ts = [x for x in cs if test(x)]
                    if ts or p in cs:
                        rest = [x for x in cs if x not in ts]
                        if p in rest or L.get(('eq0', p)) is False:
                            if ts:
                                got += ts
                                flags.add(p)
                    elif z in (ZERO, ('c', 1)):
                        ts = [x for (k, x), v in L.items() if k == 'eq0' and test(x) and v is (z == ZERO)]
                        got += ts
                        flags.add(p)
                got += [x for (k, x), v in L.items() if k == 'eq0' and v is False and test(x)]
                mine = [t for t in map(test, got) if t[0] == move and [p for p in t[1]] == [k for k, m in zip(ks, move) if m]]
                if ob('a passed block is compared', mine, 'line %s passes a block without comparing it' % rec['line']):
                    ob('compared like torch does', any(t[2] is None for t in mine), mine[0][2] or '')
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            L = lits(N, s.facts)
            t = R.val(s, v)
            while t[0] in ('v', 'b2i') and len(t) == 2:
                t = t[1]
            same = L.get(('eq0', ('call', BTQ + 'test_same_shape', (a, b))))
            if same is None:
                same = L.get(('eq0', ('call', BTQ + 'test_same_shape', (b, a))))
            if same is True:
                ob('tensors of different shapes are not close', t == ZERO or L.get(('eq0', t)) is True, 'it returns %s' % fmt(t, 4))
                continue
            ob('the shapes are compared', same is False, 'tensors of different shapes are compared')
            failed = [x for (kk, x), tv in L.items() if kk == 'eq0' and tv is True and (test(x) or x in flags)]
            if t == ZERO or L.get(('eq0', t)) is True:
                ob('a negative answer needs a failed comparison', bool(failed), 'it returns false')
                continue
            fin = [N(s.env.get(next(iter(M.roots[sd])), ('?',))) for sd in (0, 1)]
            over_ = [M.at_end(L, fin[sd], sd) for sd in (0, 1)]
            ob('a positive answer needs every block to be compared', over_ == [True, True], 'blocks of the %s tensor may be left' % ('second' if over_[0] is True else 'first'))
            cs = conjuncts(t)
            ok = t == ('c', 1) and not flags or all(x in flags or x == ('c', 1) or test(x) for x in cs) and any(x in flags for x in cs) or t == ('c', 1) and all(L.get(('eq0', f)) is False for f in flags)
            ob('the answer is that of the comparisons', ok, 'it returns %s' % fmt(t, 5))
        for f in flags:
            rec = R.I.phirec[f]
            i = N(rec['init'].get(f, f))
            ob('the answer starts positive', i == ('c', 1) or i in flags or all(x in flags for x in conjuncts(i)), 'it starts as %s' % fmt(i, 4))
            # once negative, it stays so
            for e in rec['ends']:
                L = lits(N, e[1])
                z = N(e[2].get(f, f))
                ob('a negative answer stays', f in conjuncts(z) or L.get(('eq0', f)) is False or z == ZERO, 'line %s makes it %s' % (rec['line'], fmt(z, 4)))
    return n



def subscripts(t):
    """indices of an access to a tensor: constants and counters"""
    t = bare(t)
    if t[0] == 'ctor' and rows(t) and rows(t)[0][0] == 'list':
        t = rows(t)[0]
    return [untensor(x) for x in t[1]] if t[0] == 'list' else None


class Element:
    """which element of a matrix a comparison with the threshold looks at"""

    def __init__(self, R, x, cutoff):
        self.R, self.x, self.cutoff = R, x, cutoff
        g = lambda d: [('at', ('op', 'sizes', (x,)), ('c', d)), ('op', 'size', (x, ('c', d)))]
        self.rows = g(0)
        last = add(('op', 'dim', (x,)), NEG)
        self.cols = g(1) + [('at', ('op', 'sizes', (x,)), y) for y in (last, NEG)] + [('op', 'size', (x, NEG))]

    def unit(self, s):
        """s is the unit vector of a column: its index"""
        R = self.R
        s = R.N(s)
        if not (s[0] == 'op' and s[1] == 'index_put' and s[2][2] == ('c', 1)):
            return None
        z, i = s[2][0], subscripts(s[2][1])
        if not i or len(i) != 1 or z not in R.I.phirec:
            return None
        rec = R.I.phirec[z]
        n = R.N(strip_copies(rec['init'].get(z, z)))
        if not (n[0] == 'op' and n[1] == 'zeros' and extent_in(op_args(n)[0], self.cols)):
            return None
        for e in rec['ends']:
            y = R.N(e[2].get(z, z))
            if not (y[0] == 'op' and y[1] == 'index_put' and y[2][2] == ZERO and subscripts(y[2][1]) == i and y[2][0] in (s, z)) and y != z:
                return None
        self.cols = self.cols + [('at', ('op', 'sizes', (z,)), ZERO), ('op', 'size', (z, ZERO))]
        return i[0]

    def of(self, t):
        """(row, column), or None"""
        while is_call(t, 'to', 'toBool', 'item', 'is_nonzero', 'operator bool') or t[0] == 'op' and t[1] == 'item':
            t = t[2][0]
        r = None
        if t[0] == 'op' and t[1] == 'index':
            i = subscripts(t[2][1])
            if not i:
                return None
            t, r = t[2][0], i
        if not (t[0] == 'op' and t[1] == 'gt' and t[2][1] == self.cutoff):
            return None
        mask = t
        a = t[2][0]
        if not (a[0] == 'op' and a[1] in ('abs', 'absolute')):
            return None
        a = a[2][0]
        if r is not None and len(r) == 1 and a[0] == 'op' and a[1] in ('matmul', 'mv') and a[2][0] == self.x:
            c = self.unit(a[2][1])
            self.rows = self.rows + [('at', ('op', 'sizes', (mask,)), ZERO), ('op', 'size', (mask, ZERO)), ('at', ('op', 'sizes', (mask[2][0],)), ZERO)]
            return None if c is None else (r[0], c)
        if r is not None and len(r) == 1 and a[0] == 'op' and a[1] == 'select' and a[2][0] == self.x and a[2][1] in (ZERO, ('c', 1), NEG, ('c', -2)):
            m = [('at', ('op', 'sizes', (y,)), ZERO) for y in (mask, mask[2][0], a)] + [('op', 'size', (y, ZERO)) for y in (mask, mask[2][0], a)]
            if a[2][1] in (ZERO, ('c', -2)):
                self.cols = self.cols + m
                return a[2][2], r[0]
            self.rows = self.rows + m
            return r[0], a[2][2]
        if a[0] == 'op' and a[1] == 'index' and a[2][0] == self.x:
            i = (subscripts(a[2][1]) or []) + (r or [])
            return tuple(i) if len(i) == 2 else None
        if r is not None and len(r) == 2 and a == self.x:
            return tuple(r)
        return None


def extent_in(t, want):
    t = bare(t)
    if t[0] == 'ctor' and rows(t):
        t = rows(t)[0]
    if t[0] == 'list' and len(t[1]) == 1:
        t = t[1][0]
    return t in want


def rule_of(ctx, F):
    n = 0
    fns = F.q(Q + 'find_selection_rule')
    ctx.need(fns, 'quantit::find_selection_rule not found')
    for fn in fns:
        R = go(F, fn)
        N, w = R.N, W(fn)
        ob = lambda t, ok, why='': ctx.ob('selection rule of a matrix: %s' % t, ok, w, why or '')
        x, shp, cut_ = (('sym', p['n']) for p in fn.params)
        E = Element(R, x, cut_)
        sbd, sz, cv, rank, rule = fields(shp)
        at, ends = of_lists(sbd, sz)
        dim = ('op', 'dim', (x,))
        xs, ss = ('op', 'sizes', (x,)), ('call', BTQ + 'sizes', (shp,))

        def fits(L):
            for (k, d), v in L.items():
                if k == 'eq0' and d in (sub(xs, ss), sub(ss, xs)):
                    return v
                if k == 'eq0' and is_call(d, 'equals') and set(map(bare, d[2])) == {xs, ss}:
                    return not v
            return None

        def hit(L):
            """(row, column, large?) of the element this round looks at"""
            for (k, d), v in L.items():
                if k == 'eq0':
                    e = E.of(d)
                    if e:
                        return e + (not v,)
            return None

        def product(L, t, row, col):
            if not (is_call(t, 'operator*') and len(t[2]) == 2):
                return 'it is %s' % fmt(t, 4)
            if {tuple(q[2]) for q in t[2] if is_call(q, 'element_conserved_qtt')} == {(shp, ZERO, row), (shp, ('c', 1), col)}:
                return None
            qs = []
            for d, q in enumerate(t[2]):
                if q[0] != 'at' or q[1] != cv:
                    return 'a factor is %s' % fmt(q, 4)
                qs.append(sub(q[2], ('sum', sbd, ZERO, ('c', d)) if d else ZERO))
            for cand in (qs, None):
                if cand is None:        # the factors may be in the other order
                    cand = [t[2][1][2], sub(t[2][0][2], ('sum', sbd, ZERO, ('c', 1)))]
                whys = [located(R, L, p, ('c', d), el, at, ends) for d, (p, el) in enumerate(zip(cand, (row, col)))]
                if not any(whys):
                    return None
                first = next(y for y in whys if y) if cand is qs else first
            return 'the quantity is not that of the section of the element: %s' % first

        def differs(L, cur, row, col):
            """known difference of the current rule and the product of this element: (truth, why)"""
            for (k, d), v in L.items():
                if k == 'eq0' and is_call(d, 'operator!=', 'operator==') and len(d[2]) == 2:
                    o = [y for y in d[2] if y != cur]
                    if len(o) == 1:
                        return (v is False) == (d[1].split('::')[-1] == 'operator!='), product(L, o[0], row, col)
            return None, 'the rule found before is not compared'
        rules, firsts = set(), set()
        for rec in R.I.loops:
            for p in rec['init']:
                if p[0] == 'phi' and is_call(N(strip_copies(rec['init'][p])), 'neutral'):
                    rules.add(p)
        for rec in R.I.loops:          # the same variable in the inner loop
            for p, i in rec['init'].items():
                if p[0] == 'phi' and N(strip_copies(i)) in rules:
                    rules.add(p)
        seen = 0

        def is_first(L, rec):
            """this is the first large element: the flag and its value"""
            for (k, d), v in L.items():
                if k == 'eq0' and d[0] == 'phi' and d in R.I.phirec and d not in rules:
                    r = d
                    while r in R.I.phirec and N(R.I.phirec[r]['init'].get(r, r))[0] == 'phi' and N(R.I.phirec[r]['init'].get(r, r)) != r:
                        r = N(R.I.phirec[r]['init'].get(r, r))
                    i = N(R.I.phirec[r]['init'].get(r, r)) if r in R.I.phirec else r
                    if i[0] == 'c':
                        return d, (not v) == (i[1] != 0), i
            return None, None, None
        for rec in R.I.loops:
            cur = [p for p in rec['init'] if p in rules]
            for e in rec['ends']:
                L = lits(N, e[1])
                h = hit(L)
                if h is None:
                    continue
                row, col, large = h
                if ('iter', rec['site']) not in (row, col):
                    continue
                if not cur:
                    ob('large elements have a say', large is False, 'line %s passes a large element' % rec['line'])
                    continue
                cur = cur[:1]
                z = N(strip_copies(e[2].get(cur[0], cur[0])))
                flag, first, f0 = is_first(L, rec)
                nf = N(e[2].get(flag, flag)) if flag else None
                seen += 1
                if large is False:
                    ob('a small element has no say', z == cur[0] and (flag is None or nf == flag), 'line %s' % rec['line'])
                    continue
                if not ob('the first large element is known', flag is not None, 'line %s does not know whether it is the first' % rec['line']):
                    continue
                if first:
                    why = product(L, z, row, col)
                    ob('the first large element sets the rule to the product of the quantities of its sections', why is None, why)
                    ob('later elements are not the first', nf[0] == 'c' and (nf[1] != 0) != (f0[1] != 0), 'the flag becomes %s' % fmt(nf, 3))
                else:
                    df, why = differs(L, cur[0], row, col)
                    ob('every other large element is compared with the rule', df is False and why is None, why or 'line %s accepts an element of another rule' % rec['line'])
                    ob('later elements do not change the rule', z == cur[0] and (nf == flag or nf[0] == 'c' and (nf[1] != 0) != (f0[1] != 0)), 'line %s changes it' % rec['line'])
        ob('elements are looked at one by one', seen > 0, 'no comparison of an element with the threshold was found')
        # both walks are complete
        els = {h[:2] for rec in R.I.loops for e in rec['ends'] for h in [hit(lits(N, e[1]))] if h}
        for row, col in els:
            for it, lens, nm in ((row, E.rows, 'row'), (col, E.cols, 'column')):
                recs = [r for r in R.I.loops if ('iter', r['site']) == it]
                for y in [N(z) for z in R.trips.get(it, ())]:
                    v = y[1] if y[0] == 'at' and y[2] == ZERO else y
                    if v[0] == 'op' and v[1] == 'sizes' and v[2][0][0] == 'op' and v[2][0][1] in ('zeros', 'empty', 'ones') and extent_in(op_args(v[2][0])[0], lens):
                        lens = lens + [y]        # the length of a vector made with that length
                ok = bool(recs) and all(whole_pass(R, r, lens) for r in recs)
                ob('every %s is looked at' % nm, ok, 'the %s of the element is %s' % (nm, fmt(it, 4)))
        for s, k, v in R.outs:
            L = lits(N, s.facts)
            d2, r2 = eq_lit(L, dim, ('c', 2)), eq_lit(L, rank, ('c', 2))
            ft = fits(L)
            h = hit(L)
            if k == 'throw':
                if v[0] != 'throw':
                    continue
                if d2 is False or r2 is False or ft is False:
                    continue
                if any(kk == 'eq0' and is_call(d, 'operator!=', 'operator==') and len(d[2]) == 2 and d[2][0] == d[2][1] and tv is (d[1].split('::')[-1] == 'operator==') for (kk, d), tv in L.items()):
                    continue        # nothing differs from itself
                ok, why = False, 'line %s throws for an acceptable matrix' % v[2]
                if h and h[2]:
                    cur = [p for p in rules if any(p in d[2] for kk, d in L if is_call(d, 'operator!=', 'operator=='))]
                    flag, first, f0 = is_first(L, None)
                    if cur and first is False:
                        df, why2 = differs(L, cur[0], h[0], h[1])
                        ok, why = df is True and why2 is None, why2 or why
                ob('refused only for another rank, other sizes or elements of different rules', ok, why)
                continue
            if k != 'return':
                continue
            n += 1
            ob('another rank is refused', (d2 is True or ft is True and r2 is True) and (r2 is True or ft is True and d2 is True), 'the ranks are not checked')
            ob('a matrix of other sizes is refused', ft is True, 'the sizes are not compared')
            t = R.val(s, v)
            ob('the rule found is returned', t in rules or t[0] == 'phi' and t in rules, 'it returns %s' % fmt(t, 4))
        for p in rules:
            i = N(strip_copies(R.I.phirec[p]['init'].get(p, p))) if p in R.I.phirec else p
            ob('without large elements the rule is neutral', i in rules or is_call(i, 'neutral'), 'it starts as %s' % fmt(i, 4))
    return n


def a21(ctx):
    F = load(['btensor.cpp'], True)
    n = factory_rule(ctx, F) + sparse_rule(ctx, F) + room_rule(ctx, F) + eye_rule(ctx, F)
    m = slice_rule(ctx, F) + dense_rule(ctx, F) + conversion_rule(ctx, F)
    c = close_rule(ctx, F) + rule_of(ctx, F)
    ctx.meta = {'factories': n, 'conversions': m, 'comparisons': c}
