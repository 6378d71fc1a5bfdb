"""Transformations of the structure of a block tensor: quantities, selection rule, copies, exchange (A10)."""
from rules.structure import *

TDEEP = {BTQ + x for x in ('shift_impl', 'inverse_cvals_', 'neutral_shape_', 'cval_shift_', 'non_conserving_cval_shift_', 'set_selection_rule_',
                           'shift_selection_rule_', 'neutral_selection_rule_', 'swap', 'inverse_cvals', 'cval_shift', 'neutral_shape')} | \
    {'quantit::swap'}
PRIM = {'quantit::any_quantity_vector': 'quantit::any_quantity_vector', 'quantit::any_quantity': 'quantit::any_quantity', MAPQ[:-2]: 'quantit::flat_map<'}


class TC(BT):
    """the range of quantities of a dimension is a run of c_vals (A08); a quantity passed by reference may be one of the tensor's own"""
    fn = None

    def on_call(self, s, e, f, ol, args):
        n = f.split('::')[-1]
        if f in (BTQ + 'section_conserved_qtt_range', BTQ + 'section_cqtts') and ol is not None and args:
            d = self.argval(s, args[0])
            v = self.read(s, ol)
            sbd = proj(v, ('f', 'sections_by_dim'))
            s.event('range', v, d, e.get('l'))
            b = add(self.begin(s, (ol[0], ol[1] + (('f', 'c_vals'),))), ('sum', sbd, ZERO, d))
            return [(s, ('tuple', (b, add(b, ('at', sbd, d)))))]
        if n == 'swap' and f not in self.deep and (ol is not None and len(args) == 1 or len(args) == 2):
            ls = ([('l', ol)] if ol is not None else []) + list(args)
            if all(a[0] == 'l' for a in ls) and (f.startswith('std::') or 'quantit' not in f or f[:-6] in PRIM):
                x, y = (self.read(s, a[1]) for a in ls)
                self.write(s, ls[0][1], y, e)
                self.write(s, ls[1][1], x, e)
                return [(s, ('void',))]
        return super().on_call(s, e, f, ol, args)

    def on_write(self, st, loc, v, node):
        super().on_write(st, loc, v, node)
        if loc[0] == ('o', 'this') and loc[1] and loc[1][0][1] in ('c_vals', 'selection_rule') and self.fn is not None:
            for p, t in zip(self.fn.params, self.fn.ptypes()):
                if t in ('const quantit::vquantity &', 'quantit::any_quantity_cref', 'const quantit::any_quantity &'):
                    r = ('o', p['n'])
                    cur = self.rootval(st, r)
                    if cur[0] != 'may':
                        st.env[r] = ('may', cur)


def trun(F, fn, deep=TDEEP):
    class K(TC):
        pass
    K.fn = fn
    return Run(F, fn, deep, K)


def gval(t):
    """quantity value up to notation: ('inv', x), ('neutral',), ('mul', frozenset-like sorted pair), or the value"""
    while True:
        if t[0] == 'ctor' and len(t[2]) == 1 and t[1].split('::')[-1] in ('any_quantity', 'vquantity', 'any_quantity_cref'):
            t = t[2][0]
        elif t[0] == 'call' and len(t[2]) == 1 and t[1].split('::')[-1] in ('get', 'clone', 'operator*') and 'quantity' in t[1]:
            t = t[2][0]
        else:
            break
    if t[0] in ('call', 'mut') and ('quantity' in t[1] or t[1] == 'quantit::operator*'):
        n = t[1].split('::')[-1]
        a = t[3] if t[0] == 'mut' else t[2]
        if n in ('inverse', 'inverse_') and len(a) == 1:
            return ('inv', gval(a[0]))
        if n == 'neutral' and len(a) == 1:
            return ('neutral',)
        if n in GROUPOP and len(a) == 2:
            return ('mul',) + tuple(sorted((gval(a[0]), gval(a[1])), key=repr))
    return t


def each_quantity(R, x, base):
    """the list of quantities x as an update of the list `base`: (first, count set, {value of entry `first+it`}, it, old entry) or None"""
    I, N = R.I, R.N
    x = strip_copies(x)
    while x[0] == 'ctor' and x[1] == 'quantit::any_quantity_vector' and len(x[2]) == 1:
        x = strip_copies(x[2][0])
    if x[0] == 'ctor' and x[1] == 'quantit::any_quantity_vector' and len(x[2]) == 2:
        return ZERO, {N(x[2][0])}, {gval(N(x[2][1]))}, None, None
    if x[0] == 'mut' and len(x) > 3 and x[1] == 'std::fill' and x[2] == 'out' and len(x[3]) == 4 and N(strip_copies(x[3][0])) == base:
        b, e = x[3][1:3]
        if b[0] == 'begin' and b[2][-1:] == (('f', 'c_vals'),):
            return ZERO, {N(sub(e, b))}, {gval(N(x[3][3]))}, None, None
    if x[0] != 'phi' or x not in I.phirec:
        return None
    rec = I.phirec[x]
    it = ('iter', rec['site'])
    init = strip_copies(rec['init'].get(x, x))
    fresh = False
    if N(init) != base:
        if init[0] == 'ctor' and init[1] == 'quantit::any_quantity_vector':
            fresh = True
        else:
            return None
    if len([e for e in rec['exits'] if e[2].get(x, x) != x]) or not rec['ends']:
        return None
    olds = [('at', N(x), None), ('at', base, None)]
    first, vals = None, set()
    for e in rec['ends']:
        nv = e[2].get(x, x)
        if nv[0] == 'mut' and nv[1].split('::')[-1] in ('push_back', 'emplace_back') and nv[3][0] == x:
            if not (fresh and (not init[2] or N(init[2][0]) == ZERO)):
                return None
            pos, val = it, nv[3][1]
        else:
            ps = peel(nv, x)
            if ps is None or len(ps) != 1:
                return None
            pos, val = N(ps[0][1]), ps[0][2]
        o = sub(pos, it)
        tr = R.trips.get(it) or set()
        if not contains(add(pos, it), it) and len(tr) == 1:        # from the last to the first
            o = add(sub(add(pos, it), next(iter(tr))), ONE)
        if any(y == it for y in subterms(o)) or first not in (None, o):
            return None
        first = o
        v = gval(N(val))
        cur = ('at', N(x), pos)
        own = ('at', base, pos)
        if fresh and any(y == cur for y in subterms(v)):
            return None
        v = rebase(v, [(cur, ('old',)), (own, ('old',)), (('E', base, ('pos', rec['site']), None), ('old',))])
        vals.add(v)
    if fresh and init[2] and N(init[2][0]) != ZERO and N(init[2][0]) not in (R.trips.get(it) or set()):
        return None
    return first, R.trips.get(it) or set(), vals, it, fresh


OLD = ('old',)


def blank(R, obj, want):
    """fields whose final value differs from the one wanted: {field: value}"""
    return {f: R.N(proj(obj, ('f', f))) for f, v in want.items() if R.N(strip_copies(proj(obj, ('f', f)))) != v}


def emptiness(L):
    """True: the tensor is known empty; False: known non-empty; None"""
    bl = ('call', 'size', (('get', T, ('f', 'blocks_list')),))
    for (k, d), v in L.items():
        if k == 'eq0' and d in (bl, sub(ZERO, bl)):
            return v
    r = known_lt(L, ZERO, bl)
    if r is not None:
        return not r
    r = known_lt(L, bl, ONE)
    return r


KINDS = {
    # name: (whole list or dimension, value of a quantity, value of the rule, needs an empty tensor)
    'inverse_cvals_': ('all', lambda a: ('inv', OLD), lambda a: ('inv', RULE), False),
    'inverse_cvals': ('all', lambda a: ('inv', OLD), lambda a: ('inv', RULE), False),
    'conj': ('all', lambda a: ('inv', OLD), lambda a: ('inv', RULE), False),
    'neutral_shape_': ('all', lambda a: ('neutral',), lambda a: ('neutral',), True),
    'neutral_shape': ('all', lambda a: ('neutral',), lambda a: ('neutral',), True),
    'cval_shift_': ('dim', lambda a: ('mul',) + tuple(sorted((OLD, a[0]), key=repr)), lambda a: ('mul',) + tuple(sorted((RULE, a[0]), key=repr)), False),
    'cval_shift': ('dim', lambda a: ('mul',) + tuple(sorted((OLD, a[0]), key=repr)), lambda a: ('mul',) + tuple(sorted((RULE, a[0]), key=repr)), False),
    'non_conserving_cval_shift_': ('dim', lambda a: ('mul',) + tuple(sorted((OLD, a[0]), key=repr)), lambda a: RULE, True),
    'shift_selection_rule_': (None, None, lambda a: ('mul',) + tuple(sorted((RULE, a[0]), key=repr)), True),
    'set_selection_rule_': (None, None, lambda a: a[0], True),
    'neutral_selection_rule_': (None, None, lambda a: ('neutral',), True),
    'neutral_selection_rule': (None, None, lambda a: ('neutral',), True),
}


def transformations(ctx, F):
    seen = 0
    for name, (what, qv, rv, empty) in KINDS.items():
        fns = F.q(BTQ + name)
        ctx.need(fns, '%s not found' % name)
        for fn in fns:
            R = trun(F, fn)
            I, N, w = R.I, R.N, W(fn)
            a = [('sym', p['n']) for p in fn.params]
            inplace = name.endswith('_')
            ob = lambda n, ok, why='': ctx.ob('%s: %s' % (name, n), ok, w, why)
            nret = 0
            for s, k, v in R.outs:
                L = R.lits(s.facts)
                this = s.env.get(('o', 'this'), T)
                if k == 'throw':
                    ob('nothing but a tensor with blocks is refused', empty and emptiness(L) is False, 'refused when %s' % [(q[0], fmt(q[1], 4), vv) for q, vv in L.items()])
                    ob('a refusal leaves the tensor alone', R.C(this) == T, 'the tensor changes first')
                    continue
                if k != 'return':
                    continue
                nret += 1
                seen += 1
                if empty:
                    ob('a tensor with blocks is refused', emptiness(L) is True, 'applied to a tensor that may hold blocks')
                out = value(I, s, v)
                obj = this if inplace else strip_copies(out)
                src = T
                if name == 'conj':
                    b = base_of(obj)
                    src = strip_copies(b)
                    ob('blocks are conjugated', N(src) == ('call', BTQ + 'conj_only', (T,)) or N(src) == ('call', 'conj_only', (T,)), 'starts from %s' % fmt(N(src), 4))
                    if N(src)[0] != 'call':
                        continue
                if inplace:
                    ob('returns the tensor itself', R.C(out) == R.C(this), 'returns %s' % fmt(N(out), 4))
                else:
                    ob('the operand is left alone', R.C(this) == T, 'the operand becomes %s' % fmt(R.C(this), 4))
                g = lambda f: N(('get', src, ('f', f)))
                bad = {}
                for f in ALLF:
                    if f in ('selection_rule',) or f == 'c_vals' and what:
                        continue
                    x = N(strip_copies(proj(obj, ('f', f))))
                    if x != g(f):
                        bad[f] = fmt(x, 4)
                ob('nothing else changes', not bad, 'also changed: %s' % bad)
                rule = gval(N(proj(obj, ('f', 'selection_rule'))))
                rw = rebase(rv(a), [(RULE, g('selection_rule'))]) if src != T else rv(a)
                ob('selection rule', rule == rw, 'it becomes %s' % fmt(rule, 5))
                if not what:
                    continue
                base = g('c_vals')
                q = each_quantity(R, proj(obj, ('f', 'c_vals')), base)
                if not ob('quantities are changed one by one', q is not None, 'they become %s' % fmt(N(proj(obj, ('f', 'c_vals'))), 5)):
                    continue
                first, trips, vals, it, fresh = q
                ob('new quantity', vals == {qv(a)}, 'a quantity becomes %s' % [fmt(x, 5) for x in vals])
                sbd = g('sections_by_dim')
                if what == 'all':
                    ob('every quantity, once', first == ZERO and ('call', 'size', (base,)) in trips, 'from %s, count %s' % (fmt(first, 4), [fmt(t, 4) for t in trips]))
                else:
                    d = a[1]
                    ob('the quantities of that dimension, once each', not fresh and N(first) == ('sum', sbd, ZERO, d) and ('at', sbd, d) in trips,
                       'from %s, count %s' % (fmt(first, 5), [fmt(t, 4) for t in trips]))
            ob('has a normal outcome', nret > 0)
    ctx.need(seen >= 10, 'transformations not analysed')


def base_of(t):
    while t[0] == 'upd':
        t = t[1]
    return t


def free_forms(ctx, F):
    """the free functions do what the members do"""
    for name in ('inverse_cvals', 'inverse_cvals_', 'cval_shift_', 'non_conserving_cval_shift_', 'shift_selection_rule_', 'set_selection_rule_'):
        for fn in F.q('quantit::' + name):
            ty = fn.ptypes()
            if not ty or 'btensor' not in ty[0]:
                continue
            R = trun(F, fn, set())
            N, w = R.N, W(fn)
            p = [('sym', q['n']) for q in fn.params]
            for s, k, v in R.outs:
                if k != 'return':
                    continue
                o = s.env.get(('o', fn.params[0]['n']), p[0])
                if ty[0].startswith('const'):
                    ok = N(strip_copies(value(R.I, s, v))) == ('call', BTQ + name, tuple(p)) and R.C(o) == p[0]
                else:
                    m = BTQ + (name if name.endswith('_') else name + '_')
                    ev = [e for e in flat(s.log) if e[0] == 'call' and e[1].startswith(BTQ) and e[1] != BTQ + 'btensor']
                    ok = len(ev) == 1 and ev[0][1] == m and N(ev[0][2]) == p[0] and tuple(N(x) for x in ev[0][3]) == tuple(p[1:])
                    if ty[0].endswith('&&'):
                        ok = ok or N(strip_copies(value(R.I, s, v))) == ('call', BTQ + name, tuple(p))
                ctx.ob('free %s: as the member, same arguments' % name, ok, w, 'returns %s' % fmt(N(value(R.I, s, v)), 5))


def copies(ctx, F):
    n = 0
    for fn in F.q(BTQ + 'btensor'):
        ty = fn.ptypes()
        if len(ty) == 1 and 'quantit::btensor' in ty[0] and 'std::' not in ty[0] or len(ty) == 3 and ty[0] == 'const quantit::btensor &' and 'flat_map' in ty[1]:
            if fn.body is None or fn.j.get('defaulted'):
                continue
            R = trun(F, fn)
            N, w = R.N, W(fn)
            o = ('sym', fn.params[0]['n'])
            kind = {'const quantit::btensor &': 'copy', 'quantit::btensor &&': 'move'}[ty[0]] if len(ty) == 1 else 'same shape'
            for s, k, v in R.outs:
                if k != 'return':
                    continue
                n += 1
                this = s.env.get(('o', 'this'), T)
                want = {f: ('get', o, ('f', f)) for f in ALLF}
                if kind == 'same shape':
                    want['blocks_list'] = ('sym', fn.params[1]['n'])
                    del want['_options']
                bad = blank(R, this, want)
                ctx.ob('%s: takes every part of the other tensor' % kind, not bad, w, 'differs: %s' % {f: fmt(x, 4) for f, x in bad.items()})
                if kind != 'move':
                    oo = s.env.get(('o', fn.params[0]['n']), o)
                    ctx.ob('%s: leaves the other tensor alone' % kind, R.C(oo) == o, w, 'it becomes %s' % fmt(R.C(oo), 4))
    for fn in F.q(BTQ + 'swap') + F.q(BTQ + 'operator='):
        if fn.body is None or fn.j.get('defaulted') or len(fn.params) != 1 or 'quantit::btensor' not in fn.ptypes()[0]:
            continue
        R = trun(F, fn)
        w = W(fn)
        o = ('sym', fn.params[0]['n'])
        for s, k, v in R.outs:
            if k != 'return':
                continue
            n += 1
            this = s.env.get(('o', 'this'), T)
            bad = blank(R, this, {f: ('get', o, ('f', f)) for f in ALLF})
            ctx.ob('%s: takes every part of the other tensor' % fn.name, not bad, w, 'differs: %s' % {f: fmt(x, 4) for f, x in bad.items()})
            if fn.name == 'swap':
                other = s.env.get(('o', fn.params[0]['n']), o)
                bad = blank(R, other, {f: ('get', T, ('f', f)) for f in ALLF})
                ctx.ob('swap: gives every part to the other tensor', not bad, w, 'differs: %s' % {f: fmt(x, 4) for f, x in bad.items()})
    return n


def primitives(ctx, F):
    """member swaps of the parts exchange every data member"""
    for q, cls in PRIM.items():
        fields = {}
        for k, c in F.classes.items():
            if (k == cls or cls.endswith('<') and k.startswith(cls) and k.endswith('>')) and not c.get('dep'):
                fields = [x['n'] for x in c['fields']]
        fns = [f for f in F.q(q + '::swap') if len(f.params) == 1 and f.ptypes()[0].startswith(cls) and f.ptypes()[0].endswith(' &')]
        ctx.need(fns and fields, '%s::swap not found' % q)
        for fn in fns[:1] if q != MAPQ[:-2] else fns:
            R = trun(F, fn, set())
            o = ('sym', fn.params[0]['n'])
            for s, k, v in R.outs:
                this, other = s.env.get(('o', 'this'), T), s.env.get(('o', fn.params[0]['n']), o)
                bad = [x for x in fields if R.N(proj(this, ('f', x))) != ('get', o, ('f', x)) or R.N(proj(other, ('f', x))) != ('get', T, ('f', x))]
                ctx.ob('%s: swap exchanges every part' % q.split('::')[-1], k == 'return' and not bad, W(fn), 'not exchanged: %s' % bad)


def a10(ctx):
    F = load(['btensor.cpp'], True)
    primitives(ctx, F)
    transformations(ctx, F)
    free_forms(ctx, F)
    copies(ctx, F)
