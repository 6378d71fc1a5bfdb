"""A block tensor never holds a block its structure does not allow (A09)."""
from rules.sections import *

ALLF = ('rank', 'sections_by_dim', 'sections_sizes', 'c_vals', 'selection_rule', 'blocks_list', '_options')
STRUCT = {'quantit::block_shapes_from_struct_list', 'quantit::block_sizes_from_struct_list', 'quantit::c_vals_from_struct_list'}


# ------------------------------------------------------------------ strings: is the report empty?
def fmt_text(t):
    """does a format call produce at least one character"""
    for x in subterms(t):
        if x[0] in ('s', 'str') and len(x) == 2 and isinstance(x[1], str):
            import re
            return bool(re.sub(r'\{[^}]*\}', '', x[1]))
    return False


def is_empty_str(t):
    return t in (('s', ''), ('str', ''))


class Diag:
    """what a report being empty says: every loop that may add to it ran without adding"""

    def __init__(self, R):
        self.R = R

    def parts(self, t):
        """string value -> list of bases (phis / opaque), or None when certainly not empty"""
        while t[0] == 'ctor' and t[1] in ('std::basic_string', 'std::basic_string_view') and t[2]:
            t = t[2][0]
        if t[0] == 'ctor' and t[1] == 'std::basic_string':
            return []
        if is_empty_str(t):
            return []
        if t[0] in ('s', 'str'):
            return None
        if t[0] in ('mut', 'call'):
            n = t[1].split('::')[-1]
            a = t[3] if t[0] == 'mut' else t[2]
            if n in ('operator+=', 'operator+', 'append'):
                out = []
                for x in a[:2]:
                    p = self.parts(x)
                    if p is None:
                        return None
                    out += p
                return out
            if n in ('format', 'sprintf') and fmt_text(t):
                return None
        return [t]

    def str_lit(self, k, d):
        """literal about a string's emptiness -> (string term, empty when literal is true)"""
        if k != 'eq0':
            return None
        c, m = aff(d)
        ats = list(m)
        if len(ats) == 2 and any(is_empty_str(a) for a in ats):
            return [a for a in ats if not is_empty_str(a)][0], True
        if len(ats) == 1:
            a = ats[0]
            if a[0] == 'call' and a[1].split('::')[-1] in ('size', 'length') and self.stringy(a[2][0]):
                return a[2][0], True
            if a[0] == 'call' and a[1].split('::')[-1] == 'empty' and self.stringy(a[2][0]):
                return a[2][0], False
        return None

    def stringy(self, t):
        if t[0] == 'phi':
            rec = self.R.I.phirec.get(t)
            return rec is not None and t in rec['init'] and self.stringy(rec['init'][t])
        return t[0] == 'ctor' and t[1] == 'std::basic_string' or t[0] in ('s', 'str') or \
            t[0] in ('mut', 'call') and t[1].split('::')[-1] in ('operator+=', 'operator+', 'append', 'format') and \
            ('basic_string' in t[1] or 'fmt::' in t[1] or 'format' in t[1])

    def split(self, facts):
        """(strings known empty, strings known non-empty, other facts)"""
        e, ne, o = [], [], {}
        for (k, d), v in facts.items():
            s = self.str_lit(k, d)
            if s is None:
                o[(k, d)] = v
            elif v == s[1]:
                e.append(s[0])
            else:
                ne.append(s[0])
        return e, ne, o

    def demands(self, terms, depth=0):
        """loops that must have added nothing if all these strings are empty; None when one cannot be empty"""
        out, todo, seen = [], list(terms), set()
        while todo:
            p = self.parts(todo.pop())
            if p is None:
                return None
            for t in p:
                if t in seen:
                    continue
                seen.add(t)
                rec = self.R.I.phirec.get(t)
                if rec is None or t not in rec['init']:
                    continue
                out.append((rec, t))
                todo.append(rec['init'][t])
        return out

    def clean(self, rec, t, depth=0):
        """iterations of a loop that leave the string t empty: [(facts, inner demands)]; early exits likewise"""
        if depth > 4:
            return []
        res = []
        flags = {}
        cand = [e for e in rec['ends']]
        ok = []
        for e in cand:
            p = self.parts(e[2].get(t, t))
            if p is None:
                continue
            em, ne, o = self.split(e[1])
            d = self.demands([x for x in p if x != t] + [x for x in em if x != t])
            if d is None:
                continue
            if any(self.parts(x) == [] or self.parts(x) == [t] for x in ne):
                continue
            ok.append((e, o, d))
        # other loop variables that no clean iteration changes keep their initial value
        for nm in rec['init']:
            if all(e[2].get(nm, nm) == nm for e, o, d in ok):
                flags[nm] = rec['init'][nm]
        for e, o, d in ok:
            inner = dict(flags)
            for r2, t2 in d:
                inner.update(self.flags(r2, t2, depth + 1))
            if not self.feasible(o, inner):
                continue
            res.append((self.R.lits(o, self.within(rec)), d))
        return res

    def within(self, rec):
        """iteration counters of this loop and those around it stay symbolic"""
        return {('iter', r['site']) for r in self.R.I.loops}

    def flags(self, rec, t, depth):
        fl = {}
        cand = []
        for e in rec['ends']:
            p = self.parts(e[2].get(t, t))
            if p is not None and self.demands([x for x in p if x != t]) is not None:
                cand.append(e)
        for nm in rec['init']:
            if all(e[2].get(nm, nm) == nm for e in cand):
                fl[nm] = rec['init'][nm]
        return fl

    def feasible(self, facts, flags):
        for (k, d), v in facts.items():
            c, m = aff(d)
            r = ('c', c)
            for a, q in m.items():
                r = add(r, flags.get(a, a), q)
            if is_c(r):
                if k == 'eq0' and (r[1] == 0) != v or k == 'lt0' and (r[1] < 0) != v:
                    return False
        return True


def all_lits(L):
    return [(k[0], k[1], v) for k, v in L.items()]


def check_tensor_rule(ctx, F):
    for fn in F.q(BTQ + 'check_tensor'):
        R = Run(F, fn, {'quantit::throw_on_bad_arg_blocks'} - {'quantit::throw_on_bad_arg_blocks'})
        I, N = R.I, R.N
        N.raw_sizes = True
        N.memo.clear()
        w = W(fn)
        X = ('sym', fn.params[0]['n'])
        sbd, sizes, cv, rank, rule = fields(X)
        blocks = ('get', X, ('f', 'blocks_list'))
        size = lambda t: ('call', 'size', (t,))
        D = Diag(R)
        seen = 0
        ob = lambda n, ok, why='': ctx.ob('check_tensor: %s' % n, ok, w, why)
        for s, k, v in R.outs:
            if k != 'return':
                continue
            x = value(I, s, v)
            em, ne, o = D.split(s.facts)
            p = D.parts(x)
            if p is None or any(D.parts(y) == [] for y in ne):
                continue
            d = D.demands([x] + em)
            if d is None or any(D.demands([y]) == [] and D.parts(y) == [] for y in ne):
                continue
            if any(y == x for y in ne):
                continue
            seen += 1
            L = {(kk, R.fin(N(dd))): vv for (kk, dd), vv in o.items()}
            ob('an empty report means rank and section counts agree', eq_lit(L, rank, size(sbd)) is True, 'a disagreement is not reported')
            tots = [('sum', sbd, ZERO, size(sbd)), ('sum', sbd, ZERO, rank)]
            ob('an empty report means the section sizes are all there', any(eq_lit(L, y, size(sizes)) is True for y in tots), 'a disagreement is not reported')
            ob('an empty report means the conserved quantities are all there', eq_lit(L, size(cv), size(sizes)) is True or any(eq_lit(L, size(cv), y) is True for y in tots),
               'a disagreement is not reported')
            outer = [(r, t) for r, t in d if r['kind'] == 'rfor' and N(I.read(r['entry'], r['rng'])) == blocks or walks_all(R, r, blocks)]
            if not ob('an empty report means every stored block was examined', bool(outer), 'no walk over the stored blocks'):
                continue
            r, t = outer[0]
            early = [e for e in r['exits'] if e[2].get(t, t) != t]
            ob('the examination is not cut short', not [z for z in r.get('rets') or () if D.parts(value(I, z[0], z[2])) is not None] if r.get('rets') else True, 'leaves early with nothing reported')
            ind, val = ('E', blocks, ('pos', r['site']), 'get0'), ('E', blocks, ('pos', r['site']), 'get1')
            for L, d2 in D.clean(r, t):
                block_ok(ctx, R, D, ob, X, ind, val, L, d2)
        ctx.need(seen, 'check_tensor: no path with an empty report')


def walks_all(R, r, cont):
    t = R.trips.get(('iter', r['site']))
    return bool(t) and R.N(('call', 'size', (cont,))) in t


def block_ok(ctx, R, D, ob, X, ind, val, L, d2):
    """facts of one unreported iteration over the blocks"""
    N = R.N
    sbd, sizes, cv, rank, rule = fields(X)
    size = lambda t: ('call', 'size', (t,))
    # names of loops in evaluated facts
    ob('unreported block: index has the rank of the tensor', eq_lit(L, size(ind), rank) is True, 'an index of another length is not reported')
    dims = ('op', 'sizes', (val,))
    nd = [size(dims), ('op', 'dim', (val,)), ('op', 'ndimension', (val,))]
    ob('unreported block: tensor has the rank', any(eq_lit(L, a, rank) is True or eq_lit(L, a, size(ind)) is True for a in nd), 'a tensor of another rank is not reported')
    rng = cons = shape = False
    for r2, t2 in d2:
        it = ('iter', r2['site'])
        tr = R.trips.get(it) or set()
        tr = {x for x in tr}
        full = any(x in (rank, size(ind), size(sbd)) for x in tr)
        if not full:
            continue
        cl = D.clean(r2, t2)
        a = ('at', ind, it)
        cnt = ('at', sbd, it)
        if cl and all(known_lt(q, a, ZERO) is False and known_lt(q, a, cnt) is True for q, _ in cl):
            rng = True
        ss = ('call', BTQ + 'section_size', (X, it, a))
        if cl and all(eq_lit(q, ss, ('at', dims, it)) is True or eq_lit(q, ss, ('op', 'size', (val, it))) is True for q, _ in cl):
            shape = True
        qs = ('call', BTQ + 'section_conserved_qtt', (X, it, a))
        for nm in r2['init']:
            if N(r2['init'][nm]) == ('call', 'quantit::any_quantity_cref::neutral', (rule,)) or r2['init'][nm][0] == 'call' and r2['init'][nm][1].endswith('::neutral'):
                if N(r2['init'][nm])[2][0] != rule:
                    continue
                cl_ends = [e for e in r2['ends'] if D.parts(e[2].get(t2, t2)) is not None]
                if cl_ends and all(strip_v(group_step(N, e[2].get(nm, nm), nm) or ZERO) == qs for e in cl_ends):
                    for (k, dd), v in L.items():
                        cmp_ = truth_cmp(dd, N(nm), rule)
                        if k == 'eq0' and cmp_ is not None and (v is not cmp_):
                            cons = True
    ob('unreported block: index within the sections', rng, 'an index out of range is not reported')
    ob('unreported block: allowed by the selection rule', cons, 'a block breaking the selection rule is not reported')
    ob('unreported block: sizes are those of the sections', shape, 'a block of other sizes is not reported')


def group_step(N, nv, nm):
    """the factor an accumulated quantity is multiplied by in one step"""
    while nv[0] == 'mut' and nv[1].endswith('::operator=') and len(nv[3]) == 2:
        nv = nv[3][1]
    if nv[0] in ('mut', 'call') and nv[1].split('::')[-1] in GROUPOP:
        a = nv[3] if nv[0] == 'mut' else nv[2]
        if len(a) == 2:
            for x, y in (a, a[::-1]):
                if x == nm or len(x) > 2 and x[0] == 'call' and strip_v(x) == nm:
                    return N(y)
    return None


def strip_v(t):
    while len(t) > 2 and t[0] == 'call' and len(t[2]) == 1 and ('operator ' in t[1] and 'vquantity' in t[1] or t[1].endswith('::get')):
        t = t[2][0]
    return t


def truth_cmp(d, a, b):
    """the term d is a comparison of a and b: True when d non-zero means equal"""
    if d[0] == 'call' and len(d[2]) == 2 and d[1].split('::')[-1] in ('operator==', 'operator!='):
        x, y = (strip_v(z) for z in d[2])
        if {x, y} == {a, b}:
            return d[1].endswith('==')
    return None


# ------------------------------------------------------------------ the gate
def block_product(R, t, qv, key):
    """t compares the product of the quantities of the block with the selection rule"""
    I, N = R.I, R.N
    a, b = (strip_v(z) for z in t[2])
    acc, other = (a, b) if a[0] == 'phi' else (b, a)
    rec = I.phirec.get(acc)
    if other != RULE or rec is None:
        return False, 'it compares %s with %s' % (fmt(a, 4), fmt(b, 4))
    it = ('iter', rec['site'])
    init = N(rec['init'][acc])
    if not (init[0] == 'call' and init[1].endswith('::neutral') and strip_v(init[2][0]) == RULE):
        return False, 'the product starts from %s' % fmt(init, 4)
    steps = {group_step(N, e[2].get(acc, acc), acc) for e in rec['ends']}
    why = 'the product runs over %s' % [fmt(y or ('c', '?'), 4) for y in steps]
    if len(rec['exits']) != 1 or len(steps) != 1:
        return False, why
    step = strip_v(steps.pop() or ('c', 0))
    tr = R.trips.get(it) or set()
    if step == ('at', qv, it):
        return tr == {N(('call', 'size', (qv,)))} or bool(rec['rng']) and N(I.read(rec['entry'], rec['rng'])) == qv, why
    if step == ('at', CV, add(('sum', SBD, ZERO, it), ('at', key, it))):
        return bool(tr & {RANK, ('call', 'size', (key,)), ('call', 'size', (SBD,))}), 'the product runs over %s dimensions' % [fmt(y, 4) for y in tr]
    return False, why


def conservation(ctx, F):
    fns = F.q(BTQ + 'block_conservation_rule_test')
    ctx.need(fns, 'block_conservation_rule_test not found')
    for fn in fns:
        R = Run(F, fn, LOOKUPS, SC)
        I, N, w = R.I, R.N, W(fn)
        key = ('sym', fn.params[0]['n'])
        qv = ('call', BTQ + 'block_quantities', (T, key))
        for s, k, v in R.outs:
            if k != 'return':
                continue
            x = N(value(I, s, v))
            ok, why = False, 'answers %s' % fmt(x, 5)
            L = R.lits(s.facts)
            tests = [(x, True)]
            if is_c(x):
                tests = [(d, (not vv) == bool(x[1])) for (kk, d), vv in L.items() if kk == 'eq0']
            elif x[0] == 'not' and len(x) == 2:
                tests = [(x[1], False)]
            for t, same in tests:
                if t[0] == 'call' and len(t[2]) == 2 and t[1].split('::')[-1] in ('operator==', 'operator!=') and t[1].endswith('==') is same:
                    ok, why = block_product(R, t, qv, key)
                    if ok:
                        break
            ctx.ob('conservation test: product of the quantities of the block against the selection rule', ok, w, why)
    n = 0
    for fn in F.q(BTQ + 'block'):
        R = Run(F, fn)
        I, N, w = R.I, R.N, W(fn)
        key = ('sym', fn.params[0]['n'])
        ob = lambda nm, ok, why='': ctx.ob('block: %s' % nm, ok, w, why)
        for s, k, v in R.outs:
            L = R.lits(s.facts, {('iter', r['site']) for r in I.loops})
            size = N(('call', 'size', (key,)))
            cons = next((vv for (kk, dd), vv in L.items() if kk == 'eq0' and dd == ('call', BTQ + 'block_conservation_rule_test', (T, key))), None)
            if k == 'return':
                n += 1
                ob('index has the rank of the tensor', eq_lit(L, size, RANK) is True, 'an index of another length is accepted')
                ob('block allowed by the selection rule', cons is False, 'a block is created without the conservation test')
                good = False
                for r in I.loops:
                    it = ('iter', r['site'])
                    tr = R.trips.get(it) or set()
                    if not (tr & {size, RANK}):
                        continue
                    a = ('at', key, it)
                    good = good or bool(r['ends']) and all(known_lt(q, a, ZERO) is False and known_lt(q, a, ('at', SBD, it)) is True
                                                           for q in (R.lits(e[1], {it}) for e in r['ends']))
                ob('index within the sections', good, 'an index out of range is accepted')
                x = N(value(I, s, v))
                ob('the slot of that index', x == ('at', ('get', T, ('f', 'blocks_list')), ('key', key)) or found_first(R, s, x, key), 'returns %s' % fmt(x, 5))
            elif k == 'throw':
                bad = eq_lit(L, size, RANK) is False or cons is True
                for (kk, dd), vv in L.items():
                    for y in subterms(dd):
                        if len(y) > 2 and y[0] == 'at' and y[1] == key and y[2][0] == 'iter':
                            if known_lt(L, y, ZERO) is True or known_lt(L, y, ('at', SBD, y[2])) is False:
                                bad = True
                ob('only invalid indices are refused', bad, 'a valid index is refused')
            ob('a refusal leaves the tensor alone', k != 'throw' or R.C(s.env.get(('o', 'this'), T)) == T, 'the tensor changes before refusing')
    ctx.need(n, 'block() has no normal outcome')
    for fn in F.q(BTQ + 'block_at'):
        R = Run(F, fn)
        w = W(fn)
        key = ('sym', fn.params[0]['n'])
        for s, k, v in R.outs:
            if k != 'return':
                continue
            x = R.N(value(R.I, s, v))
            how = [e for e in flat(s.log) if e[0] == 'index']
            ctx.ob('block_at: the stored block of that index, or an exception', x == ('at', ('get', T, ('f', 'blocks_list')), ('key', key)) and
                   bool(how) and all(e[4] == 'at' for e in how) or found_first(R, s, x, key), w, 'returns %s, by %s' % (fmt(x, 5), [e[4] for e in how]))


def flat(log):
    out = []
    for e in log:
        if e[0] == 'loop':
            out += flat(e[2])
        else:
            out.append(e)
    return out


def found_first(R, s, x, key):
    """the answer of a search for the key, known to have found it"""
    bl = ('get', T, ('f', 'blocks_list'))
    f = [y for y in subterms(x) if len(y) > 2 and y[0] == 'call' and y[1].split('::')[-1] == 'find' and tuple(y[2]) == (bl, key)]
    if not f or x not in (('get', ('deref', f[0]), ('f', 'get1')), ('get', ('deref', f[0]), ('f', 'second'))):
        return False
    for (k, d), v in s.facts.items():
        d = R.N(d)
        c, m = aff(d)
        if k == 'eq0' and v is False and f[0] in m and any(a != f[0] and ('end' in repr(a) or a[0] == 'begin') for a in m):
            return True
        if k == 'eq0' and d[0] == 'call' and d[1].split('::')[-1] in ('operator!=', 'operator==') and f[0] in d[2] and \
                any(a != f[0] and ('end' in repr(a) or a[0] == 'aff') for a in d[2]):
            return v is d[1].endswith('==')
    return False


class SC(BT):
    """block views are containers (their iteration is the subject of A08)"""
    folds = True

    def is_iter_cls(self, cls):
        return super().is_iter_cls(cls) or cls.startswith(BTQ) and cls.endswith('block_prop_iter')

    def on_call(self, s, e, f, ol, args):
        if f.startswith(BTQ) and 'block_prop_view::' in f and ol is not None and f.split('::')[-1] in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty'):
            return self.map_call(s, e, f.split('::')[-1], ol, args)
        return super().on_call(s, e, f, ol, args)


# ------------------------------------------------------------------ construction
def flattened(R, x, lst, comp):
    """x lists component `comp` of the entries of the inner lists of lst, in order"""
    I, N = R.I, R.N
    while x[0] == 'ctor' and x[1] == 'quantit::any_quantity_vector' and len(x[2]) == 1:
        x = strip_copies(x[2][0])
    if x[0] != 'phi' or x not in I.phirec:
        return False, 'it is %s' % fmt(N(x), 5)
    rec = I.phirec[x]
    if not (R.trips.get(('iter', rec['site'])) or set()) & {N(('call', 'size', (lst,)))}:
        return False, 'not all dimensions are walked'
    o = ('iter', rec['site'])
    inner = ('at', lst, o)
    for e in rec['ends']:
        nv = strip_copies(e[2].get(x, x))
        r2 = I.phirec.get(nv)
        if nv[0] != 'phi' or r2 is None or r2 is rec:
            return False, 'a dimension adds %s' % fmt(N(nv), 5)
        j = ('iter', r2['site'])
        if not (R.trips.get(j) or set()) & {N(('call', 'size', (inner,)))} and not (R.trips.get(j) or set()) & {('call', 'size', (inner,))}:
            return False, 'not all sections of a dimension are walked'
        if r2['init'].get(nv) != x and rec['init'].get(x) != r2['init'].get(nv):
            return False, 'a dimension starts from %s' % fmt(N(r2['init'].get(nv)), 4)
        for e2 in r2['ends']:
            y = e2[2].get(nv, nv)
            if y[0] == 'mut' and y[1].split('::')[-1] in ('push_back', 'emplace_back') and y[3][0] == nv:
                val, pos = y[3][1], None
                if not empty_container(strip_copies(rec['init'][x])):
                    return False, 'appended to a list that is not empty'
            else:
                ps = peel(y, nv)
                if ps is None or len(ps) != 1:
                    return False, 'a section adds %s' % fmt(N(y), 5)
                pos, val = N(ps[0][1]), ps[0][2]
                c = sub(pos, j)
                good = False
                for cn, c0 in rec['init'].items():
                    if c0 == ZERO and N(cn) == c and N(e[2].get(cn, cn)) == add(c, j):
                        good = True
                if not good:
                    return False, 'section written at %s' % fmt(pos, 5)
            if N(val) != ('E', inner, ('pos', r2['site']), comp):
                return False, 'a section holds %s' % fmt(N(val), 6)
    return True, ''


def construction(ctx, F):
    n = 0
    deep = STRUCT | {BTQ + 'throw_bad_tensor'}
    for fn in F.q(BTQ + 'btensor'):
        ty = fn.ptypes()
        if len(ty) < 3:
            continue
        R = Run(F, fn, deep)
        R.N.raw_sizes = True
        I, N, C, w = R.I, R.N, R.C, W(fn)
        P = {p['n']: ('sym', p['n']) for p in fn.params}
        if ty[0].startswith('const quantit::btensor'):
            continue
        lst = next((('sym', p['n']) for p, t in zip(fn.params, ty) if 'std::vector<std::vector<std::tuple' in t), None)
        what = 'from a list of sections' if lst else 'from raw parts'
        ob = lambda nm, ok, why='': ctx.ob('construction %s: %s' % (what, nm), ok, w, why)
        for s, k, v in R.outs:
            this = s.env.get(('o', 'this'))
            chk = None
            for (kk, dd), vv in s.facts.items():
                x = dd
                if kk == 'eq0':
                    for y in subterms(dd):
                        if len(y) > 2 and y[0] == 'call' and y[1] == BTQ + 'check_tensor':
                            chk = (vv if not (dd[0] == 'call' and dd[1].endswith('empty')) else not vv, y[2][0])
            if k == 'throw':
                ob('only malformed parts are refused', chk is not None and chk[0] is False, 'well-formed parts are refused')
                continue
            if k != 'return':
                continue
            n += 1
            ob('malformed parts are refused', chk is not None and chk[0] is True, 'constructed without looking at the diagnosis')
            obj = this
            if chk is not None:
                same = [f for f in ALLF[:6] if N(proj(chk[1], ('f', f))) != N(proj(obj, ('f', f)))]
                ob('the diagnosis is of the tensor constructed', not same, 'changed after the diagnosis: %s' % same)
            g = lambda f: strip_copies(proj(obj, ('f', f)))
            if lst:
                ob('rank is the number of dimensions listed', N(g('rank')) == ('call', 'size', (lst,)), 'it is %s' % fmt(N(g('rank')), 4))
                e = filled(R, g('sections_by_dim'))
                ok = e is not None and e[2] == ('call', 'size', (('at', lst, e[1]),)) and e[0] == ('call', 'size', (lst,))
                ob('section counts are those listed', ok, 'they are %s' % (fmt(e[2], 5) if e else fmt(N(g('sections_by_dim')), 4)))
                for f, c, nm in (('sections_sizes', 'get0', 'sizes'), ('c_vals', 'get1', 'conserved quantities')):
                    ok, why = flattened(R, g(f), lst, c)
                    ob('%s are those listed, in order' % nm, ok, why)
                bl = g('blocks_list')
                ob('no block is stored', no_blocks(bl), 'blocks: %s' % fmt(N(bl), 4))
                sel = next(('sym', p['n']) for p, t in zip(fn.params, ty) if 'quantity' in t and 'std::' not in t)
                ob('selection rule is the one given', N(g('selection_rule')) == sel, 'it is %s' % fmt(N(g('selection_rule')), 4))
            else:
                for p, t in zip(fn.params, ty):
                    pass
                vals = {f: N(g(f)) for f in ALLF[:6]}
                kinds = role(fn)
                for f, pn in kinds.items():
                    ob('%s is the part given' % f, vals[f] == ('sym', pn), 'it is %s' % fmt(vals[f], 4))
                if 'rank' not in kinds:
                    ob('rank is the number of section counts', vals['rank'] == ('call', 'size', (vals['sections_by_dim'],)), 'it is %s' % fmt(vals['rank'], 4))
                if 'blocks_list' not in kinds:
                    ob('no block is stored', no_blocks(g('blocks_list')), 'blocks: %s' % fmt(vals['blocks_list'], 4))
    ctx.need(n >= 4, 'constructors from parts not found')


def no_blocks(bl):
    return bl[0] == 'ctor' and (bl[1].startswith('quantit::flat_map') or bl[1] == 'std::allocator') and \
        (not bl[2] or all(x[0] == 'ctor' and x[1] in ('std::less', 'std::allocator') for x in bl[2][1:])) and \
        not any(x and x[0] in ('list', 'begin') for a in bl[2] for x in subterms(a))


def role(fn):
    """which parameter provides which part, by type and order"""
    out = {}
    idx = []
    for p, t in zip(fn.params, fn.ptypes()):
        t = t.replace('const ', '')
        if 'flat_map' in t:
            out['blocks_list'] = p['n']
        elif 'any_quantity_vector' in t:
            out['c_vals'] = p['n']
        elif 'any_quantity' in t:
            out['selection_rule'] = p['n']
        elif t.startswith('std::vector<long'):
            idx.append(p['n'])
        elif t == 'unsigned long':
            out['rank'] = p['n']
    if len(idx) == 2:
        out['sections_by_dim'], out['sections_sizes'] = idx
    return out


def throw_bad(ctx, F):
    for fn in F.q(BTQ + 'throw_bad_tensor'):
        R = Run(F, fn)
        w = W(fn)
        X = ('sym', fn.params[0]['n'])
        D = Diag(R)
        for s, k, v in R.outs:
            st = None
            for (kk, dd), vv in s.facts.items():
                c, m = aff(dd)
                if kk == 'eq0' and any(a == ('call', BTQ + 'check_tensor', (X,)) for a in m) or \
                        dd[0] == 'call' and dd[1].split('::')[-1] in ('size', 'length', 'empty') and dd[2][0] == ('call', BTQ + 'check_tensor', (X,)):
                    st = vv if not (dd[0] == 'call' and dd[1].endswith('empty')) else not vv
            ctx.ob('throw_bad_tensor throws exactly for a malformed tensor', st is (k == 'return'), w, '%s when the report is %s' % (k, st))


def a09(ctx):
    F = load(['btensor.cpp'], True)
    conservation(ctx, F)
    check_tensor_rule(ctx, F)
    construction(ctx, F)
    throw_bad(ctx, F)
