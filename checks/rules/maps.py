"""A04, A05: the sorted block container flat_map."""
from lib import *

FMQ = 'quantit::flat_map::'
THIS_C = (('o', 'this'), (('f', 'content'),))


def is_it(cls):
    return cls in ('quantit::flat_map::iterator', 'quantit::flat_map::const_iterator')


class MapI(Num):
    """std::lower_bound/upper_bound give ('lb'|'ub', first, last, key); std::less becomes an arithmetic literal"""

    def __init__(self, F):
        super().__init__(F)
        self.bad = []
        self.nderef = 0
        self.hint = None          # a parameter: any position of this container, its end included

    def lv(self, st, e):
        if e['k'] == 'member' and e['n'] == 'it' and not e.get('arrow') and 'flat_map' in self.types(e['b'].get('t', 0)):
            return self.lv(st, e['b'])
        if e['k'] == 'member' and e['n'] == 'it' and e['b']['k'] == 'this':
            return [(st, st.refs[('this', self.frame)])]
        return super().lv(st, e)

    def want_inline(self, fn, st, node, args):
        return not (fn.kind == 'ctor' and is_it(fn.cls))

    def transparent(self, cls):
        return is_it(cls) or super().transparent(cls)

    def key(self, st, t):
        """the key a search argument stands for"""
        return t

    def on_call(self, s, e, f, ol, args):
        n = f.split('::')[-1]
        if f.startswith('std::less') and n == 'operator()':
            a, b = (self.argval(s, x) for x in args)
            t, fl = self.compare(s, '<', a, b)
            return [(x, ONE) for x in t] + [(x, ZERO) for x in fl]
        if f == 'std::sort' or f == 'std::stable_sort':
            v = [self.argval(s, x) for x in args]
            s.event('sort', v[0], v[1])
            return [(s, ('void',))]
        if n in ('resize', 'erase') and ol is not None and ol == THIS_C:
            s.event('shrink', e['l'])
        if f in ('std::lower_bound', 'std::upper_bound'):
            v = [self.argval(s, x) for x in args]
            k = v[2]
            if 'pair' in self.types(e['a'][2]['t']):
                k = proj(k, ('f', 'first'))
            return [(s, ('lb' if n[0] == 'l' else 'ub', v[0], v[1], k))]
        if f.endswith('vector::insert') or f.endswith('vector::emplace') or f.endswith('vector::erase'):
            v = [self.argval(s, x) for x in args]
            s.event(n, ol, tuple(v), e['l'])
            old = self.read(s, ol)
            self.write(s, ol, ('mut', f, 'obj', (old,) + tuple(v)), e)
            return [(s, ('at', v[0]) if n != 'erase' else v[0] if len(v) == 2 and v[0] == v[1] else ('call', f, tuple(v)))]
        if f in ('std::copy_backward', 'std::move_backward', 'std::copy', 'std::move') and len(args) == 3:
            v = [self.argval(s, x) for x in args]
            s.event('copy', f, tuple(v), e['l'])
            return [(s, ('call', f, tuple(v)))]
        return None

    def on_fnvalue(self, s, node, ft, locs):
        if ft[0] == 'sym':
            s.event('cb', ft[1], tuple(locs), node['l'], tuple(sorted(s.facts.items(), key=repr)), self.read(s, THIS_C) )
            return [(s, ('void',))]
        return None

    def end_of(self, st, t):
        """known not to be the end of the searched range"""
        return self.decide(st, ('eq0', sub(t, t[2]))) is False or self.decide(st, ('eq0', sub(t[2], t))) is False

    def on_deref(self, st, t, node):
        if t[0] in ('lb', 'ub'):
            self.nderef += 1
            ok = self.end_of(st, t)
            if not ok:
                # compared with the container's end, of which the range's end is a prefix
                for (k, d), v in st.facts.items():
                    if k == 'eq0' and v is False:
                        r = add(d, t, -1)
                        r2 = add(d, t, 1)
                        if t not in aff(r)[1] or t not in aff(r2)[1]:
                            ok = True
                    if k == 'lt0' and v is True and t in aff(d)[1] and aff(d)[1][t] == 1:
                        ok = True
            if not ok:
                self.bad.append((node['l'], fmt(t)))
        elif self.hint:
            c, m = aff(t)
            first = ('begin',) + THIS_C
            count = self.size(st, THIS_C)
            end = add(first, count)
            at_end = lambda x: any(st.facts.get(('eq0', y)) for y in (sub(x, end), sub(end, x)))
            no = lambda y: any(st.facts.get(('eq0', z)) is False for z in (y, sub(ZERO, y)))
            if m == {self.hint: 1}:
                last = at_end(self.hint)
                ok = no(sub(self.hint, end)) if c == 0 else c == -1 and (no(count) if last else no(sub(self.hint, first)))
            elif t == add(end, ('c', -1)):
                ok = no(count)
            else:
                return
            self.nderef += 1
            if not ok:
                self.bad.append((node['l'], fmt(t)))


def iters(F, f):
    return 'flat_map' in (f.cls or '') and not f.dep


def found_state(I, s, t, key):
    """True: element t has the searched key; False: absent; None: undetermined"""
    k = ('get', ('deref', t), ('f', 'first'))
    ne = None
    for (kk, d), v in s.facts.items():
        if kk == 'eq0' and t in aff(d)[1]:
            ne = not v if ne is None else ne
        if kk == 'lt0' and t in aff(d)[1] and v and aff(d)[1][t] == 1:
            ne = True
    if ne is False:
        return False
    lt = I.decide(s, ('lt0', sub(key, k)))      # key < *it
    eq = I.decide(s, lit_eq(k, key)[0])
    if lt is True or eq is False:
        return False
    if ne is True and (lt is False or eq is True):
        return True
    return None


def subs(t, kind):
    return {x for x in subterms(t) if isinstance(x, tuple) and len(x) == 4 and x[0] == kind and isinstance(x[1], tuple)}


def a04(ctx):
    F = load(['groups.cpp'], True)
    cls = [c for c in F.classes if c.startswith('quantit::flat_map<int, double')]
    ctx.need(cls, 'probe instantiation of flat_map not found')
    fns = [f for f in F.all() if f.q.startswith(FMQ) and f.q.count('::') == 2 and (cls_of(f) or '').startswith('quantit::flat_map<int, double')]
    n = 0
    done = set()
    for f in fns:
        k = (f.name, f.line, tuple(p.split('<')[0].replace('(lambda', '') if 'lambda' not in p else 'fn' for p in f.ptypes()))
        if k in done:
            continue
        done.add(k)
        if f.kind == 'dtor' or f.j.get('defaulted'):
            continue
        I = MapI(F)
        pt = f.ptypes()
        if f.name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace', 'erase') and pt and pt[0].endswith('iterator') and not (len(pt) > 1 and pt[1].endswith('iterator')):
            I.hint = ('sym', f.params[0]['n'])
        outs = I.analyse(f)
        for l, t in dict.fromkeys(I.bad):
            ctx.ob('search result guarded:%s line %s' % (f.name, l), False, f.loc,
                   'the result of a search, %s, is dereferenced on a path that has not excluded the past-the-end position' % t, key='flat_map::%s deref' % f.name)
        if not I.bad:
            ctx.ob('search result guarded:%s' % f.name, True, f.loc)
        keyed(ctx, F, I, f, outs)
        unsorted(ctx, F, I, f, outs)
        n += 1
    ctx.need(n >= 40, 'only %d member functions of flat_map analysed' % n)


def keyed(ctx, F, I, f, outs):
    name = f.name
    spec = {'find': 'find', 'at': 'at', 'operator[]': 'index', 'count': 'count', 'contains': 'count', 'erase': 'erase',
            'insert': 'insert', 'emplace': 'emplace', 'equal_range': 'range'}.get(name)
    pts = f.ptypes()
    if spec == 'erase' and ('iterator' in pts[0] or len(pts) != 1):
        return
    if spec == 'insert' and not any(p.replace('const ', '').startswith('std::pair<') for p in pts):
        return
    if spec is None:
        return
    end = add(I.begin(None, THIS_C), ('call', 'size', (('get', ('sym', 'this'), ('f', 'content')),)))
    ok, why, seen = bool(outs), 'no path', set()
    for s, kind, v in outs:
        r = None if kind == 'throw' else value(I, s, v)
        cont = proj(s.env.get(('o', 'this'), ('sym', 'this')), ('f', 'content'))
        orig = ('get', ('sym', 'this'), ('f', 'content'))
        lbs = set()
        for x in list(s.facts) + [e for e in s.log] + [r or ()]:
            lbs |= {y for y in subterms(x) if isinstance(y, tuple) and y and y[0] == 'lb' and len(y) == 4}
        lbs = {l for l in lbs if not any(l != o and contains(o, l) for o in lbs)}
        if len(lbs) != 1:
            ok, why = False, 'a path does not look the key up exactly once (%d searches)' % len(lbs)
            break
        t, = lbs
        key = keyof(f, spec)
        if spec == 'emplace':
            key = t[3]
        if t[3] != key:
            ok, why = False, 'searches for %s instead of %s' % (fmt(t[3]), fmt(key))
            break
        full = t[1] == I.begin(None, THIS_C) and sub(t[2], end) == ZERO
        if not full:
            w = window(I, s, t, key, end)
            if w:
                ok, why = False, w
                break
        fs = found_state(I, s, t, key)
        evs = [e for e in s.events() if e[0] in ('insert', 'emplace', 'erase')]
        seen.add(fs)
        if fs is None:
            ok, why = False, 'a path acts without knowing whether the key is present'
            break
        el = ('get', ('deref', t), ('f', 'second'))
        elnew = ('get', ('deref', ('at', t)), ('f', 'second'))
        if spec == 'find':
            good = (sub(r, t) == ZERO if fs else (r == t or sub(r, end) == ZERO) and I.decide(s, ('eq0', sub(r, end))) is not False or sub(r, end) == ZERO) and cont == orig
            why_ = 'find returns %s when the key is %s' % (fmt(r) if r else r, 'present' if fs else 'absent')
        elif spec == 'at':
            good = (kind == 'throw') == (not fs) and (not fs or r == el) and cont == orig
            why_ = 'at() %s when the key is %s' % ('throws' if kind == 'throw' else 'returns ' + fmt(r), 'present' if fs else 'absent')
        elif spec == 'count':
            good = is_c(r) and bool(r[1]) == fs and cont == orig
            why_ = '%s returns %s when the key is %s' % (name, fmt(r), 'present' if fs else 'absent')
        elif spec == 'range':
            good = cont == orig
            lo, hi = proj(r, ('f', 'get0')), proj(r, ('f', 'get1'))
            if r[0] == 'tuple' and fs:
                good = good and sub(lo, t) == ZERO and sub(hi, lo) == ONE
            elif r[0] == 'tuple':
                good = good and sub(hi, lo) == ZERO or I.decide(s, ('eq0', sub(lo, hi))) is True or (sub(hi, end) == ZERO and sub(lo, t) == ZERO)
            why_ = 'equal_range returns %s when the key is %s' % (fmt(r), 'present' if fs else 'absent')
        elif spec == 'erase':
            good = is_c(r) and bool(r[1]) == fs and [e[0] for e in evs] == (['erase'] if fs else [])
            if fs and evs:
                good = good and len(evs[0][2]) == 1 and sub(evs[0][2][0], t) == ZERO
            why_ = 'erase returns %s and performs %s when the key is %s' % (fmt(r), [e[0] for e in evs], 'present' if fs else 'absent')
        else:                       # insertions
            ins = [e for e in evs if e[0] in ('insert', 'emplace')]
            good = (len(ins) == 0 and cont == orig) if fs else len(ins) == 1 and sub(ins[0][2][0], t) == ZERO
            good = good or (fs and [e[0] for e in evs] == ['erase'] and len(evs[0][2]) == 2 and evs[0][2][0] == evs[0][2][1])
            if spec == 'index':
                where = r
                good = good and kind != 'throw' and r == (el if fs else elnew)
            elif r[0] == 'tuple' and is_c(r[1][1]) and kind != 'throw':
                good = good and bool(r[1][1][1]) == (not fs)
                where = r[1][0]
            else:
                where = r
            if kind != 'throw' and spec != 'index':
                good = good and where == (t if fs else ('at', t))
            why_ = '%s performs %s and returns %s when the key is %s' % (name, [e[0] for e in evs], fmt(r), 'present' if fs else 'absent')
        if not good:
            ok, why = False, why_
            break
    if ok and seen != {True, False}:
        ok, why = False, 'the %s case is never handled' % ('present' if True not in seen else 'absent')
    ctx.ob('keyed access exact:%s(%s)' % (name, ', '.join(p.split('<')[0] for p in pts)), ok, f.loc, why, key='flat_map::%s keyed' % name)


def unsorted(ctx, F, I, f, outs):
    """members that take elements in arbitrary order must sort the whole content, then drop duplicate keys"""
    pts = [p.replace('const ', '') for p in f.ptypes()]
    raw = lambda p: p.startswith('std::vector<') or p.startswith('std::initializer_list<') or p.startswith('__gnu_cxx::__normal_iterator')
    it2 = f.kind == 'ctor' and len(pts) >= 2 and pts[0] == pts[1]
    if not (f.kind == 'ctor' or f.name == 'insert') or not (any(raw(p) for p in pts) or it2):
        return
    b = I.begin(None, THIS_C)
    ok, why = bool(outs), 'no path'
    for s, kind, v in outs:
        evs = [e for e in s.events() if e[0] in ('sort', 'shrink')]
        so = [i for i, e in enumerate(evs) if e[0] == 'sort' and e[1] == b and contains(e[2], b) and any(x[0] == 'call' and x[1] == 'size' for x in subterms(e[2]) if isinstance(x, tuple) and len(x) > 1)]
        if not so:
            ok, why = False, 'elements given in any order are kept without sorting the whole content'
        elif not any(e[0] == 'shrink' for e in evs[so[-1] + 1:]):
            ok, why = False, 'duplicate keys are not removed after sorting'
    ctx.ob('sorted and unique:%s/%d' % (f.name, len(f.params)), ok, f.loc, why, key='flat_map::%s sorted' % f.name)


def window(I, s, t, key, end):
    """a hinted search may restrict the range only to a window that provably contains the insertion point"""
    first, last = t[1], t[2]
    b = I.begin(None, THIS_C)
    at = lambda p: ('get', ('deref', p), ('f', 'first'))
    if sub(first, b) != ZERO:
        # some element h known smaller than key with first <= h + 1
        if not any(I.decide(s, ('lt0', sub(at(h), key))) is True for h in cands(first, (0, -1))):
            return 'the search starts at %s although nothing shows that every earlier key is smaller' % fmt(first)
    if sub(last, end) != ZERO:
        if not any(I.decide(s, ('lt0', sub(key, at(h)))) is True or I.decide(s, ('eq0', sub(key, at(h)))) is True for h in cands(last, (0, -1))):
            return 'the search stops at %s although nothing shows that every later key is at least the searched one' % fmt(last)
    return None


def cands(p, offs):
    return [add(p, ('c', o)) for o in offs]


def keyof(f, spec):
    for p in f.params:
        t = f.ty(p['t'])
        if t.replace('const ', '').startswith('std::pair<'):
            return ('get', ('sym', p['n']), ('f', 'first'))
    return ('sym', f.params[0]['n'])


# ---------------------------------------------------------------- A05
class MergeI(MapI):
    recorded = ('loops', 'cbs', 'copies')

    def __init__(self, F):
        super().__init__(F)
        self.cbs, self.copies, self.shrink = [], [], []
        self.loads = []

    def prov(self, st, t, seen=()):
        """where an iterator points: {'this': n, 'src': n} (integer parts cancel); None when unknown"""
        c, m = aff(t)
        tot = {}
        for a, k in m.items():
            if a[0] == 'begin':
                p = {'this' if a[1] == ('o', 'this') else 'src': 1}
            elif a[0] == 'sym' and a[1] in ('first', 'last'):
                p = {'src': 1}
            elif a[0] in ('lb', 'ub'):
                p = self.prov(st, a[1], seen)
            elif a[0] == 'elem':
                p = self.prov(st, a[1], seen)
            elif a[0] == 'phi':
                if a in seen:
                    continue
                ps = [self.prov(st, i, seen + (a,)) for i in self.phi_init.get(a, ())]
                if not ps or any(x != ps[0] for x in ps):
                    return None
                p = ps[0]
            elif a[0] in ('call', 'mut', 'uninit'):
                p = {}
            else:
                return None
            if p is None:
                return None
            for x, n in p.items():
                tot[x] = tot.get(x, 0) + n * k
        return {x: n for x, n in tot.items() if n}

    def on_write(self, st, loc, val, node):
        if node is not None and node.get('k') == 'call' and node.get('op') == '=' and node['a'] and node['a'][0].get('f') == 'std::move':
            st.event('moved', val, loc)

    def on_fnvalue(self, s, node, ft, locs):
        if ft[0] == 'sym' and ft[1] in ('coll', 'nocoll', 'collision', 'nocollision'):
            s.event('cb', ft[1], tuple(locs), node['l'])
            self.cbs.append((ft[1], tuple(locs), s.copy(), node['l']))
            return [(s, ('void',))]
        return None

    def on_call(self, s, e, f, ol, args):
        if f == 'std::swap' or f.endswith('::swap'):
            s.event('swap', e['l'])
        r = super().on_call(s, e, f, ol, args)
        if f in ('std::copy_backward', 'std::copy', 'std::move_backward', 'std::move') and len(args) == 3:
            v = [self.argval(s, x) for x in args]
            self.copies.append((f, tuple(v), s.copy(), e['l']))
        return r


def iter_of(loc):
    """iterator term and component path of a location designated through an iterator"""
    if loc[0][0] == 'p':
        return loc[0][1], loc[1]
    return None, None


def a05(ctx):
    F = load(['groups.cpp'], True)
    fns = []
    for f in F.all():
        if not (f.q.startswith(FMQ) and (cls_of(f) or '').startswith('quantit::flat_map<int, double')):
            continue
        if not f.params or f.name not in ('insert', 'merge'):
            continue
        pt = f.ptypes()
        if '(*' in pt[-1]:           # instantiated with plain function pointers: the callbacks are symbols
            fns.append(f)
    ctx.need(len({f.line for f in fns}) >= 4, 'instantiations of merge/insert with callbacks not found')
    nn = nc = 0
    for f in fns:
        I = MergeI(F)
        args = {i: ('sym', 'collision' if ',' in f.ty(p['t']).split('(*')[1] else 'nocollision')
                for i, p in enumerate(f.params) if '(*' in f.ty(p['t'])}
        outs = I.analyse(f, args=args)
        # callback roles
        seen = set()
        ranges = []
        for name, locs, s, line in I.cbs:
            if name == 'collision':
                ok, why = len(locs) == 2, ''
                if ok:
                    (ia, pa), (ib, pb) = iter_of(locs[0]), iter_of(locs[1])
                    a = ia and I.prov(s, ia)
                    b = ib and I.prov(s, ib)
                    ok = a == {'this': 1} and b == {'src': 1} and pa == pb == (('f', 'second'),)
                    why = 'collision called with (%s, %s): its first argument must be the element of this map and its second the element of the other' % (a, b)
                    if ok and not samekey(I, s, ia, ib):
                        ok, why = False, 'collision called on two elements not shown to have the same key'
                nc += 1
                ctx.ob('collision roles:%s/%d line %d' % (f.name, len(f.params), line), ok, f.loc, why, key='flat_map merge collision')
            else:
                it, path = iter_of(locs[0])
                ok, why = it is not None, 'the no-collision action gets something that is not an element'
                if ok:
                    rng = elem_range(I, s, it)
                    cps = [v for fn, v, _, _ in I.copies if fn in ('std::copy_backward', 'std::copy') and I.prov(s, v[0]) == {'src': 1}]
                    ok = rng is not None and path in ((('f', 'get1'),), (('f', 'second'),)) and any(same(rng, dest(v, fn)) for fn, v, _, _ in I.copies if 'copy' in fn)
                    why = 'the no-collision action is applied to a range of elements, %s, that is not the range just copied from the other map' % (fmt(it),)
                    ranges.append(rng)
                nn += 1
                ctx.ob('no-collision range:%s/%d line %d' % (f.name, len(f.params), line), ok, f.loc, why, key='flat_map merge nocollision')
        if 'nocollision' in [a[1] for a in args.values()]:
            for fn, v, s, line in I.copies:
                if 'copy' in fn and I.prov(s, v[0]) == {'src': 1}:
                    ok = any(r is not None and same(r, dest(v, fn)) for r in ranges)
                    ctx.ob('every copied element gets the action:%s/%d line %d' % (f.name, len(f.params), line), ok, f.loc,
                           'elements copied from the other map never get the no-collision action', key='flat_map merge copied')
            bad = [s for s, k, v in outs if any(e[0] == 'swap' for e in s.events())]
            ctx.ob('sides kept:%s/%d' % (f.name, len(f.params)), not bad, f.loc,
                   'the two contents are exchanged although the no-collision action only concerns the elements of the other map', key='flat_map merge sides')
        for rec in I.loops:
            for e in rec['ends']:
                left = [(nm, nv) for nm, nv in e[2].items() if nm[0] == 'phi' and I.prov(e[3], nv) == {'src': 1}]
                for x in e[0]:
                    if x[0] != 'cb' or x[1] != 'collision' or len(x[2]) != 2:
                        continue
                    ib, _ = iter_of(x[2][1])
                    if ib is None or not left:
                        continue
                    far = [(sub(ib, nv), sub(nv, nm)) for nm, nv in left]
                    ok = any(is_c(d) and (d[1] >= 0 or is_c(step) and step[1] > 0) for d, step in far)
                    ctx.ob('a matched element is done with:%s/%d line %d' % (f.name, len(f.params), x[3]), ok, f.loc,
                           'the element of the other map given to the collision action stays among those to insert', key='flat_map merge done')
        for fn, v, s, line in I.copies:
            src, dst = I.prov(s, v[0]), I.prov(s, v[2])
            ok = dst == {'this': 1} and (src == {'src': 1} if 'copy' in fn else src == {'this': 1}) and I.prov(s, v[1]) == src
            ctx.ob('storage transfer:%s/%d line %d' % (f.name, len(f.params), line), ok, f.loc,
                   '%s moves elements from %s to %s' % (fn, src, dst), key='flat_map merge transfer')
    ctx.need(nn >= 2 and nc >= 4, 'only %d callback sites found' % (nn + nc))


def dest(v, fn):
    n = sub(v[1], v[0])
    return (sub(v[2], n), v[2]) if fn.endswith('backward') else (v[2], add(v[2], n))


def same(r, d):
    return sub(r[0], d[0]) == ZERO and sub(r[1], d[1]) == ZERO


def elem_range(I, s, it):
    """the range of elements an iterator runs over: for_each range, or a loop from its initial value to the tested bound"""
    if it[0] == 'elem':
        return it[1], it[2]
    run, init = None, None
    if it[0] == 'phi' and len(I.phi_init.get(it, ())) == 1:
        run, (init,) = it, I.phi_init[it]
    its = [a for a, k in aff(it)[1].items() if a[0] == 'iter' and k == 1]
    if len(its) == 1:
        run, init = its[0], sub(it, its[0])
    if run:
        for (k, d), v in s.facts.items():
            if k == 'eq0' and not v and run in aff(d)[1]:
                for sg in (1, -1):
                    r = add(it, d, -sg)
                    if run not in aff(r)[1]:
                        return init, r
    return None


def samekey(I, s, ia, ib):
    """the path has compared the keys of the two elements and found them not ordered"""
    cur = I.rootval(s, ('p', ia))
    for e in s.events('moved'):
        if e[1] == cur and e[2] != (('p', ia), ()):
            return False            # the element has been moved elsewhere
    ds = {proj(cur, ('f', 'first'))}
    for (k, d), v in s.facts.items():
        if k == 'eq0' and v:
            for sg in (1, -1):
                r = add(ia, d, -sg)
                ds.add(proj(I.rootval(s, ('p', r)), ('f', 'first')))
    ks = proj(I.rootval(s, ('p', ib)), ('f', 'first'))
    for kd in ds:
        for a in (('lt0', sub(kd, ks)), ('lt0', sub(ks, kd))):
            if s.facts.get(a) is False:
                return True
        for a in (sub(kd, ks), sub(ks, kd)):
            if s.facts.get(('eq0', a)) is True:
                return True
    return False
