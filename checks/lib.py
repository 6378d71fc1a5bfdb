"""Shared helpers of the rule modules."""
from facts import show, Facts, Broken, walk, pe, REPO
from interp import *

_cache = {}


def load(units=None, probe=True):
    k = (tuple(units) if units else None, probe)
    if k not in _cache:
        _cache[k] = Facts(units, probe)
    return _cache[k]


class Num(Interp):
    """interval reasoning over the affine normal form; bounds: {atom: (lo, hi)}"""

    depth = 0

    def __init__(self, facts, bounds=None):
        super().__init__(facts)
        self.bounds = bounds or {}
        self.narrow = []          # (node, type, lo, hi) stores that may not fit

    def atom_bounds(self, st, a):
        if a in self.bounds:
            return self.bounds[a]
        if a[0] == 'bin' and a[1] == '%' and is_c(a[3]) and isinstance(a[3][1], int) and a[3][1] > 0:
            n = a[3][1]
            lo, hi = (None, None)
            if self.depth < 2:
                self.depth += 1
                lo, hi = self.interval(st, a[2])
                self.depth -= 1
            l, h = -(n - 1), n - 1
            if lo is not None and lo >= 0:
                l = 0
            if hi is not None and hi <= 0:
                h = 0
            if lo is not None and lo > -(n - 1):
                l = max(l, min(lo, 0))
            if hi is not None and hi < n - 1:
                h = min(h, max(hi, 0))
            return l, h
        if self.nonneg(a):
            return 0, None
        if a[0] == 'bin' and a[1] == '*':
            l, h = (0, None) if a[2] == a[3] else (None, None)
            if self.depth < 2:
                self.depth += 1
                x, y = self.interval(st, a[2]), self.interval(st, a[3])
                self.depth -= 1
                if None not in x + y:
                    c = [p * q for p in x for q in y]
                    l, h = min(c) if l is None else 0, max(c)
            return l, h
        return None, None

    def interval0(self, st, t):
        c, m = aff(t)
        lo = hi = c
        for a, k in m.items():
            l, h = self.atom_bounds(st, a)
            # sign facts about the atom itself
            f = st.facts.get(('lt0', a))
            if f is True:
                h = -1 if h is None else min(h, -1)
            elif f is False:
                l = 0 if l is None else max(l, 0)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi

    def interval(self, st, t):
        """sound bounds of t from atom bounds and the literals known in st"""
        lo, hi = self.interval0(st, t)
        if is_c(t):
            return lo, hi
        atoms = aff(t)[1]
        # a literal over other atoms cannot tighten the bounds of t
        facts = [x for x in st.facts.items() if not atoms.keys().isdisjoint(aff(x[0][1])[1])]

        def tighten(l, h):
            nonlocal lo, hi
            if l is not None:
                lo = l if lo is None else max(lo, l)
            if h is not None:
                hi = h if hi is None else min(hi, h)
        for _ in range(2):
            for (k, d), v in facts:
                for sg in (1, -1):
                    r = add(t, d, -sg)          # t = r + sg*d
                    rl, rh = self.interval0(st, r)
                    if k == 'lt0':
                        dl, dh = (None, -1) if v else (0, None)
                    elif v:
                        dl = dh = 0
                    else:
                        continue
                    if sg < 0:
                        dl, dh = (None if dh is None else -dh), (None if dl is None else -dl)
                    tighten(None if rl is None or dl is None else rl + dl, None if rh is None or dh is None else rh + dh)
            for (k, d), v in facts:
                if k == 'eq0' and not v:        # t != const: trims an end point
                    for sg in (1, -1):
                        r = add(t, d, -sg)
                        if is_c(r):
                            if lo == r[1]:
                                lo += 1
                            if hi == r[1]:
                                hi -= 1
        return lo, hi

    def decide(self, st, atom):
        v = super().decide(st, atom)
        if v is not None:
            return v
        lo, hi = self.interval(st, atom[1])
        if atom[0] == 'lt0':
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif atom[0] == 'eq0':
            if lo is not None and hi is not None and lo == hi == 0:
                return True
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
        return None

    RANGE = {'unsigned short': (0, 65535), 'uint16_t': (0, 65535), 'short': (-32768, 32767), 'int16_t': (-32768, 32767),
             'unsigned char': (0, 255), 'signed char': (-128, 127), 'char': (-128, 127), 'bool': (0, 1)}

    def on_store(self, st, val, ty, node):
        r = self.RANGE.get(ty.replace('const ', '').replace('&', '').strip())
        if r is None or val[0] in ('sym', 'get'):
            return
        lo, hi = self.interval(st, val)
        if lo is None or hi is None or lo < r[0] or hi > r[1]:
            self.narrow.append((node.get('l'), ty, lo, hi))


    def on_arith(self, st, val, node):
        lo, hi = self.interval(st, val)
        if lo is not None and lo < -2 ** 31 or hi is not None and hi >= 2 ** 31:
            self.narrow.append((node.get('l'), 'int', lo, hi))


def symargs(fn):
    return [('sym', p['n'] or '#%d' % i) for i, p in enumerate(fn.params)]


def value(I, s, v):
    if v is None:
        return ('void',)
    return I.read(s, v[1]) if v[0] == 'l' else v[1]


def param_val(s, fn, i):
    """current value of parameter i of the analysed entry function"""
    p = fn.params[i]
    if p['pk'] in ('ref', 'cref', 'rref'):
        r = ('o', p['n'] or '#%d' % i)
        return s.env.get(r, ('sym', r))
    return s.env.get(('v', 1, p['d']))


def fields(F, cls):
    c = F.classes.get(cls)
    if c is None:
        raise Broken('class %s not found' % cls)
    return [f['n'] for f in c['fields'] if not f.get('static')]


def cls_of(fn):
    return fn.ty(fn.j.get('clst')) if fn.j.get('clst') is not None else None
