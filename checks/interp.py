"""Abstract interpreter over the extracted syntax trees.

Domain: Herbrand terms (value numbering) for every storage path, an affine normal form for integer and
iterator arithmetic, a set of branch literals, and an event log / client automaton state.  States are kept
apart by trace partitioning (bounded) and joined per client state; loops are abstracted by havocking what
their body changes and iterating the client state to a fixpoint.  Repository callees are inlined to a
bounded depth; anything else is an uninterpreted function of its arguments that replaces the value of every
argument it may write.  No solver, no concrete values, no execution.
"""
import sys
sys.setrecursionlimit(20000)

NARROW = ('unsigned short', 'short', 'unsigned char', 'signed char', 'char')
ZERO, ONE = ('c', 0), ('c', 1)
MINUS = ('c', -1)
UNDEF = ('undef',)


# ------------------------------------------------------------------ terms
def is_c(t):
    return t[0] == 'c'


def aff(t):
    """affine view: (const, {atom: coef})"""
    if t[0] == 'c' and isinstance(t[1], int):
        return t[1], {}
    if t[0] == 'aff':
        return t[1], dict(t[2])
    return 0, {t: 1}


def mkaff(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ('c', c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('aff', c, tuple(sorted(d.items(), key=repr)))


def add(a, b, s=1):
    ca, da = aff(a)
    cb, db = aff(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + s * v
    return mkaff(ca + s * cb, da)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if is_c(x) and isinstance(x[1], int):
            c, d = aff(y)
            return mkaff(c * x[1], {k: v * x[1] for k, v in d.items()})
    return ('bin', '*') + tuple(sorted((a, b), key=repr))


def neg_lit(l):
    return (l[0], not l[1])


def lit_eq(a, b):
    d = sub(a, b)
    if is_c(d):
        return d[1] == 0
    c, m = aff(d)
    k = sorted(m.items(), key=repr)
    if k and k[0][1] < 0:
        d = sub(ZERO, d)
    return (('eq0', d), True)


def lit_lt(a, b):
    d = sub(a, b)
    if is_c(d):
        return d[1] < 0
    return (('lt0', d), True)


def proj(t, key):
    """value of component `key` of the aggregate value t"""
    while t[0] == 'upd':
        m = dict(t[2])
        if key in m:
            return m[key]
        if key[0] == 'i':
            for k in m:
                if k[0] == 'i' and not distinct(k[1], key[1]):
                    return ('get', t, key)
        t = t[1]
    if t[0] == 'tuple' and key[0] == 'f' and key[1].startswith('get'):
        return t[1][int(key[1][3:])]
    if t[0] == 'list' and key[0] == 'i' and is_c(key[1]) and 0 <= key[1][1] < len(t[1]):
        return t[1][key[1][1]]
    if t[0] == 'copyi':
        pass
    return ('get', t, key)


def distinct(a, b):
    d = sub(a, b)
    return is_c(d) and d[1] != 0


def inject(t, path, v):
    if not path:
        return v
    k = path[0]
    old = proj(t, k)
    new = inject(old, path[1:], v)
    if t[0] == 'upd':
        m = dict(t[2])
        if k[0] == 'i':
            for kk in list(m):
                if kk[0] == 'i' and kk != k and not distinct(kk[1], k[1]):
                    return ('upd', t, ((k, new),))
        m[k] = new
        return ('upd', t[1], tuple(sorted(m.items(), key=repr)))
    if t[0] == 'tuple' and k[0] == 'f' and k[1].startswith('get'):
        l = list(t[1])
        l[int(k[1][3:])] = new
        return ('tuple', tuple(l))
    return ('upd', t, ((k, new),))


def strip_fields(t):
    """the value of an object seen through a library base class: own fields dropped"""
    while t[0] == 'upd':
        m = tuple((k, v) for k, v in t[2] if k[0] == 'i')
        if m:
            return ('upd', strip_fields(t[1]), m)
        t = t[1]
    return t


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)


def contains(t, sub_):
    return any(x == sub_ for x in subterms(t))


def fmt(t, depth=6):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth == 0:
        return '..'
    f = lambda x: fmt(x, depth - 1)
    k = t[0]
    if k == 'c':
        return str(t[1])
    if k == 'sym':
        return str(t[1])
    if k == 'get':
        kk = t[2]
        return f(t[1]) + ('.' + kk[1] if kk[0] == 'f' else '[' + f(kk[1]) + ']')
    if k == 'aff':
        s = ' + '.join((f(a) if c == 1 else '%d*%s' % (c, f(a))) for a, c in t[2])
        return '(' + s + (' + %d' % t[1] if t[1] else '') + ')'
    if k == 'call':
        return t[1].split('::')[-1] + '(' + ', '.join(f(x) for x in t[2]) + ')'
    if k == 'mut':
        return t[1].split('::')[-1] + '#%s(' % t[2] + ', '.join(f(x) for x in t[3]) + ')'
    if k == 'upd':
        return f(t[1]) + '{' + ', '.join((kk[1] if kk[0] == 'f' else f(kk[1])) + ':=' + f(v) for kk, v in t[2]) + '}'
    if k == 'bin':
        return '(' + f(t[2]) + ' ' + t[1] + ' ' + f(t[3]) + ')'
    if k == 'phi':
        return 'phi%s' % (t[1],)
    return '<' + ' '.join(f(x) if isinstance(x, tuple) else str(x) for x in t) + '>'


# ------------------------------------------------------------------ state
class St:
    __slots__ = ('env', 'refs', 'facts', 'log', 'auto')

    def __init__(s):
        s.env, s.refs, s.facts, s.log, s.auto = {}, {}, {}, (), None

    def copy(s):
        n = St()
        n.env, n.refs, n.facts, n.log, n.auto = dict(s.env), dict(s.refs), dict(s.facts), s.log, s.auto
        return n

    def event(s, *e):
        s.log = s.log + (e,)

    def events(s, kind=None, deep=True):
        def go(l):
            for e in l:
                if e[0] == 'loop' or e[0] == 'join':
                    if deep:
                        for x in go(e[2]):
                            yield x
                elif kind is None or e[0] == kind:
                    yield e
        return go(s.log)


class Limit(Exception):
    pass


PURE_METHODS_NONCONST = {'begin', 'end', 'data', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'base', 'get',
                         'cbegin', 'cend', 'operator*', 'operator->', 'operator[]', 'at', 'front', 'back', 'value'}
STORES = {'push_back', 'emplace_back', 'insert', 'emplace', 'emplace_hint', 'try_emplace', 'insert_or_assign', 'assign', 'resize', 'make_unique',
          'make_shared', 'make_optional', 'fill'}
IDENT = {'std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof'}
SMART = ('std::unique_ptr', 'std::shared_ptr', 'std::optional', 'std::__uniq_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access')
CONT = ('std::vector', 'std::array', 'std::deque', 'std::initializer_list', 'c10::ArrayRef', 'std::basic_string')


class Interp:
    MAXPATHS = 256
    assign_hook = False
    MAXDEPTH = 12
    BUDGET = 400000
    reversed_iters = False

    def __init__(self, facts):
        self.F = facts
        self.frame = 0
        self.stack = []
        self.exc = [[]]
        self.uid = 0
        self.steps = 0
        self.tus = []
        self.notes = []
        self.phi_init = {}        # value of a loop-carried variable before the loop
        self.sitevar = {}         # executions of one loop with different initial values are kept apart
        self.loops = []           # one record per loop execution: what an iteration does
        self.phirec = {}          # loop-carried variable -> its loop record

    # ---------------- client hooks
    recorded = ('loops',)     # lists of what was seen: trial iterations leave nothing in them
    site_by_path = False      # executions of a loop under different path conditions get different loop variables

    def want_inline(self, fn, st, node, args):
        return True

    def on_call(self, st, node, fname, obj, args):
        """return None to continue with the default treatment, or a list of (state, value)"""
        return None

    def after_call(self, st, node, fname, obj, args, value):
        pass

    def on_fact(self, st, term, val):
        pass

    def on_write(self, st, loc, val, node):
        pass

    def on_deref(self, st, term, node):
        pass

    def on_arith(self, st, val, node):
        """a sum, difference or product of type int"""

    def on_store(self, st, val, ty, node):
        """an arithmetic value is stored in an object of type ty"""

    def on_return(self, st, fn, val):
        pass

    # ---------------- storage
    def fresh(self, tag):
        self.uid += 1
        return ('fresh', tag, self.uid)

    def rootval(self, st, root):
        if root in st.env:
            return st.env[root]
        if root[0] == 'p':
            return ('deref', root[1])
        return ('sym', root)

    def read(self, st, loc):
        t = self.rootval(st, loc[0])
        for k in loc[1]:
            t = proj(t, k)
        return t

    def write(self, st, loc, v, node=None):
        self.on_write(st, loc, v, node)
        st.env[loc[0]] = inject(self.rootval(st, loc[0]), loc[1], v)

    def tmp(self, st, v):
        self.uid += 1
        root = ('t', self.uid)
        st.env[root] = v
        return (root, ())

    def ptrloc(self, st, t, node=None):
        """location designated by pointer/iterator value t"""
        if t[0] == 'ref':
            return t[1]
        if t[0] == 'dyn':
            return self.ptrloc(st, t[2], node)
        self.on_deref(st, t, node)
        return (('p', t), ())

    # ---------------- expressions: lvalues.  each returns [(state, loc)]
    def lv(self, st, e):
        self.steps += 1
        if self.steps > self.BUDGET:
            raise Limit('analysis budget exceeded')
        k = e['k']
        if k == 'ref':
            if e['dk'] in ('parm', 'var', 'bind', 'other'):
                root = self.lookup(st, e['d'])
                if root in st.refs:
                    return [(st, st.refs[root])]
                return [(st, (root, ()))]
            if e['dk'] == 'fn':
                return [(st, self.tmp(st, ('fn', e['q'], e.get('u'))))]
            return [(st, (('g', e.get('q', e['n'])), ()))]
        if k == 'this':
            return [(st, self.tmp(st, ('ref', st.refs[('this', self.frame)])))]
        if k == 'member':
            if e.get('dk') == 'static':
                return [(st, (('g', e['q']), ()))]
            if e.get('arrow'):
                out = []
                for s, t in self.ev(st, e['b']):
                    l = self.ptrloc(s, t, e)
                    out.append((s, (l[0], l[1] + (('f', e['n']),))))
                return out
            return [(s, (l[0], l[1] + (('f', e['n']),))) for s, l in self.lv(st, e['b'])]
        if k == 'un' and e['op'] == '*':
            return [(s, self.ptrloc(s, t, e)) for s, t in self.ev(st, e['a'][0])]
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            return self.incdec(st, e['a'][0], e['op'], False, True, e)
        if k == 'sub':
            out = []
            for s, l in self.lv(st, e['a'][0]):
                for s2, i in self.ev(s, e['a'][1]):
                    base = self.read(s2, l)
                    if base[0] == 'ref':
                        l2 = base[1]
                        out.append((s2, (l2[0], l2[1] + (('i', i),))))
                    else:
                        out.append((s2, self.ptrloc(s2, add(base, i), e)))
            return out
        if k == 'assign':
            return self.assign(st, e)
        if k == 'cond':
            tr, fa = self.branch(st, e['a'][0])
            out = []
            for s in tr:
                out += self.lv(s, e['a'][1])
            for s in fa:
                out += self.lv(s, e['a'][2])
            return out
        if k == 'cast':
            out = self.lv(st, e['a'][0])
            if e.get('ck') == 'CXXDynamicCastExpr':
                for s, l in out:
                    s.event('dyn', self.types(e['to']), l)
            return out
        if k == 'call':
            return self.call(st, e, True)
        if k == 'bin' and e['op'] == ',':
            out = []
            for s, _ in self.ev(st, e['a'][0]):
                out += self.lv(s, e['a'][1])
            return out
        return [(s, self.tmp(s, t)) for s, t in self.ev(st, e)]

    def lookup(self, st, d):
        """root of declaration d: innermost frame that knows it (captured variables live in outer frames)"""
        f = self.frame
        r = ('v', f, d)
        if r in st.env or r in st.refs:
            return r
        for f in reversed(self.stack_frames):
            r2 = ('v', f, d)
            if r2 in st.env or r2 in st.refs:
                return r2
        return r

    @property
    def stack_frames(self):
        return [x[0] for x in self.stack]

    # ---------------- expressions: values.  each returns [(state, term)]
    def ev(self, st, e):
        if e is not None and 'ct' in e:
            ct = self.types(e['ct'])
            if ct == 'bool' and 't' in e and self.types(e['t']).replace('const ', '') != 'bool' and e['k'] not in ('lambda', 'initlist'):
                return self.boolval(st, e)
            if ct in NARROW:
                out = self.ev_(st, e)
                return [(s, self.on_store(s, t, ct, e) or t) for s, t in out]
        return self.ev_(st, e)

    def ev_(self, st, e):
        self.steps += 1
        if self.steps > self.BUDGET:
            raise Limit('analysis budget exceeded')
        if e is None:
            return [(st, ('void',))]
        k = e['k']
        if 'v' in e and k not in ('str', 'float') and k != 'call':
            try:
                return [(st, ('c', int(e['v'])))]
            except ValueError:
                pass
        if k in ('int', 'bool'):
            return [(st, ('c', int(e['v'])))]
        if k == 'float':
            return [(st, ('fl', e['v']))]
        if k == 'str':
            return [(st, ('s', e.get('v', '')))]
        if k == 'null':
            return [(st, ('nullptr',))]
        if k == 'this':
            return [(st, ('ref', st.refs[('this', self.frame)]))]
        if k == 'ref' and e['dk'] == 'fn':
            return [(st, ('fn', e['q'], e.get('u')))]
        if k == 'ref' and e['dk'] == 'enum':
            return [(st, ('c', e['q']))]
        if k in ('ref', 'member', 'sub'):
            return [(s, self.read(s, l)) for s, l in self.lv(st, e)]
        if k == 'assign':
            return [(s, self.read(s, l)) for s, l in self.assign(st, e)]
        if k == 'un':
            op = e['op']
            if op == '*':
                return [(s, self.read(s, l)) for s, l in self.lv(st, e)]
            if op == '&':
                return [(s, ('ref', l)) for s, l in self.lv(st, e['a'][0])]
            if op in ('++', '--'):
                return self.incdec(st, e['a'][0], op, bool(e.get('post')), False, e)
            if op == '!':
                return self.boolval(st, e)
            out = []
            for s, t in self.ev(st, e['a'][0]):
                if op == '-':
                    out.append((s, sub(ZERO, t)))
                elif op == '+':
                    out.append((s, t))
                else:
                    out.append((s, ('un', op, t)))
            return out
        if k == 'bin':
            op = e['op']
            if op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
                return self.boolval(st, e)
            out = []
            for s, a in self.ev(st, e['a'][0]):
                for s2, b in self.ev(s, e['a'][1]):
                    if op == ',':
                        out.append((s2, b))
                    else:
                        t = self.arith(op, a, b)
                        if e.get('int'):
                            self.on_arith(s2, t, e)
                        out.append((s2, t))
            return out
        if k == 'cond':
            tr, fa = self.branch(st, e['a'][0])
            out = []
            for s in tr:
                out += self.ev(s, e['a'][1])
            for s in fa:
                out += self.ev(s, e['a'][2])
            return out
        if k == 'cast':
            return self.cast(st, e)
        if k == 'call':
            return self.call(st, e, False)
        if k == 'construct':
            return self.construct(st, e)
        if k == 'initlist':
            return [(s, ('list', tuple(a))) for s, a in self.evs(st, e['a'])]
        if k == 'lambda':
            ident = (id(self.tus[-1]), tuple(b['u'] for b in e['bodies']))
            return [(s, ('lam', ident, self.frame, c)) for s, c in self.captures(st, e)]
        if k == 'throw':
            out = []
            for s, a in self.evs(st, e.get('a') or []):
                self.exc[-1].append((s, ('throw', e.get('a') and e['a'][0].get('cls') or '?', e['l'])))
            return []
        if k == 'new':
            out = []
            for s, a in self.evs(st, e.get('a') or []):
                l = self.tmp(s, a[0] if len(a) == 1 else ('new', tuple(a)))
                out.append((s, ('ref', l)))
            return out
        if k in ('valueinit',):
            return [(st, ZERO)]
        return [(s, ('other', e.get('sc', k), tuple(a))) for s, a in self.evs(st, e.get('a') or [])]

    def captures(self, st, e):
        res = [(st, ())]
        for c in e['caps']:
            nxt = []
            for s, acc in res:
                if c.get('this'):
                    nxt.append((s, acc + (('this', s.refs.get(('this', self.frame))),)))
                elif c.get('init') is not None and c.get('byref'):
                    nxt += [(s2, acc + (('init', c['d'], ('l', l)),)) for s2, l in self.lv(s, c['init'])]
                elif c.get('init') is not None:
                    nxt += [(s2, acc + (('init', c['d'], ('v', t)),)) for s2, t in self.ev(s, c['init'])]
                else:
                    nxt.append((s, acc))
            res = nxt
        return res

    def evs(self, st, es):
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, acc in res:
                for s2, t in self.ev(s, e):
                    nxt.append((s2, acc + [t]))
            res = nxt
        return res

    def arith(self, op, a, b):
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op in ('/', '%') and is_c(a) and is_c(b) and isinstance(a[1], int) and isinstance(b[1], int) and b[1]:
            q = abs(a[1]) // abs(b[1]) * (1 if a[1] * b[1] >= 0 else -1)
            return ('c', q if op == '/' else a[1] - q * b[1])
        if op in ('&', '|', '^', '>>', '<<') and is_c(a) and is_c(b) and isinstance(a[1], int) and isinstance(b[1], int) and 0 <= a[1] and 0 <= b[1] < 63:
            x, y = int(a[1]), int(b[1])
            return ('c', x & y if op == '&' else x | y if op == '|' else x ^ y if op == '^' else x >> y if op == '>>' else x << y)
        if op in ('&', '|', '^'):
            return ('bin', op) + tuple(sorted((a, b), key=repr))
        return ('bin', op, a, b)

    def boolval(self, st, e):
        tr, fa = self.branch(st, e)
        return [(s, ONE) for s in tr] + [(s, ZERO) for s in fa]

    def incdec(self, st, target, op, post, want_loc, node):
        out = []
        for s, l in self.lv(st, target):
            old = self.read(s, l)
            new = add(old, ONE, 1 if op == '++' else -1)
            self.write(s, l, new, node)
            out.append((s, l if want_loc else (old if post else new)))
        return out

    def assign(self, st, e):
        out = []
        op = e['op']
        for s, v in self.ev(st, e['a'][1]):
            for s2, l in self.lv(s, e['a'][0]):
                if op != '=':
                    v2 = self.arith(op[:-1], self.read(s2, l), v)
                else:
                    v2 = v
                if 't' in e['a'][0]:
                    self.on_store(s2, v2, self.types(e['a'][0]['t']), e)
                self.write(s2, l, v2, e)
                out.append((s2, l))
        return out

    def cast(self, st, e):
        to = self.types(e['to'])
        out = []
        if to == 'bool' and self.types(e['a'][0].get('t', e['to'])).replace('const ', '') != 'bool':
            return self.boolval(st, e['a'][0])
        if e.get('ck') == 'CXXDynamicCastExpr':
            if to.endswith('*'):
                return [(s, ('dyn', to, t)) for s, t in self.ev(st, e['a'][0])]
            return [(s, self.read(s, l)) for s, l in self.lv(st, e)]
        out = self.ev(st, e['a'][0])
        if not (to.endswith('&') or to.endswith('*')):
            for s, t in out:
                self.on_store(s, t, to, e)
        return out

    def types(self, i):
        return self.tus[-1]['types'][i]

    # ---------------- conditions
    def branch(self, st, e):
        """-> (states where e holds, states where it does not)"""
        k = e['k']
        if 'v' in e and k not in ('str', 'float', 'call'):
            try:
                return ([st], []) if int(e['v']) else ([], [st])
            except ValueError:
                pass
        if k == 'un' and e['op'] == '!':
            t, f = self.branch(st, e['a'][0])
            return f, t
        if k == 'bin' and e['op'] in ('&&', '||'):
            T, Fl = [], []
            t, f = self.branch(st, e['a'][0])
            if e['op'] == '&&':
                Fl += f
                for s in t:
                    a, b = self.branch(s, e['a'][1])
                    T += a
                    Fl += b
            else:
                T += t
                for s in f:
                    a, b = self.branch(s, e['a'][1])
                    T += a
                    Fl += b
            return T, Fl
        if k == 'bin' and e['op'] in ('==', '!=', '<', '>', '<=', '>='):
            T, Fl = [], []
            for s, a in self.ev(st, e['a'][0]):
                for s2, b in self.ev(s, e['a'][1]):
                    t, f = self.compare(s2, e['op'], a, b)
                    T += t
                    Fl += f
            return T, Fl
        if k == 'cast' and self.types(e['to']) == 'bool':
            return self.branch(st, e['a'][0])
        T, Fl = [], []
        for s, t in self.ev_(st, e):
            a, b = self.test(s, t)
            T += a
            Fl += b
        return T, Fl

    def compare(self, st, op, a, b):
        if op in ('!=', '>=', '<='):
            t, f = self.compare(st, {'!=': '==', '>=': '<', '<=': '>'}[op], a, b)
            return f, t
        if op == '>':
            a, b = b, a
            op = '<'
        l = lit_eq(a, b) if op == '==' else lit_lt(a, b)
        if a[0] == 'nullptr' or b[0] == 'nullptr':
            t, f = self.test(st, a if b[0] == 'nullptr' else b)
            return (f, t)
        if isinstance(l, bool):
            return ([st], []) if l else ([], [st])
        return self.assume(st, l[0])

    def test(self, st, t):
        if is_c(t):
            return ([st], []) if t[1] else ([], [st])
        if t[0] == 'ref':
            return [st], []
        if t[0] == 'nullptr':
            return [], [st]
        l = lit_eq(t, ZERO)
        f, tr = self.assume(st, l[0])
        return tr, f

    def decide(self, st, atom):
        """truth of an atom from the literals already known, or None"""
        if atom in st.facts:
            return st.facts[atom]
        k, d = atom
        c, m = aff(d)
        # unsigned quantities: x < 0 is false for sizes
        if k == 'lt0' and c >= 0 and all(v > 0 and self.nonneg(a) for a, v in m.items()):
            return False
        if k == 'eq0' and c > 0 and all(v > 0 and self.nonneg(a) for a, v in m.items()):
            return False
        for (kk, dd), val in st.facts.items():
            if kk == 'eq0' and val:
                c2, m2 = aff(dd)
                for sgn in (1, -1):
                    # d - sgn*n*dd constant?
                    r = add(d, dd, -sgn)
                    if is_c(r):
                        return r[1] == 0 if k == 'eq0' else r[1] < 0
            elif kk == 'lt0':
                r = sub(d, dd)
                if is_c(r):
                    # d = dd + r
                    if val and r[1] <= 0:
                        return True if k == 'lt0' else False
                    if val and k == 'eq0' and False:
                        pass
                    if not val and r[1] >= 0 and k == 'lt0':
                        return False
                    if not val and r[1] > 0 and k == 'eq0':
                        return False
                r = add(d, dd)
                if is_c(r):
                    # d = r - dd
                    if val and k == 'lt0' and r[1] >= 0:   # dd<0 => d > r >=0
                        return False
                    if val and k == 'eq0' and r[1] >= 0:
                        return False
                    if not val and k == 'lt0' and r[1] < 0:  # dd>=0 => d <= r < 0
                        return True
                    if not val and k == 'eq0' and r[1] < 0:
                        return False
        return None

    def nonneg(self, t):
        return t[0] == 'call' and t[1].split('::')[-1] in ('size', 'dim', 'length', 'max_size', 'capacity')

    def assume(self, st, atom):
        v = self.decide(st, atom)
        if v is True:
            return [st], []
        if v is False:
            return [], [st]
        a, b = st.copy(), st
        a.facts[atom] = True
        b.facts[atom] = False
        self.on_fact(a, atom, True)
        self.on_fact(b, atom, False)
        return [a], [b]

    # ---------------- calls
    def construct(self, st, e):
        cc = e.get('cc')
        a = e['a']
        cls = e['cls']
        if cc in ('copy', 'move') and len(a) >= 1:
            fn = self.F.fns.get(e.get('u')) if e.get('u') else None
            if not (fn and fn.body and not fn.j.get('defaulted') and self.inline_special(fn)):
                return self.ev(st, a[0])
        if cls in ('std::pair', 'std::tuple') and len(a) >= 1 and not (len(a) == 1 and 'std::' in self.types(a[0]['t']) and ('pair' in self.types(a[0]['t']) or 'tuple' in self.types(a[0]['t']))):
            return [(s, ('tuple', tuple(x))) for s, x in self.evs(st, a)]
        if cls in ('std::pair', 'std::tuple') and len(a) == 1:
            return self.ev(st, a[0])
        fn = self.F.fns.get(e.get('u')) if e.get('u') else None
        res = []
        for s, args in self.callargs(st, e):
            hooked = self.on_call(s, e, e.get('f', cls), None, args)
            if hooked is not None:
                res += hooked
                continue
            if fn is not None and fn.body and self.can_inline(fn) and self.want_inline(fn, s, e, args):
                self.uid += 1
                loc = (('t', self.uid), ())
                s.env[loc[0]] = ('obj', cls)
                for s2, _ in self.invoke(s, fn, loc, args, e):
                    res.append((s2, self.read(s2, loc)))
                continue
            vals = tuple(self.argval(s, x) for x in args)
            if e.get('pk'):
                self.havoc_args(s, e, None, args, vals, cls + '::ctor')
            if len(vals) == 1 and cls in CONT and vals[0][0] == 'list':
                v = vals[0]
            elif len(vals) == 1 and (self.transparent(cls) or cls in SMART and vals[0][0] not in ('nullptr', 'ref', 'new') and any(x in self.types(e['a'][0].get('t', -1)) for x in ('unique_ptr', 'shared_ptr', 'optional'))):
                v = vals[0]
            else:
                v = ('ctor', cls, vals)
            self.after_call(s, e, cls, None, args, v)
            res.append((s, v))
        return res

    def inline_special(self, fn):
        return True

    def transparent(self, cls):
        """single-argument wrappers that only carry their argument"""
        return cls in ('std::reference_wrapper', 'c10::ArrayRef', 'c10::IntArrayRef', 'std::initializer_list',
                       'std::function', '__gnu_cxx::__normal_iterator', 'c10::Scalar', 'at::Scalar', 'c10::optional', 'std::optional')

    def callargs(self, st, e):
        """evaluate arguments according to how the parameter takes them: ('v', term) or ('l', loc)"""
        pk = e.get('pk') or []
        res = [(st, [])]
        for i, a in enumerate(e['a']):
            kind = pk[i] if i < len(pk) else 'val'
            nxt = []
            for s, acc in res:
                if kind in ('ref', 'cref', 'rref'):
                    for s2, l in self.lv(s, a):
                        nxt.append((s2, acc + [('l', l)]))
                else:
                    for s2, t in self.ev(s, a):
                        nxt.append((s2, acc + [('v', t)]))
            res = nxt
        return res

    def argval(self, s, a):
        return self.read(s, a[1]) if a[0] == 'l' else a[1]

    def havoc_args(self, s, e, obj, args, vals, name):
        pk = e.get('pk') or []
        for i, a in enumerate(args):
            kind = pk[i] if i < len(pk) else 'val'
            if a[0] == 'l' and kind in ('ref', 'rref') and not self.arg_readonly(e, name, i, kind):
                self.write(s, a[1], ('mut', name, i, vals), e)
            elif a[0] == 'v' and kind == 'ptr' and a[1][0] == 'ref':
                self.write(s, a[1][1], ('mut', name, i, vals), e)

    def arg_readonly(self, e, name, i, kind):
        return kind == 'rref' or name.startswith('std::') and name.split('::')[-1] in STORES     # lvalues are copied

    def can_inline(self, fn):
        return len(self.stack) < self.MAXDEPTH and not any(x[1] is fn for x in self.stack)

    def call(self, st, e, want_loc):
        """[(state, loc)] if want_loc else [(state, term)]"""
        f = e.get('f')
        res = []

        def out(s, t):
            res.append((s, self.tmp(s, t) if want_loc else t))

        def outl(s, l):
            res.append((s, l if want_loc else self.read(s, l)))

        if f in ('__assert_fail', 'abort', 'std::abort', 'std::terminate', 'exit', 'std::exit', '__builtin_unreachable'):
            for s, _ in self.evs(st, e['a']):
                self.exc[-1].append((s, ('abort', f)))
            return []
        if f in ('c10::detail::torchCheckFail', 'c10::detail::torchInternalAssertFail'):
            for s, _ in self.evs(st, e['a']):
                self.exc[-1].append((s, ('throw', 'c10::Error', e.get('l'))))
            return []
        if f == '__builtin_expect' and len(e['a']) == 2:
            return [(s, self.tmp(s, x[0]) if want_loc else x[0]) for s, x in self.evs(st, e['a'])]
        # --- transparent library helpers
        if f in IDENT and len(e['a']) == 1:
            return self.lv(st, e['a'][0]) if want_loc else self.ev(st, e['a'][0])
        short = f.split('::')[-1] if f else ''
        if f == 'std::get' and len(e['a']) == 1:
            ta = (e.get('ta') or '').split(';')[0].rstrip('UL')
            if ta.isdigit():
                return self._getpath(st, e['a'][0], ('f', 'get' + ta), want_loc)
        if f in ('std::make_pair', 'std::make_tuple', 'std::tie', 'std::forward_as_tuple'):
            for s, x in self.evs(st, e['a']):
                out(s, ('tuple', tuple(x)))
            return res
        if f in ('std::make_unique', 'std::make_shared'):
            pass
        if f == 'std::swap' and len(e['a']) == 2 or (short == 'swap' and f.startswith('std::') and 'obj' in e and len(e['a']) == 1):
            x = e['a'][0] if 'obj' not in e else e['obj']
            y = e['a'][1] if 'obj' not in e else e['a'][0]
            for s, l1 in self.lv(st, x):
                for s2, l2 in self.lv(s, y):
                    a, b = self.read(s2, l1), self.read(s2, l2)
                    self.write(s2, l1, b, e)
                    self.write(s2, l2, a, e)
                    out(s2, ('void',))
            return res
        if f == 'std::distance' and len(e['a']) == 2:
            for s, x in self.evs(st, e['a']):
                out(s, sub(x[1], x[0]))
            return res
        if f in ('std::next', 'std::prev'):
            for s, x in self.evs(st, e['a']):
                n = x[1] if len(x) > 1 else ONE
                out(s, add(x[0], n, 1 if f == 'std::next' else -1))
            return res
        if f == 'std::for_each' and len(e['a']) == 3 and 'for_each' not in self.loop_algos:
            for s, x in self.evs(st, e['a']):
                skip = s.copy()
                el = (('p', ('elem', x[0], x[1])), ())
                outs = self.call_value(s, x[2], [('l', el)], e)
                for s2, _ in outs:
                    out(s2, x[2])
                if not outs:
                    out(skip, x[2])
            return res
        if f == 'std::apply' and len(e['a']) == 2:
            return self.std_apply(st, e, want_loc)
        # --- calls through an object
        if 'obj' in e and short == 'operator=' and f.startswith('std::tuple') and len(e['a']) == 1:
            o = e['obj']
            while o.get('k') in ('cast', 'tmp', 'paren', 'bindtmp', 'ctor') and not o.get('f') and (o.get('e') or o.get('a')):
                o = o.get('e') or o['a'][0]
            if o.get('k') == 'call' and o.get('f') == 'std::tie':
                for s, x in self.ev(st, e['a'][0]):
                    for s2, ls in self.lvs(s, o['a']):
                        for i, l in enumerate(ls):
                            self.write(s2, l, proj(x, ('f', 'get%d' % i)), e)
                        out(s2, ('void',))
                return res
        if 'obj' in e:
            return self.mcall(st, e, want_loc, short)
        if e.get('op') in ('==', '!=', '<', '>', '<=', '>=') and len(e['a']) == 2 and not self.repo_fn(e) and 'Tensor' not in self.types(e['t']):
            for s, x in self.evs(st, e['a']):
                t, fl = self.compare(s, e['op'], x[0], x[1])
                for s2 in t:
                    out(s2, ONE)
                for s2 in fl:
                    out(s2, ZERO)
            return res
        if e.get('op') in ('+', '-') and len(e['a']) == 2 and not self.repo_fn(e) and self.iterish(e):
            for s, x in self.evs(st, e['a']):
                out(s, self.arith(e['op'], x[0], x[1]))
            return res
        if not f:
            # call of a function value
            ce = e.get('ce')
            for s, ft in (self.ev(st, ce) if ce else [(st, ('unknown',))]):
                if ft[0] == 'fn' and ft[2] in self.F.fns:
                    fn = self.F.fns[ft[2]]
                    for s2, args in self.callargs(s, dict(e, pk=[p['pk'] for p in fn.params])):
                        if fn.body and self.can_inline(fn) and self.want_inline(fn, s2, e, args):
                            for s3, r in self.invoke(s2, fn, None, args, e):
                                self._ret(s3, fn, r, want_loc, res)
                        else:
                            out(s2, ('call', ft[1], tuple(self.argval(s2, a) for a in args)))
                    continue
                if ft[0] == 'lam':
                    b = self.lambda_body(ft, None)
                    if b is not None:
                        for s2, args in self.callargs(s, dict(e, pk=[p['pk'] for p in b.params])):
                            for s3, r in self.invoke(s2, b, self.lam_this(ft), args, e, lam=ft):
                                self._ret(s3, b, r, want_loc, res)
                        continue
                for s2, ls in self.lvs(s, e['a']):
                    h = self.on_fnvalue(s2, e, ft, ls)
                    if h is not None:
                        for s3, t in h:
                            out(s3, t)
                        continue
                    out(s2, ('call', '?', (ft,) + tuple(self.read(s2, l) for l in ls)))
            return res
        for s, args in self.callargs(st, e):
            res += self.dispatch(s, e, f, None, args, want_loc)
        return res

    def lvs(self, st, es):
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, acc in res:
                for s2, l in self.lv(s, e):
                    nxt.append((s2, acc + [l]))
            res = nxt
        return res

    def on_fnvalue(self, st, node, ft, locs):
        """call of an unknown function value ft with arguments at locs"""
        return None

    def call_value(self, s, ft, args, node):
        """apply a function value; args as in callargs.  -> [(state, term)]"""
        b = None
        if ft[0] == 'lam':
            bs = self.lambda_bodies(ft)
            bs = [x for x in bs if len(x.params) == len(args)] or bs
            b = bs[0] if bs else None
        elif ft[0] == 'fn' and ft[2] in self.F.fns and self.F.fns[ft[2]].body:
            b = self.F.fns[ft[2]]
        if b is not None and self.can_inline(b):
            res = []
            for s3, r in self.invoke(s, b, self.lam_this(ft) if ft[0] == 'lam' else None, args, node, lam=ft if ft[0] == 'lam' else None):
                res.append((s3, self.read(s3, r[1]) if r[0] == 'l' else r[1]))
            return res
        ls = [a[1] if a[0] == 'l' else self.tmp(s, a[1]) for a in args]
        h = self.on_fnvalue(s, node, ft, ls)
        if h is not None:
            return h
        return [(s, ('call', '?', (ft,) + tuple(self.argval(s, a) for a in args)))]

    def iterish(self, e):
        t = self.types(e['t'])
        return 'iterator' in t or t.endswith('*') or t in ('long', 'int', 'unsigned long')

    def repo_fn(self, e):
        fn = self.F.fns.get(e.get('u')) if e.get('u') else None
        return fn is not None and fn.body is not None

    def _getpath(self, st, e, key, want_loc):
        out = []
        for s, l in self.lv(st, e):
            l2 = (l[0], l[1] + (key,))
            out.append((s, l2 if want_loc else self.read(s, l2)))
        return out

    def std_apply(self, st, e, want_loc):
        """std::apply(f, tuple): the lambda bodies get one reference per component"""
        res = []
        for s, fl in self.lv(st, e['a'][0]):
            ft = self.read(s, fl)
            for s2, tl in self.lv(s, e['a'][1]):
                body = self.lambda_body(ft, None)
                if body is None:
                    res.append((s2, self.tmp(s2, ('call', 'std::apply', (ft,))) if want_loc else ('call', 'std::apply', (ft,))))
                    continue
                n = None
                tt = self.types(e['a'][1]['t'])
                cand = [b for b in self.lambda_bodies(ft)]
                n = tuple_arity(tt)
                cand = [b for b in cand if n is None or len(b.params) == n] or cand
                b = self.pick_by_types(cand, tuple_types(tt))
                args = [('l', (tl[0], tl[1] + (('f', 'get%d' % i),))) for i in range(len(b.params))]
                for s3, r in self.invoke(s2, b, self.lam_this(ft), args, e, lam=ft):
                    self._ret(s3, b, r, want_loc, res)
        return res

    def pick_by_types(self, cands, types):
        if len(cands) == 1 or not types:
            return cands[0]
        for c in cands:
            ok = True
            for p, t in zip(c.params, types):
                if t.replace('const ', '') not in c.ty(p['t']):
                    ok = False
            if ok:
                return c
        return cands[0]

    def lambda_bodies(self, t):
        if t[0] != 'lam':
            return []
        tid, us = t[1]
        return [self.F.lambdas[(tid, u)] for u in us if (tid, u) in self.F.lambdas]

    def lambda_body(self, t, u):
        bs = self.lambda_bodies(t)
        if not bs:
            return None
        for b in bs:
            if b.u == u:
                return b
        return bs[0]

    def lam_this(self, t):
        for c in t[3]:
            if c[0] == 'this':
                return c[1]
        return None

    def _ret(self, s, fn, r, want_loc, res):
        """r is ('l', loc) or ('v', term)"""
        if want_loc:
            res.append((s, r[1] if r[0] == 'l' else self.tmp(s, r[1])))
        else:
            res.append((s, self.read(s, r[1]) if r[0] == 'l' else r[1]))

    def mcall(self, st, e, want_loc, short):
        f = e.get('f') or ''
        cls = '::'.join(f.split('::')[:-1])
        res = []

        def out(s, t):
            res.append((s, self.tmp(s, t) if want_loc else t))

        for s, ol in (self.lv(st, e['obj']) if not e.get('arrow') else [(s, self.ptrloc(s, t, e)) for s, t in self.ev(st, e['obj'])]):
            ov = self.read(s, ol)
            # lambda object
            if short == 'operator()' or e.get('op') == '()':
                if ov[0] == 'lam':
                    b = self.lambda_body(ov, e.get('u'))
                    if b is not None:
                        for s2, args in self.callargs(s, dict(e, pk=[p['pk'] for p in b.params])):
                            h = self.on_call(s2, e, f, ol, args)
                            if h is not None:
                                for s3, t in h:
                                    out(s3, t)
                                continue
                            for s3, r in self.invoke(s2, b, self.lam_this(ov), args, e, lam=ov):
                                self._ret(s3, b, r, want_loc, res)
                        continue
                if ov[0] == 'fn' and ov[2] in self.F.fns:
                    fn = self.F.fns[ov[2]]
                    for s2, args in self.callargs(s, dict(e, pk=[p['pk'] for p in fn.params])):
                        res += self.dispatch(s2, dict(e, f=ov[1], u=ov[2]), ov[1], None, args, want_loc)
                    continue
            # smart pointers, optionals, property wrappers
            if cls in SMART and short in ('operator->', 'get') and not want_loc:
                out(s, ('ref', (ol[0], ol[1] + (('f', '*'),))))
                continue
            if cls in SMART and short in ('operator*', 'value', 'operator->', 'get'):
                l = (ol[0], ol[1] + (('f', '*'),))
                res.append((s, l if want_loc else self.read(s, l)))
                continue
            if cls in SMART and short in ('operator bool', 'has_value'):
                out(s, ('call', 'nonnull', (ov,)))
                continue
            if f.endswith('property::operator->'):
                out(s, ('ref', (ol[0], ol[1] + (('f', 'value'),))))
                continue
            # containers
            if cls in CONT or cls.startswith('std::__debug'):
                if short in ('operator[]', 'at') and len(e['a']) == 1:
                    for s2, i in self.ev(s, e['a'][0]):
                        if short == 'at':
                            pass
                        self.on_index(s2, ol, i, e, short)
                        l = (ol[0], ol[1] + (('i', i),))
                        res.append((s2, l if want_loc else self.read(s2, l)))
                    continue
                if short == 'front':
                    self.on_index(s, ol, ZERO, e, short)
                    l = (ol[0], ol[1] + (('i', ZERO),))
                    res.append((s, l if want_loc else self.read(s, l)))
                    continue
                if short == 'back':
                    i = sub(self.size(s, ol), ONE)
                    self.on_index(s, ol, i, e, short)
                    l = (ol[0], ol[1] + (('i', i),))
                    res.append((s, l if want_loc else self.read(s, l)))
                    continue
                if short in ('size', 'length'):
                    out(s, self.size(s, ol))
                    continue
                if short == 'empty':
                    l = lit_eq(self.size(s, ol), ZERO)
                    if isinstance(l, bool):
                        out(s, ONE if l else ZERO)
                    else:
                        t, fl = self.assume(s, l[0])
                        for x in t:
                            out(x, ONE)
                        for x in fl:
                            out(x, ZERO)
                    continue
                if short in ('begin', 'cbegin'):
                    out(s, self.begin(s, ol))
                    continue
                if short in ('end', 'cend'):
                    out(s, add(self.begin(s, ol), self.size(s, ol)))
                    continue
                if self.reversed_iters and short in ('rbegin', 'crbegin', 'rend', 'crend'):
                    # a reverse iterator is minus the position after the element it designates
                    out(s, mul(add(self.begin(s, ol), self.size(s, ol)) if 'begin' in short else self.begin(s, ol), MINUS))
                    continue
            # iterators
            if self.is_iter_cls(cls):
                op = e.get('op')
                if op == '*' and not e['a']:
                    l = self.ptrloc(s, ov, e)
                    res.append((s, l if want_loc else self.read(s, l)))
                    continue
                if op == '->':
                    out(s, ('ref', self.ptrloc(s, ov, e)))
                    continue
                if op in ('++', '--'):
                    new = add(ov, ONE, 1 if op == '++' else -1)
                    self.write(s, ol, new, e)
                    if len(e['a']) == 1:
                        out(s, ov)
                    else:
                        res.append((s, ol if want_loc else new))
                    continue
                if op in ('+', '-', '+=', '-=') and len(e['a']) == 1:
                    for s2, n in self.ev(s, e['a'][0]):
                        new = self.arith(op[0], ov, n)
                        if op.endswith('='):
                            self.write(s2, ol, new, e)
                            res.append((s2, ol if want_loc else new))
                        else:
                            out(s2, new)
                    continue
                if op == '[]':
                    for s2, n in self.ev(s, e['a'][0]):
                        l = self.ptrloc(s2, add(ov, n), e)
                        res.append((s2, l if want_loc else self.read(s2, l)))
                    continue
                if op in ('==', '!=', '<', '>', '<=', '>=') and 'Tensor' not in self.types(e['t']):
                    for s2, n in self.ev(s, e['a'][0]):
                        t, fl = self.compare(s2, op, ov, n)
                        for x in t:
                            out(x, ONE)
                        for x in fl:
                            out(x, ZERO)
                    continue
                if short == 'base' and cls == 'std::reverse_iterator' and self.reversed_iters:
                    out(s, mul(ov, MINUS))
                    continue
                if short in ('base', 'base_reference'):
                    res.append((s, ol if want_loc else ov))
                    continue
            # assignment operators of library/defaulted classes copy the value
            if e.get('op') == '=' and len(e['a']) == 1 and not self.inlinable_assign(e):
                if self.assign_hook:
                    for s2, args in self.callargs(s, e):
                        h = self.on_call(s2, e, f, ol, args)
                        if h is None:
                            self.write(s2, ol, self.argval(s2, args[0]), e)
                            res.append((s2, ol if want_loc else self.read(s2, ol)))
                        else:
                            for s3, t in h:
                                res.append((s3, ol if want_loc else self.read(s3, ol)))
                    continue
                for s2, v in self.ev(s, e['a'][0]):
                    self.write(s2, ol, v, e)
                    res.append((s2, ol if want_loc else v))
                continue
            # conversion operators are the value itself
            if short.startswith('operator ') and not self.repo_fn(e):
                res.append((s, ol if want_loc else ov))
                continue
            for s2, args in self.callargs(s, e):
                res += self.dispatch(s2, e, f, ol, args, want_loc)
        return res

    def inlinable_assign(self, e):
        fn = self.F.fns.get(e.get('u')) if e.get('u') else None
        return fn is not None and fn.body is not None and not fn.j.get('defaulted')

    def is_iter_cls(self, cls):
        return cls.endswith('iterator') or 'iterator_interface' in cls or cls.startswith('__gnu_cxx::__normal_iterator') or cls == 'std::reverse_iterator'

    def on_index(self, st, loc, i, node, how):
        pass

    def size(self, s, loc):
        v = strip_fields(self.read(s, loc))
        while v[0] == 'upd':
            v = v[1]
        if v[0] == 'list':
            return ('c', len(v[1]))
        return ('call', 'size', (v,))

    def begin(self, s, loc):
        return ('begin', loc[0], loc[1])

    def dispatch(self, s, e, f, ol, args, want_loc):
        res = []
        h = self.on_call(s, e, f, ol, args)
        if h is not None:
            for s2, t in h:
                if isinstance(t, tuple) and t and t[0] == 'LOC':
                    res.append((s2, t[1] if want_loc else self.read(s2, t[1])))
                else:
                    res.append((s2, self.tmp(s2, t) if want_loc else t))
            return res
        fn = self.F.fns.get(e.get('u')) if e.get('u') else None
        if fn is not None and e.get('mv') and self.is_abstract_call(e, fn):
            fn = None
        if fn is not None and fn.body and not fn.j.get('defaulted') and self.can_inline(fn) and self.want_inline(fn, s, e, args):
            for s2, r in self.invoke(s, fn, ol, args, e):
                self._ret(s2, fn, r, want_loc, res)
            return res
        vals = tuple(self.argval(s, a) for a in args)
        if ol is not None:
            ov = self.read(s, ol)
            if f.startswith('std::') or fn is None:
                ov2 = strip_fields(ov) if f.startswith('std::') else ov
            else:
                ov2 = ov
            allv = (ov2,) + vals
        else:
            allv = vals
        ta = e.get('ta')
        t = ('call', f, allv) if not ta or len(ta) > 60 or fn is not None else ('call', f, allv, ta)
        short = f.split('::')[-1]
        if ol is not None and self.mutates_obj(e, f, short):
            # own fields survive calls of library base-class methods
            keep = ()
            if f.startswith('std::') and ov[0] == 'upd':
                keep = tuple((k, v) for k, v in ov[2] if k[0] == 'f')
            nv = ('mut', f, 'obj', allv)
            self.write(s, ol, ('upd', nv, keep) if keep else nv, e)
        self.havoc_args(s, e, ol, args, vals, f)
        self.after_call(s, e, f, ol, args, t)
        if want_loc:
            if self.returns_self(e, f, short) and ol is not None:
                res.append((s, ol))
            elif self.types(e['t']).endswith('&') or True:
                res.append((s, self.tmp(s, t)))
        else:
            res.append((s, self.read(s, ol) if (ol is not None and self.returns_self(e, f, short)) else t))
        return res

    def is_abstract_call(self, e, fn):
        return False

    def mutates_obj(self, e, f, short):
        if f.startswith('at::Tensor::'):
            return (short.endswith('_') and not short.endswith('__')) or short in ('set_data', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator=')
        if not e.get('m') or e.get('fc') or e.get('ms'):
            return False
        return short not in PURE_METHODS_NONCONST

    def returns_self(self, e, f, short):
        if f.startswith('at::Tensor::'):
            return short.endswith('_') and not short.endswith('__') or short in ('operator+=', 'operator-=', 'operator*=', 'operator/=')
        return False

    def invoke(self, s, fn, this, args, node, lam=None):
        """inline fn; -> [(state, ('l', loc) | ('v', term))]"""
        self.uid += 1
        newframe = self.uid
        saved = self.frame
        self.stack.append((saved if lam is None else lam[2], fn))
        if lam is not None and lam[2] != saved:
            self.stack.insert(-1, (saved, None))
        self.frame = newframe
        self.tus.append(fn.tu)
        try:
            if this is not None:
                s.refs[('this', newframe)] = this
            self.bind(s, fn, args, newframe)
            if lam is not None and fn.const:  # what a mutable lambda keeps between calls is not tracked
                for c in lam[3]:
                    if c[0] == 'init' and c[2][0] == 'l':
                        s.refs[('v', newframe, c[1])] = c[2][1]
                    elif c[0] == 'init':
                        s.env[('v', newframe, c[1])] = c[2][1]
            outs = self.run_body(s, fn)
        finally:
            self.frame = saved
            self.tus.pop()
            self.stack.pop()
            if lam is not None and lam[2] != saved:
                self.stack.pop()
        res = []
        for s2, kind, val in outs:
            if kind == 'throw':
                self.exc[-1].append((s2, val))
            else:
                self.on_return(s2, fn, val)
                res.append((s2, val if val is not None else ('v', ('void',))))
        return res

    def bind(self, s, fn, args, frame):
        for i, p in enumerate(fn.params):
            root = ('v', frame, p['d'])
            if i < len(args):
                a = args[i]
            elif 'def' in p:
                r = self.ev(s, p['def'])
                a = ('v', r[0][1]) if r else ('v', UNDEF)
            else:
                a = ('v', ('sym', ('noarg', p['n'])))
            if p['pk'] in ('ref', 'cref', 'rref'):
                s.refs[root] = a[1] if a[0] == 'l' else self.tmp(s, a[1])
            else:
                s.env[root] = self.argval(s, a)

    def run_body(self, s, fn):
        """-> [(state, 'return'|'throw', ('l',loc)|('v',term)|None or throw info)]"""
        self.exc.append([])
        states = [s]
        if fn.kind == 'ctor':
            states = self.run_inits(s, fn)
        res = []
        try:
            for s1 in states:
                for s2, kind, val in self.exec(s1, fn.body, fn):
                    res.append((s2, 'return' if kind in ('normal', 'return') else kind, val))
        finally:
            thrown = self.exc.pop()
        for s2, info in thrown:
            res.append((s2, 'throw', info))
        return self.limit(res)

    def run_inits(self, s, fn):
        states = [s]
        this = s.refs[('this', self.frame)]
        for i in fn.j.get('inits', []):
            nxt = []
            for s1 in states:
                if i.get('delegating'):
                    e = i['e']
                    f2 = self.F.fns.get(e.get('u')) if e.get('u') else None
                    if f2 is not None and f2.body and self.can_inline(f2):
                        for s2, args in self.callargs(s1, e):
                            for s3, _ in self.invoke(s2, f2, this, args, e):
                                nxt.append(s3)
                        continue
                    for s2, t in self.ev(s1, e):
                        self.write(s2, this, t, e)
                        nxt.append(s2)
                    continue
                for s2, t in self.ev(s1, i['e']):
                    if i.get('member'):
                        self.on_store(s2, t, self.member_type(fn, i['member']), i['e'])
                        self.write(s2, (this[0], this[1] + (('f', i['member']),)), t, i['e'])
                    else:
                        # base class: its value is the object's underlying value
                        cur = self.read(s2, this)
                        keep = cur[2] if cur[0] == 'upd' else ()
                        if t[0] == 'upd' and keep:
                            m = dict(t[2])
                            m.update(dict(keep))
                            self.write(s2, this, ('upd', t[1], tuple(sorted(m.items(), key=repr))), i['e'])
                        else:
                            self.write(s2, this, ('upd', t, keep) if keep else t, i['e'])
                    nxt.append(s2)
            states = nxt
        return states

    def member_type(self, fn, name):
        c = self.F.classes.get(fn.ty(fn.j.get('clst')))
        if c:
            for f in c['fields']:
                if f['n'] == name:
                    return c['tu']['types'][f['t']]
        return '?'

    # ---------------- statements.  -> [(state, kind, val)]
    def exec(self, st, n, fn):
        if n is None:
            return [(st, 'normal', None)]
        k = n['k']
        if k == 'block':
            cur = [st]
            out = []
            for c in n['s']:
                nxt = []
                for s in cur:
                    for s2, kind, v in self.exec(s, c, fn):
                        if kind == 'normal':
                            nxt.append(s2)
                        else:
                            out.append((s2, kind, v))
                cur = self.merge(nxt)
                if not cur:
                    break
            return [(s, 'normal', None) for s in cur] + out
        if k == 'expr':
            return [(s, 'normal', None) for s, _ in self.effect(st, n['e'])]
        if k == 'decl':
            cur = [st]
            for v in n['v']:
                nxt = []
                for s in cur:
                    nxt += self.vardecl(s, v)
                cur = nxt
            return [(s, 'normal', None) for s in cur]
        if k == 'if':
            cur = [st]
            if n.get('init'):
                cur = [s for s, kd, _ in self.exec(st, n['init'], fn)]
            if n.get('cv'):
                cur = [s2 for s in cur for s2 in self.vardecl(s, n['cv'])]
            out = []
            for s in cur:
                t, f = self.branch(s, n['cond'])
                for x in t:
                    out += self.exec(x, n['then'], fn)
                for x in f:
                    out += self.exec(x, n.get('else'), fn)
            return out
        if k == 'return':
            if n.get('e') is None:
                return [(st, 'return', None)]
            if fn.j.get('retpk') in ('ref', 'cref', 'rref'):
                return [(s, 'return', ('l', l)) for s, l in self.lv(st, n['e'])]
            return [(s, 'return', ('v', t)) for s, t in self.ev(st, n['e'])]
        if k in ('while', 'for', 'do', 'rfor'):
            return self.loop(st, n, fn)
        if k == 'break':
            return [(st, 'break', None)]
        if k == 'continue':
            return [(st, 'continue', None)]
        if k == 'switch':
            return self.switch(st, n, fn)
        if k in ('case', 'default'):
            return self.exec(st, n['s'], fn)
        if k == 'try':
            self.exc.append([])
            out = self.exec(st.copy(), n['body'], fn)
            thrown = self.exc.pop()
            for s, info in thrown:
                if n['h']:
                    out += self.exec(s, n['h'][0]['body'], fn)
                else:
                    self.exc[-1].append((s, info))
            return out
        return [(st, 'normal', None)]

    def effect(self, st, e):
        if e['k'] in ('call', 'assign') or (e['k'] == 'un' and e['op'] in ('++', '--') and not e.get('post')):
            return self.lv(st, e)
        return self.ev(st, e)

    def vardecl(self, st, v):
        root = ('v', self.frame, v['d'])
        init = v.get('init')
        out = []
        if v.get('binds'):
            src = self.lv(st, init) if init else [(st, self.tmp(st, UNDEF))]
            for s, l in src:
                if v['pk'] not in ('ref', 'cref', 'rref'):
                    s.env[root] = self.read(s, l)
                    l = (root, ())
                for i, b in enumerate(v['binds']):
                    s.refs[('v', self.frame, b['d'])] = (l[0], l[1] + (('f', 'get%d' % i),))
                out.append(s)
            return out
        if init is None:
            st.env[root] = ('uninit', v['n'])
            return [st]
        if v['pk'] in ('ref', 'cref', 'rref'):
            for s, l in self.lv(st, init):
                s.refs[root] = l
                out.append(s)
            return out
        for s, t in self.ev(st, init):
            s.refs.pop(root, None)
            self.on_store(s, t, self.types(v['t']), v)
            s.env[root] = t
            out.append(s)
        return out

    def switch(self, st, n, fn):
        out = []
        body = n['body']
        stmts = body['s'] if body['k'] == 'block' else [body]
        for s, t in self.ev(st, n['cond']):
            # positions of labels
            labels = []
            flat = []
            for c in stmts:
                x = c
                while x and x['k'] in ('case', 'default'):
                    labels.append((len(flat), x.get('e') if x['k'] == 'case' else None))
                    x = x['s']
                flat.append(x)
            rest = s
            default = None
            for pos, ce in labels:
                if ce is None:
                    default = pos
                    continue
                if rest is None:
                    break
                for s2, cv in self.ev(rest, ce):
                    tr, fa = self.compare(s2, '==', t, cv)
                    for x in tr:
                        out += self.runfrom(x, flat, pos, fn)
                    rest = fa[0] if fa else None
            if rest is not None:
                if default is not None:
                    out += self.runfrom(rest, flat, default, fn)
                else:
                    out.append((rest, 'normal', None))
        return out

    def runfrom(self, s, flat, pos, fn):
        cur, out = [s], []
        for c in flat[pos:]:
            nxt = []
            for x in cur:
                for s2, kind, v in self.exec(x, c, fn):
                    if kind == 'normal':
                        nxt.append(s2)
                    elif kind == 'break':
                        out.append((s2, 'normal', None))
                    else:
                        out.append((s2, kind, v))
            cur = nxt
        return out + [(x, 'normal', None) for x in cur]

    def loop(self, st, n, fn):
        k = n['k']
        outs = []
        cur = [st]
        if k == 'for' and n.get('init'):
            cur = [s for s, kd, _ in self.exec(st, n['init'], fn)]
        for s0 in cur:
            outs += self.loop1(s0, n, fn)
        return outs

    loop_algos = frozenset()

    def algo_loop(self, st, line, starts, last, step, node):
        """a library algorithm as the loop it stands for: starts = initial values of its running iterators, the first of which runs up
        to `last`; step(state, iterator values) -> states.  -> [(state, final iterator values)]"""
        fn = self.stack[-1][1]
        roots = [('v', self.frame, ('alg', line, node.get('c'), i)) for i in range(len(starts))]
        s0 = st.copy()
        for r, v in zip(roots, starts):
            s0.env[r] = v

        def cond(h):
            return self.compare(h, '!=', self.rootval(h, roots[0]), last)

        def body(s):
            res = []
            for s2 in step(s, [self.rootval(s, r) for r in roots]):
                for r in roots:
                    self.write(s2, (r, ()), add(self.rootval(s2, r), ONE), node)
                res.append(s2)
            return res
        outs = []
        for s, kind, _ in self.loop1(s0, {'k': 'for', 'l': (line or 0) + 0.5, 'pycond': cond, 'pybody': body}, fn):
            outs.append((s, [self.rootval(s, r) for r in roots]))
        return outs

    def range_loc(self, st, loc, e):
        """the container a range-for over an object at loc walks"""
        return loc

    def loop1(self, s0, n, fn):
        k = n['k']
        rng = None
        heads = [s0]
        if k == 'rfor':
            rs = self.lv(s0, n['range'])
            if not rs:
                return []
            heads = [s for s, _ in rs[:1]]
            s0, rng = rs[0]
            rng = self.range_loc(s0, rng, n['range'])
        site = ('L', n['l'], self.frame if False else fn.q)
        havoc = set()

        def body(h):
            """run one iteration from head state h -> (fallthrough states, exits)"""
            res, ex = [], []
            if k == 'rfor':
                starts = [h]
                ex.append(h.copy())
            elif k == 'do':
                starts = [h]
            else:
                if n.get('pycond') is not None:
                    t, f = n['pycond'](h)
                    starts = t
                    ex += f
                elif n.get('cond') is None:
                    starts = [h]
                else:
                    if n.get('cv'):
                        hs = self.vardecl(h, n['cv'])
                        h = hs[0] if hs else h
                    t, f = self.branch(h, n['cond'])
                    starts = t
                    ex += f
            for s in starts:
                if n.get('pybody') is not None:
                    res += n['pybody'](s)
                    continue
                if k == 'rfor':
                    idx = ('phi', site, 'idx')
                    el = (rng[0], rng[1] + (('i', idx),))
                    v = n['var']
                    root = ('v', self.frame, v['d'])
                    if v.get('binds'):
                        base = el if v['pk'] != 'val' else self.tmp(s, self.read(s, el))
                        for i, b in enumerate(v['binds']):
                            s.refs[('v', self.frame, b['d'])] = (base[0], base[1] + (('f', 'get%d' % i),))
                    elif v['pk'] in ('ref', 'cref', 'rref'):
                        s.refs[root] = el
                    else:
                        s.env[root] = self.read(s, el)
                for s2, kind, v in self.exec(s, n['body'], fn):
                    if kind in ('normal', 'continue'):
                        if k == 'for' and n.get('inc') is not None:
                            for s3, _ in self.effect(s2, n['inc']):
                                res.append(s3)
                        elif k == 'do':
                            t, f = self.branch(s2, n['cond'])
                            res += t
                            ex += f
                        else:
                            res.append(s2)
                    elif kind == 'break':
                        ex.append(s2)
                    else:
                        rets.append((s2, kind, v))
            return res, ex

        # 1. find what an iteration changes
        rets = []
        for _ in range(6):
            h = s0.copy()
            self.apply_havoc(h, havoc, site)
            saved_exc, saved = len(self.exc[-1]), [len(getattr(self, x)) for x in self.recorded]
            rets = []
            ends, exits = body(h)
            del self.exc[-1][saved_exc:]
            for x, m in zip(self.recorded, saved):
                del getattr(self, x)[m:]
            new = set(havoc)
            ref = s0.copy()
            self.apply_havoc(ref, havoc, site)
            for s in ends:
                for root, v in s.env.items():
                    if root not in ref.env and root[0] in ('t',):
                        continue
                    if root not in ref.env and not (root[0] in ('p', 'g') or root in ref.refs):
                        if root[0] == 'v' and root not in s0.env:
                            continue
                    old = self.rootval(ref, root)
                    if v != old:
                        for p in self.diff(old, v):
                            new.add((root, p))
            if new == havoc:
                break
            havoc = new
        ikey = tuple(sorted(((repr(r), repr(p), repr(self.read(s0, (r, p)))) for r, p in havoc))) + ((repr(rng), repr(self.read(s0, rng))) if rng else ()) + ((frozenset(s0.facts.items()),) if self.site_by_path else ())
        var = self.sitevar.setdefault(site, {}).setdefault(ikey, len(self.sitevar[site]))
        if var:
            site = site + (var,)
        # 2. fixpoint over the client automaton
        names = {}
        for root, p in havoc:
            if not (p and (root, ()) in havoc):
                names[('phi', site, (root if root[0] != 't' else 't',) + p)] = (root, p)
        rec = {'site': site, 'kind': k, 'line': n['l'], 'rng': rng, 'ends': [], 'exits': [], 'fn': fn, 'names': names,
               'init': {nm: self.read(s0, l) for nm, l in names.items()}, 'cond_exits': 0, 'depth': len(self.stack), 'entry': s0}
        seen, work, outs = {}, [s0.copy()], []
        first = True
        base_log = s0.log
        final_exits, final_rets = [], []
        body_events = []
        while work:
            s = work.pop()
            key = s.auto
            if key in seen:
                continue
            seen[key] = True
            h = s0.copy()
            h.auto = s.auto
            self.apply_havoc(h, havoc, site)
            h.log = ()
            rets = []
            ends, exits = body(h)
            for x in ends:
                body_events.extend(x.log)
                rec['ends'].append((x.log, dict(x.facts), {nm: self.read(x, l) for nm, l in names.items()}, x))
                if x.auto not in seen:
                    work.append(x)
            rec['exits'] += [(x.log, dict(x.facts), {nm: self.read(x, l) for nm, l in names.items()}, x) for x in exits]
            rec['rets'] = rets
            rec.setdefault('leaves', []).extend((x.log, dict(x.facts), {nm: self.read(x, l) for nm, l in names.items()}, x) for x, kind, v in rets if kind == 'return')
            final_exits += exits
            final_rets += rets
            if len(seen) > 64:
                raise Limit('client automaton does not stabilise in a loop')
        for x in final_exits:
            body_events.extend(x.log)
        self.loops.append(rec)
        for nm in names:
            self.phirec[nm] = rec
        self.phirec[('phi', site, 'idx')] = rec
        evs = tuple(dict.fromkeys(body_events))
        mark = (('loop', n['l'], evs),) if evs else ()
        out = []
        for x in final_exits:
            x.log = base_log + mark
            out.append((x, 'normal', None))
        for s2, kind, v in final_rets:
            s2.log = base_log + mark + s2.log
            out.append((s2, kind, v))
        return [(s, 'normal', None) for s in self.merge([x[0] for x in out if x[1] == 'normal'])] + [x for x in out if x[1] != 'normal']

    def diff(self, old, new, depth=0):
        """paths on which two values of the same object differ"""
        if old == new:
            return []
        def base(t):
            m = {}
            while t[0] == 'upd':
                for kk, v in t[2]:
                    m.setdefault(kk, v)
                t = t[1]
            return t, m
        bo, mo = base(old)
        bn, mn = base(new)
        if bo[0] == 'tuple' and bn[0] == 'tuple' and len(bo) == len(bn) and bo != bn and depth <= 4:
            out = []
            for i in range(max(len(bo[1]), len(bn[1]))):
                kk = ('f', 'get%d' % i)
                for p in self.diff(proj(old, kk), proj(new, kk), depth + 1):
                    out.append((kk,) + p)
            return out or [()]
        if bo != bn or depth > 4 or any(k[0] == 'i' for k in list(mo) + list(mn)):
            return [()]
        out = []
        for kk in set(mo) | set(mn):
            a, b = proj(old, kk), proj(new, kk)
            for p in self.diff(a, b, depth + 1):
                out.append((kk,) + p)
        return out or [()]

    def apply_havoc(self, s, havoc, site):
        whole = {r for r, p in havoc if p == ()}
        for root, p in sorted(havoc, key=repr):
            if p and root in whole:
                continue
            name = ('phi', site, (root if root[0] != 't' else 't',) + p)
            cur = self.rootval(s, root)
            for key in p:
                cur = proj(cur, key)
            if not (cur[0] == 'phi' and cur[1] == site):
                self.phi_init.setdefault(name, set()).add(cur)
            s.env[root] = inject(self.rootval(s, root), p, name)
            # facts about phi values of an earlier iteration must not leak
        if havoc:
            s.facts = {a: v for a, v in s.facts.items() if not any(x[0] == 'phi' and x[1] == site for x in subterms(a) if isinstance(x, tuple) and len(x) > 1)}

    # ---------------- joins
    def merge(self, states):
        if len(states) <= 1:
            return states
        # drop exact duplicates
        seen, out = {}, []
        for s in states:
            key = (s.auto, s.log, frozenset(s.facts.items()) if len(s.facts) < 60 else id(s), self.envkey(s))
            if key in seen:
                continue
            seen[key] = True
            out.append(s)
        if len(out) > self.MAXPATHS:
            out = self.collapse(out)
        return out

    def envkey(self, s):
        return frozenset((r, v) for r, v in s.env.items() if r[0] != 't') if len(s.env) < 200 else id(s)

    def limit(self, outs):
        """bound the number of return states of an inlined call"""
        if len(outs) <= self.MAXPATHS:
            return outs
        groups = {}
        for o in outs:
            groups.setdefault((o[1], o[0].auto, repr(o[2]) if o[1] == 'return' else ''), []).append(o)
        res = []
        for (kind, auto, v), os_ in groups.items():
            st = self.join([o[0] for o in os_])
            res.append((st, kind, os_[0][2]))
        return res

    def collapse(self, states):
        groups = {}
        for s in states:
            groups.setdefault(s.auto, []).append(s)
        return [self.join(g) for g in groups.values()]

    def join(self, g):
        if len(g) == 1:
            return g[0]
        r = g[0].copy()
        roots = set()
        for s in g:
            roots |= set(s.env)
        for root in roots:
            vals = {self.rootval(s, root) for s in g}
            if len(vals) > 1:
                self.uid += 1
                r.env[root] = ('phi', ('J', self.uid), root)
        r.facts = {a: v for a, v in g[0].facts.items() if all(s.facts.get(a) == v for s in g)}
        for s in g[1:]:
            for root, l in list(r.refs.items()):
                if s.refs.get(root) != l:
                    pass
        pre = 0
        while all(len(s.log) > pre for s in g) and len({s.log[pre] for s in g}) == 1:
            pre += 1
        evs = tuple(dict.fromkeys(e for s in g for e in s.log[pre:]))
        r.log = g[0].log[:pre] + ((('join', 0, evs),) if evs else ())
        return r

    # ---------------- entry
    def analyse(self, fn, this='this', args=None, auto=None):
        """run fn on fully symbolic inputs; -> [(state, 'return'|'throw', val)]"""
        st = St()
        st.auto = auto
        self.frame = self.uid = 1
        self.stack = [(0, fn)]
        self.tus = [fn.tu]
        self.exc = [[]]
        self.steps = 0
        if fn.kind in ('method', 'ctor', 'conv', 'dtor', 'lambda') and not fn.j.get('static'):
            root = ('o', 'this')
            st.refs[('this', 1)] = (root, ())
            st.env[root] = ('obj', fn.cls) if fn.kind == 'ctor' else ('sym', 'this')
        for i, p in enumerate(fn.params):
            root = ('v', 1, p['d'])
            v = (args or {}).get(i, ('sym', p['n'] or '#%d' % i))
            if p['pk'] in ('ref', 'cref', 'rref'):
                r2 = ('o', p['n'] or '#%d' % i)
                st.refs[root] = (r2, ())
                st.env[r2] = v
            else:
                st.env[root] = v
        outs = self.run_body(st, fn)
        return outs


def tuple_types(t):
    """component types of 'std::tuple<A, B<...>>' / pair"""
    i = t.find('<')
    if i < 0 or 'tuple' not in t[:i] and 'pair' not in t[:i]:
        return None
    d, cur, out = 0, '', []
    for ch in t[i + 1:]:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def tuple_arity(t):
    x = tuple_types(t)
    return None if x is None else len(x)
