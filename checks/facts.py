"""Builds/loads the fact base: the type-checked syntax trees of /repo's current sources."""
import hashlib, json, os, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QTT_REPO', '/repo')
CACHE = os.environ.get('QTT_CACHE', os.path.join(VERIF, '.cache'))
TORCH = '/opt/vp/torch-site/torch'
CUDNN = '/opt/vp/cudnn-site/nvidia/cudnn'
PROBE = os.path.join(VERIF, 'analyzer', 'instantiate.cpp')


class Broken(Exception):
    """The analysis itself could not be carried out (never a verdict)."""


def flags():
    return ['-DFMT_HEADER_ONLY=1', '-DQuantiT_EXPORTS', '-DUSE_C10D_GLOO', '-DUSE_C10D_NCCL', '-DUSE_DISTRIBUTED',
            '-DUSE_RPC', '-DUSE_TENSORPIPE', '-I%s/extern/boost' % REPO, '-I%s/extern/doctest' % REPO,
            '-I%s/include' % REPO, '-isystem', TORCH + '/include', '-isystem',
            TORCH + '/include/torch/csrc/api/include', '-isystem', CUDNN + '/include',
            '-DFMT_DEPRECATED_OSTREAM', '-D_GLIBCXX_USE_CXX11_ABI=0', '-std=gnu++17', '-w',
            '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def analyzer():
    src = os.path.join(VERIF, 'analyzer', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, 'extract-' + h)
    if not os.path.exists(out):
        with open(os.path.join(CACHE, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out):
                r = subprocess.run([os.path.join(VERIF, 'analyzer', 'build.sh'), out], capture_output=True, text=True)
                if r.returncode:
                    raise Broken('cannot build the extractor: ' + r.stderr[-2000:])
    return out


def library_units():
    """The translation units of the QuantiT library, from its CMake list (so that new files are seen)."""
    import re
    d = os.path.join(REPO, 'sources')
    cm = re.sub(r'#[^\n]*', '', open(os.path.join(d, 'CMakeLists.txt')).read())
    names = sorted(set(re.findall(r'[\w./]+\.cpp', cm)))
    units = [os.path.join(d, os.path.basename(n)) for n in names if os.path.exists(os.path.join(d, os.path.basename(n)))]
    if len(units) < 13:
        raise Broken('only %d library units found in sources/CMakeLists.txt' % len(units))
    return units


def source_hash(unit):
    h = hashlib.sha256()
    for base in ('include', 'sources'):
        for dp, dn, fn in sorted(os.walk(os.path.join(REPO, base))):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                if f.endswith('.cpp') and p != unit:
                    continue
                h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    h.update(open(unit, 'rb').read())
    h.update(open(os.path.join(VERIF, 'analyzer', 'extract.cpp'), 'rb').read())
    h.update(repr(flags()).encode())
    return h.hexdigest()[:24]


def extract(unit):
    exe = analyzer()
    out = os.path.join(CACHE, 'facts-%s-%s.json' % (os.path.basename(unit), source_hash(unit)))
    if not os.path.exists(out):
        tmp = '%s.%d.tmp' % (out, os.getpid())
        extra = os.path.join(VERIF, 'analyzer') + '/' if unit.startswith(VERIF) else '-'
        r = subprocess.run([exe, REPO, extra, tmp, unit, '--'] + flags(), capture_output=True, text=True, cwd='/')
        if r.returncode or not os.path.exists(tmp):
            if os.path.exists(tmp):
                os.unlink(tmp)
            raise Broken('extractor failed on %s: %s' % (unit, r.stderr[-3000:]))
        # keep one version per unit
        pre = 'facts-%s-' % os.path.basename(unit)
        for f in os.listdir(CACHE):
            if f.startswith(pre) and not f.endswith('.tmp'):
                try:
                    os.unlink(os.path.join(CACHE, f))
                except OSError:
                    pass
        os.rename(tmp, out)
    d = json.load(open(out))
    if d.get('errors'):
        raise Broken('%s does not parse cleanly (%d errors)' % (unit, d['errors']))
    return d


class Fn:
    """One function definition."""
    __slots__ = ('j', 'tu', 'q', 'u', 'name', 'file', 'line', 'params', 'body', 'kind', 'cls', 'dep')

    def __init__(self, j, tu):
        self.j, self.tu = j, tu
        self.q, self.u, self.name = j['q'], j['u'], j['n']
        self.file, self.line = j.get('patfile', j['file']), j.get('patline', j['line'])
        self.params, self.body = j['params'], j.get('body')
        self.kind, self.cls = j['kind'], j.get('cls')
        self.dep = j.get('dep', False)

    def __repr__(self):
        return '<%s %s:%d>' % (self.q, os.path.basename(self.file), self.line)

    @property
    def const(self):
        return self.j.get('const', False)

    def ty(self, i):
        return self.tu['types'][i] if i is not None and i >= 0 else '?'

    @property
    def ret(self):
        return self.ty(self.j['ret'])

    @property
    def loc(self):
        return '%s:%d' % (os.path.relpath(self.file, REPO), self.line)

    def ptypes(self):
        return [self.ty(p['t']) for p in self.params]

    def sig(self):
        return '%s(%s)%s' % (self.q, ', '.join(self.ptypes()), ' const' if self.const else '')


class Facts:
    def __init__(self, units=None, probe=True):
        us = units or library_units()
        if units:
            us = [u if u.startswith('/') else os.path.join(REPO, 'sources', u) for u in us]
        if probe:
            us = us + [PROBE]
        analyzer()
        with ThreadPoolExecutor(8) as ex:
            self.tus = list(ex.map(extract, us))
        self.units = us
        self.fns, self.byq, self.bycls = {}, {}, {}
        self.classes, self.globals = {}, {}
        self.lambdas = {}
        for tu, u in zip(self.tus, us):
            tu['unit'] = u
            for j in tu['functions']:
                k = j['u']
                if k in self.fns and not (self.fns[k].body is None and j.get('body')):
                    continue
                f = Fn(j, tu)
                if '/verif/' in f.file and 'quantit_verif_probe' in f.q:
                    continue
                self.fns[k] = f
            for c in tu['classes']:
                c['tu'] = tu
                k = tu['types'][c['t']]
                if k not in self.classes:
                    self.classes[k] = c
            for g in tu['globals']:
                g['tu'] = tu
                self.globals.setdefault((g['q'], g['file'], g['line']), g)
        for f in list(self.fns.values()):
            self.byq.setdefault(f.q, []).append(f)
            if f.body:
                for n in walk(f.j):
                    if n.get('k') == 'lambda':
                        for b in n['bodies']:
                            if b.get('u') is not None:
                                self.lambdas.setdefault((id(f.tu), b['u']), Fn(b, f.tu))

    def q(self, name, dep=False, body=True):
        return [f for f in self.byq.get(name, []) if (dep or not f.dep) and (f.body or not body)]

    def all(self, dep=False):
        return [f for f in self.fns.values() if f.body and (dep or not f.dep)]


def walk(n):
    """all dict nodes of a tree"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x or 'kind' in x:
                yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(x)


# ---- pretty printing (diagnostics only; never used to decide anything) ----
def pe(n):
    if n is None:
        return ''
    k = n['k']
    a = n.get('a') or []
    A = ', '.join(pe(x) for x in a)
    if k in ('int', 'bool', 'float'):
        return n['v']
    if k == 'str':
        return repr(n.get('v'))
    if k == 'ref':
        return n['n'] + ('' if n['dk'] in ('parm', 'var', 'bind') else '{%s}' % n['dk'])
    if k == 'this':
        return 'this'
    if k == 'member':
        return pe(n['b']) + ('->' if n.get('arrow') else '.') + n['n']
    if k == 'call':
        o = pe(n['obj']) + '.' if 'obj' in n else ''
        return '%s%s(%s)' % (o, n.get('f') or '?' + pe(n.get('ce')), A)
    if k == 'construct':
        return '%s%s{%s}' % (n['cls'], '[' + n['cc'] + ']' if 'cc' in n else '', A)
    if k in ('bin', 'assign'):
        return '(%s %s %s)' % (pe(a[0]), n['op'], pe(a[1]))
    if k == 'un':
        return '(%s%s)' % (A, n['op']) if n.get('post') else '(%s%s)' % (n['op'], A)
    if k == 'cond':
        return '(%s ? %s : %s)' % tuple(pe(x) for x in a)
    if k == 'sub':
        return '%s[%s]' % (pe(a[0]), pe(a[1]))
    if k == 'lambda':
        return '[lambda x%d]%s' % (len(n['bodies']), '{...}')
    return '%s<%s>' % (k, A)


def ps(n, ind=0, out=None):
    out = [] if out is None else out
    t = '  ' * ind
    if n is None:
        return out
    k = n['k']
    if k == 'block':
        for s in n['s']:
            ps(s, ind, out)
    elif k == 'expr':
        out.append(t + pe(n['e']))
    elif k == 'decl':
        for v in n['v']:
            out.append(t + 'decl %s%s = %s' % ('&' if 'ref' in v['pk'] else '', v['n'] or [b['n'] for b in v.get('binds', [])], pe(v.get('init'))))
    elif k == 'if':
        if n.get('init'):
            ps(n['init'], ind, out)
        out.append(t + 'if%s %s' % (' constexpr' if n.get('cx') else '', pe(n['cond'])))
        ps(n['then'], ind + 1, out)
        if n.get('else'):
            out.append(t + 'else')
            ps(n['else'], ind + 1, out)
    elif k in ('while', 'do'):
        out.append(t + k + ' ' + pe(n['cond']))
        ps(n['body'], ind + 1, out)
    elif k == 'for':
        out.append(t + 'for ')
        ps(n.get('init'), ind + 2, out)
        out.append(t + '  ; %s ; %s' % (pe(n.get('cond')), pe(n.get('inc'))))
        ps(n['body'], ind + 1, out)
    elif k == 'rfor':
        out.append(t + 'for %s%s : %s' % ('&' if 'ref' in n['var']['pk'] else '', n['var']['n'] or [b['n'] for b in n['var'].get('binds', [])], pe(n['range'])))
        ps(n['body'], ind + 1, out)
    elif k == 'return':
        out.append(t + 'return ' + pe(n.get('e')))
    elif k == 'switch':
        out.append(t + 'switch ' + pe(n['cond']))
        ps(n['body'], ind + 1, out)
    elif k == 'case':
        out.append(t + 'case ' + pe(n['e']))
        ps(n['s'], ind + 1, out)
    elif k == 'default':
        out.append(t + 'default')
        ps(n['s'], ind + 1, out)
    elif k == 'try':
        out.append(t + 'try')
        ps(n['body'], ind + 1, out)
        for h in n['h']:
            out.append(t + 'catch')
            ps(h['body'], ind + 1, out)
    else:
        out.append(t + k)
    return out


def show(f):
    print(f, f.sig())
    for i in f.j.get('inits', []):
        print('  init', i.get('member') or i.get('base') or 'deleg', pe(i['e']))
    print('\n'.join(ps(f.body, 1)))


if __name__ == '__main__':
    F = Facts()
    for nm in sys.argv[1:]:
        for f in F.q(nm):
            show(f)
