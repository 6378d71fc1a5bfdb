#!/usr/bin/env python3
"""mutants.py CASES.py [names]: development aid.  Each case rewrites one file in a scratch copy of the sources and runs checks
against it.  R(name, checks, file, old, new): a rewrite that keeps the behaviour, the checks must stay quiet; M(...): a bug, at
least one of the checks must report it."""
import os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
cases = []
R = lambda n, c, f, *on: cases.append((n, c, 0, f, on))
M = lambda n, c, f, *on: cases.append((n, c, 1, f, on))
exec(open(sys.argv[1]).read())
only = sys.argv[2:]


def run(case):
    n, checks, want, f, on = case
    w = '/tmp/mut.%d/%s' % (os.getpid(), n)
    os.makedirs(w + '/.cache')
    try:
        for d in ('include', 'sources'):
            shutil.copytree(os.environ.get('QTT_BASE', '/repo') + '/' + d, w + '/' + d)
        os.symlink('/repo/extern', w + '/extern')
        for e in os.listdir('/verif/.cache'):
            if e.startswith('extract-'):
                os.symlink('/verif/.cache/' + e, w + '/.cache/' + e)
        s = open(w + '/' + f).read()
        for old, new in zip(on[::2], on[1::2]):
            if s.count(old) < 1:
                return n, want, 'NO MATCH ' + old[:60], ''
            s = s.replace(old, new, 1)
        open(w + '/' + f, 'w').write(s)
        res, txt = 0, ''
        for c in checks.split():
            r = subprocess.run(['python3', '/verif/checks/check.py', c], capture_output=True, text=True,
                               env=dict(os.environ, QTT_REPO=w, QTT_CACHE=w + '/.cache', QTT_EVID=w))
            res = max(res, r.returncode)
            txt += r.stdout[-int(os.environ.get('TAIL', '700')):] + r.stderr[-400:]
        return n, want, res, txt
    finally:
        shutil.rmtree(w)


with ThreadPoolExecutor(6) as ex:
    for n, want, got, txt in ex.map(run, [c for c in cases if not only or c[0] in only]):
        ok = want == got
        print(n, 'ok' if ok else 'WRONG', 'want', want, 'got', got)
        if not ok or only:
            print(txt)
