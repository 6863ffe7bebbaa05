"""Self test of the analyser: idioms of Python and numpy are evaluated by the abstract
interpreter on symbolic arguments, the resulting terms are evaluated at sample
arguments, and the values are compared to those that Python computes.  This tests the
analyser's models of the language; it decides nothing about arboris.

    /opt/venv/bin/python tools/selftest.py [-v] [name...]
"""
import ast
import math
import os
import sys
import warnings
warnings.simplefilter('ignore')
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(H), 'sa'))
import numpy as np
from drive import *
from alg import Model

PRE = """
import math, itertools, functools, operator, collections
from math import sqrt, pi
import numpy
import numpy as np
import numpy.linalg
from numpy import (dot, outer, diag, zeros, eye, ndarray, array, arctan2, ix_)
from numpy.linalg import norm, inv, det, solve, eigvals, pinv
from copy import copy, deepcopy
from abc import ABCMeta, abstractmethod
"""
A = dict(a=1.25, b=-.5, v=[.5, -1.5, 2.], w=[1., .25, -.75],
         M=[[2., .5, -1.], [0.25, 3., .5], [1., -.5, 2.5]], N=[[1., 2., 0.], [-.5, 1.5, 1.], [.75, .5, -2.]])
MAP = {}


def symargs(r):
    out = []
    vals = {}
    for k in ('a', 'b', 'v', 'w', 'M', 'N'):
        x = A[k]
        if isinstance(x, float):
            s = sym('st_' + k)
            vals[alg._single(s)] = x
            out.append(s)
        elif isinstance(x[0], float):
            c = vec('st_' + k, 3)
            for i in range(3):
                vals[alg._single(c.c[i])] = x[i]
            out.append(r.nd(c))
        else:
            c = mat('st_' + k, 3, 3)
            for i in range(3):
                for j in range(3):
                    vals[alg._single(c.c[i, j])] = x[i][j]
            out.append(r.nd(c))
    return out, vals


def conc(r, v, m):
    v = r.guard(lambda: r.I.settle(r.st, v)) if hasattr(r.I, 'settle') else v
    if isinstance(v, Phi):
        return conc(r, v.hi if m.catom(v.a) else v.lo, m)
    if v is None or isinstance(v, (bool, str, int, float)):
        return v
    if isinstance(v, Nd):
        x = r.content(v)
        x = m.value(x)
        return np.asarray(x, dtype=float)
    if isinstance(v, (Sx, Ar, Mx)):
        return m.value(v)
    if isinstance(v, tuple):
        return [conc(r, x, m) for x in v]
    try:
        return [conc(r, x, m) for x in r.items(v)]
    except Exception:
        raise Unsupported('result %r' % (v,))


def norm_(x):
    if isinstance(x, np.ndarray) or isinstance(x, np.generic):
        return np.asarray(x, dtype=float)
    if isinstance(x, (tuple, list, range)):
        return [norm_(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return [norm_(y) for y in sorted(x)]
    return x


def close(x, y):
    if isinstance(x, list) or isinstance(y, list):
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            try:
                return np.allclose(np.array(x, dtype=float), np.array(y, dtype=float))
            except Exception:
                return False
        return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and \
            all(close(p, q) for p, q in zip(x, y))
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return x == y
    try:
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        return x.shape == y.shape and np.allclose(x, y)
    except Exception:
        return x == y


def main(argv):
    verbose = '-v' in argv
    only = [x for x in argv if not x.startswith('-')]
    src = open(os.path.join(H, 'idioms.txt')).read()
    cases = [c.strip('\n') for c in src.split('\n#--') if c.strip('\n- ')]
    prog = Program()
    sch = Schema(prog)
    res = {'ok': 0, 'unsupported': 0, 'wrong': 0, 'bad case': 0}
    for n, c in enumerate(cases):
        name, _, body = c.partition('\n')
        name = name.strip('- #') or str(n)
        if only and name not in only:
            continue
        if 'def f(' not in body:
            body = 'def f(a, b, v, w, M, N):\n' + '\n'.join('    ' + l for l in body.split('\n'))
        code = PRE + body + '\n'
        g = {}
        try:
            exec(compile(code, name, 'exec'), g)
            x = {k: (np.array(y) if isinstance(y, list) else y) for k, y in A.items()}
            want = norm_(g['f'](*[x[k] for k in ('a', 'b', 'v', 'w', 'M', 'N')]))
        except Exception as e:
            res['bad case'] += 1
            print('BAD', name, type(e).__name__, e)
            continue
        try:
            r = Run(prog, sch)
            args, vals = symargs(r)
            mod = 'selftest%d' % n
            prog.add_source(mod, code, '<idiom %s>' % name)
            got = r.call(r.fn(mod, 'f'), *args)
            if [x for x in r.raises if x.cond is True] if r.raises and hasattr(r.raises[0], 'cond') else r.raises:
                raise PyErr(repr(r.raises))
            m = Model(np.random.default_rng(1))
            m.val.update(vals)
            got = norm_(conc(r, got, m))
        except PyErr as e:
            res['wrong'] += 1
            print('RAISES', name, str(e)[:150])
            continue
        except Exception as e:
            res['unsupported'] += 1
            print('UNSUP', name, type(e).__name__, str(e)[:150])
            if verbose:
                import traceback
                traceback.print_exc()
            continue
        if close(got, want):
            res['ok'] += 1
        else:
            res['wrong'] += 1
            print('WRONG', name, got, 'instead of', want)
    print(res)
    return 1 if res['wrong'] else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
