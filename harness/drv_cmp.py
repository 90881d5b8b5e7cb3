"""Comparison of arrays, dictionaries and objects."""
import copy
import re
import numpy as np
import vh
from vh import call, rand_vec, rand_orth, layout
from drv_lib import unfx
from ellipy.gen.common.common import abs_rel_compare
from ellipy.gen.dict.dict import dict_compare, dict_compare_vec
from ellipy.elltool.conf.properties.Properties import Properties
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane

NORMS = {'abs': lambda x: np.abs(x), 'sum': lambda x: np.sum(np.abs(x)), 'col': lambda x: np.max(np.abs(x), axis=0)}


def seq(x):
    """reported difference: the number, or nothing"""
    return vh.vec(x)


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def imag(a):
    return vh.vec(np.imag(a)) if a.dtype.kind == 'c' else []


def arel_one(rec, left, right, at, rt, norm='abs', bad=None):
    lk, rk = np.array(left, copy=True), np.array(right, copy=True)
    args = [left, right, at, rt, NORMS[norm]]
    if bad is not None:
        args[bad[0]] = bad[1]
    err, r = call(abs_rel_compare, *args)
    ev = dict(op='arel', lsh=list(left.shape), rsh=list(right.shape), l=vh.vec(np.real(left)), r=vh.vec(np.real(right)), li=imag(left), ri=imag(right), at=vh.fx(at),
              rt=[] if rt is None else [vh.fx(rt)], norm=norm, cols=int(left.size // max(1, left.shape[0])) if left.ndim else 1, badargs=bad is not None, err=err,
              eq=False, absd=[], trig=False, reld=[], absm=[], text=False, kept=bool(same(left, lk) and same(right, rk)))
    if err == '':
        ev.update(eq=bool(r[0]), absd=seq(r[1]), trig=bool(r[2]), reld=seq(r[3]), absm=seq(r[4]), text=r[5] != '')
    rec.ev(**ev)


def arel_replay(rec):
    for k, c in enumerate(rec.cases):
        if k % rec.nshards == rec.shard:
            num = {1: np.nan, 2: np.inf, 3: -np.inf}
            lr = [np.array([num[x[0]] if len(x) == 1 else unfx(x) for x in v], dtype=float) for v in (c['l'], c['r'])]
            arel_one(rec, lr[0], lr[1], unfx(c['at']), unfx(c['rt'][0]) if c['rt'] else None)


def q64(rng, x):
    return np.round(np.asarray(x) * 64) / 64


def arel(rec):
    rng = rec.rng
    for _ in range(rec.count(3000, 100000)):
        nd = rng.randint(1, 4)
        sh = tuple(rng.randint(0 if rng.rand() < 0.15 else 1, 4, nd))
        if rng.rand() < 0.03:
            sh = [(40,), (5, 9), (2, 3, 8), (1, 25), (13, 2)][rng.randint(5)]
        big = rng.choice([1., 1., 8., 1000.])
        left = q64(rng, rng.uniform(-big, big, sh))
        if rng.rand() < 0.4:
            left = np.round(left)
        at = float(q64(rng, rng.choice([0., 0., 1 / 64, 0.25, 1., 3., rng.uniform(0, 2)])))
        rt = None if rng.rand() < 0.35 else float(q64(rng, rng.choice([0., 1 / 64, 0.25, 0.5, 1., 2., rng.uniform(0, 2)])))
        # differences at, just above or below the tolerances, or anything
        k = rng.randint(0, 5)
        d = {0: np.zeros(sh), 1: np.full(sh, at), 2: at + q64(rng, rng.uniform(-0.1, 0.1, sh)),
             3: q64(rng, rng.uniform(-big, big, sh)), 4: q64(rng, np.abs(left) * (rt or 0.5)) + rng.choice([0., 1 / 64, -1 / 64], sh)}[k]
        d = d * rng.choice([1., -1., 0.], sh)
        right = left + d
        norm = ['abs', 'abs', 'abs', 'sum', 'col'][rng.randint(5)] if left.size else 'abs'
        if left.size and rng.rand() < 0.25:
            for _ in range(rng.randint(1, 3)):
                i = tuple(rng.randint(0, s) for s in sh)
                v = rng.choice([np.nan, np.inf, -np.inf])
                left[i] = v
                right[i] = v if rng.rand() < 0.8 else rng.choice([np.nan, np.inf, -np.inf, 1.])
        if rng.rand() < 0.15 and np.all(np.isfinite(left)) and np.all(np.isfinite(right)) and np.all(left == np.round(left)) and np.all(right == np.round(right)):
            t = [np.int64, np.int32, float][rng.randint(3)]
            left, right = left.astype(t), right.astype([np.int64, float][rng.randint(2)])
        elif rng.rand() < 0.12 and np.all(np.isfinite(left)) and np.all(np.isfinite(right)):   # other numeric types
            t = ['u1', 'u2', 'i1', 'i2', 'u8', '?'][rng.randint(6)]
            lo, hi = {'u1': (0, 256), 'u2': (0, 65536), 'i1': (-128, 128), 'i2': (-32768, 32768), 'u8': (0, 300), '?': (0, 2)}[t]
            left = np.clip(np.round(np.abs(left)) if rng.rand() < 0.7 else rng.randint(lo, hi, sh), lo, hi - 1)
            right = np.clip(np.round(left + d) if rng.rand() < 0.7 else rng.randint(lo, hi, sh), lo, hi - 1)
            at = float(np.round(at)) if rng.rand() < 0.5 else at
            left, right = left.astype(t), right.astype(t)
        elif rng.rand() < 0.1:      # complex numbers: differences whose moduli are exact
            p = np.array([3 + 4j, -4 + 3j, 5 - 12j, 8 + 15j, 1j, -1 + 0j])
            d = p[rng.randint(0, 6, sh)] * rng.randint(0, 3, sh) * rng.choice([1., 1 / 8, 1 / 64])
            with np.errstate(invalid='ignore'):
                fin = np.isfinite(left) & np.isfinite(right)
                z = p[rng.randint(0, 6, sh)] * rng.randint(-2, 3, sh) / 4
                right = np.where(fin, z + d, right)
                left = np.where(fin, z, left)
            norm = 'abs'
        bad = None
        if rng.rand() < 0.08:
            k = rng.randint(0, 5)
            if k == 0:
                right = right[..., None] if rng.rand() < 0.5 else np.concatenate((right, right), 0) if left.size else np.ones((3,))
                norm = 'abs'
            elif k == 1:
                at = -0.5
            elif k == 2:
                rt = -0.25
            elif k == 3:
                bad = [(2, None), (2, np.array([0.1, 0.2])), (2, 1j), (3, np.array([])), (3, np.array([1., 2.])), (2, 'a'), (4, 3.)][rng.randint(6)]
                if bad[0] == 2 and isinstance(bad[1], str):
                    bad = (2, np.array([]))
            else:
                bad = (rng.randint(0, 2), np.array(['a'] * max(1, left.size)).reshape(left.shape) if left.size else np.array(['x']))
        arel_one(rec, layout(rng, left) if rng.rand() < 0.3 else left, right, at, rt, norm, bad)


# ------------------------------------------------------------------ dictionaries
def tree(x):
    """tagged description of a nested value"""
    if isinstance(x, dict):
        ks = list(x)
        return {'t': 'dict', 'ks': ks, 'vs': [tree(x[k]) for k in ks]}
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'O':
            return {'t': 'dicts', 'sh': list(x.shape), 'l': [tree(v) for v in x.flatten()]}
        if x.dtype.kind in 'US':
            return {'t': 'strs', 'sh': list(x.shape), 'l': [str(v) for v in x.flatten()]}
        return {'t': 'arr', 'ty': 'array ' + x.dtype.kind, 'sh': list(x.shape), 'v': vh.vec(x)}
    if isinstance(x, list):
        return {'t': 'list', 'l': [tree(v) for v in x]}
    if isinstance(x, str):
        return {'t': 'str', 's': x}
    if x is None:
        return {'t': 'none'}
    return {'t': 'num', 'ty': type(x).__name__, 'v': [vh.fx(x)]}


def operand(x):
    if isinstance(x, list):
        return {'t': 'dicts', 'sh': [len(x)], 'l': [tree(v) for v in x]}
    return tree(x)


def untree(t):
    k = t['t']
    if k == 'dict':
        return dict(zip(t['ks'], [untree(v) for v in t['vs']]))
    if k == 'list':
        return [untree(v) for v in t['l']]
    if k == 'str':
        return t['s']
    if k == 'none':
        return None
    if k == 'num':
        x = t['v'][0]
        x = {1: float('nan'), 2: float('inf'), 3: -float('inf')}[x[0]] if len(x) == 1 else unfx(x)
        return {'float': float, 'int': int, 'bool': bool}[t['ty']](x)
    if k == 'arr':
        return np.array([unfx(x) for x in t['v']], dtype=float if t['ty'].endswith('f') else int).reshape(t['sh'])
    if k == 'dicts':
        a = np.empty((len(t['l']),), dtype=object)
        for i, v in enumerate(t['l']):
            a[i] = untree(v)
        return a.reshape(t['sh'])
    raise ValueError(k)


def lines(s):
    return [int(m) for m in re.findall(r'^\((\d+)\)', s, re.M)]


def dict_one(rec, x, y, at, rt):
    kx, ky = copy.deepcopy(x), copy.deepcopy(y)
    tx, ty = operand(x), operand(y)
    args = (at,) if rt is None and rec.rng.rand() < 0.5 else (at, rt)
    err, r = call(dict_compare, x, y, *args)
    ev = dict(op='dicts', x=tx, y=ty, at=vh.fx(at), rt=[] if rt is None else [vh.fx(rt)], err=err, eq=False, each=[], text=False, vtext=False, lines=[], kept=True)
    if err == '':
        ev.update(eq=bool(r[0]), text=r[1] != '', lines=lines(r[1]))

        def arr(v):
            if isinstance(v, dict):
                v = [v]
            a = np.empty((len(v),), dtype=object) if isinstance(v, list) else v
            if isinstance(v, list):
                for i, w in enumerate(v):
                    a[i] = w
            return a
        err, r = call(dict_compare_vec, arr(x), arr(y), at, rt)
        ev['err'] = err
        if err == '':
            ev.update(each=[bool(v) for v in np.asarray(r[0]).flatten()], vtext=r[1] != '')
            if ev['lines'] == [] and r[1] != '' and tx['t'] == ty['t']:
                ev['lines'] = lines(r[1])
    ev['kept'] = operand(x) == operand(kx) and operand(y) == operand(ky)
    rec.ev(**ev)


def bad_dicts(rec):
    """operands that are not dictionaries or collections of dictionaries"""
    rng = rec.rng

    def bad():
        k = rng.randint(0, 12)
        return [lambda: None, lambda: 3, lambda: 2.5, lambda: 'a', lambda: (1, 2), lambda: ({'a': 1.},), lambda: {1, 2},
                lambda: [1., 2.], lambda: np.array([1., 2.]), lambda: ['a'], lambda: [None, {'a': 1.}],
                lambda: np.array(['x', 'y'])][k]()
    for _ in range(rec.count(40, 400)):
        good = rdict(rng, 1)
        if rng.rand() < 0.4:
            good = [good] * rng.randint(1, 3)
        k = rng.randint(0, 4)
        if k == 0:
            x, y = bad(), good
        elif k == 1:
            x, y = good, bad()
        elif k == 2:
            x, y = bad(), bad()
        else:      # a stray value after the dictionaries
            x = [rdict(rng, 0) for _ in range(rng.randint(1, 4))]
            y = copy.deepcopy(x) + [rdict(rng, 0)]
            x = x + [[1., 'a', None][rng.randint(3)]]
            if rng.rand() < 0.5:
                x, y = y, x
        tol = [(), (0.,), (0.25, None), (0., 0.5)][rng.randint(4)]
        err, _ = call(dict_compare, x, y, *tol)
        rec.ev(op='baddicts', err=err, kinds=[type(x).__name__, type(y).__name__])


def dicts_replay(rec):
    for k, c in enumerate(rec.cases):
        if k % rec.nshards == rec.shard:
            dict_one(rec, untree(c['x']), untree(c['y']), unfx(c['at']), unfx(c['rt'][0]) if c['rt'] else None)


KEYS = ['a', 'b', 'cc', 'val', 'x1']
STRS = ['', 'a', 'b', 'text', 'Text']


def rleaf(rng, depth):
    k = rng.randint(0, 15 if depth > 0 else 9)
    f = float(q64(rng, rng.uniform(-4, 4)))
    if k < 2:
        return f if rng.rand() < 0.85 else float(rng.choice([np.nan, np.inf, -np.inf]))
    if k == 2:
        return int(rng.randint(-3, 4))
    if k == 3:
        return [True, False, np.bool_(True), np.float64(f), np.int64(3)][rng.randint(5)]
    if k == 4:
        return STRS[rng.randint(5)]
    if k < 7:
        sh = tuple(rng.randint(0 if rng.rand() < 0.1 else 1, 4, rng.randint(1, 3)))
        a = q64(rng, rng.uniform(-4, 4, sh))
        if a.size and rng.rand() < 0.2:
            a[tuple(rng.randint(0, s) for s in sh)] = rng.choice([np.nan, np.inf])
        elif rng.rand() < 0.25:
            a = np.round(a).astype(int)
        elif rng.rand() < 0.1:
            a = a > 0
        return a
    if k == 7:
        return None
    if k == 8:
        return np.array([STRS[i] for i in rng.randint(1, 5, rng.randint(1, 4))])
    if k < 11:
        return [rleaf(rng, 0) if rng.rand() < 0.3 else float(q64(rng, rng.uniform(-2, 2))) for _ in range(rng.randint(0, 4))]
    if k < 13:
        return rdict(rng, depth - 1)
    m = rng.randint(1, 3)
    if k == 13:
        return [rdict(rng, depth - 1) for _ in range(m)]
    a = np.empty((m,), dtype=object)
    for i in range(m):
        a[i] = rdict(rng, depth - 1)
    return a if rng.rand() < 0.6 else a.reshape((1, m))


def rdict(rng, depth):
    return {KEYS[i]: rleaf(rng, depth) for i in rng.permutation(len(KEYS))[:rng.randint(0, 4)]}


def mutate_top(rng, x, at, rt):
    if isinstance(x, list):          # a list of dictionaries stays one
        k = rng.randint(0, 4)
        if k == 0 or not x:
            return x + [rdict(rng, 1)]
        if k == 1:
            return x[:-1]
        i = rng.randint(len(x))
        x[i] = mutate(rng, x[i], at, rt)
        return x
    return mutate(rng, x, at, rt)


def mutate(rng, x, at, rt):
    """one change somewhere inside (in place where possible); returns the new value"""
    if isinstance(x, dict):
        k = rng.randint(0, 6)
        if k == 0 or not x:
            x[[z for z in KEYS + ['new'] if z not in x][0]] = rleaf(rng, 0)
        elif k == 1:
            del x[list(x)[rng.randint(len(x))]]
        else:
            n = list(x)[rng.randint(len(x))]
            x[n] = mutate(rng, x[n], at, rt)
        return x
    if isinstance(x, list):
        if not x or rng.rand() < 0.3:
            if rng.rand() < 0.5 and x:
                return x[:-1]
            return x + [rdict(rng, 0) if x and isinstance(x[0], dict) else 1.]
        i = rng.randint(len(x))
        x[i] = mutate(rng, x[i], at, rt)
        return x
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'O':
            if rng.rand() < 0.25:
                return x.reshape((-1, 1)) if x.ndim == 1 else x.flatten()
            i = rng.randint(x.size)
            y = x.copy().flatten()
            y[i] = mutate(rng, y[i], at, rt)
            return y.reshape(x.shape)
        if x.dtype.kind == 'U':
            return x[:-1] if rng.rand() < 0.3 and x.size > 1 else np.array(['other'] + list(x[1:]))
        if rng.rand() < 0.2 or not x.size:
            return np.append(x.flatten(), 1).astype(x.dtype) if rng.rand() < 0.5 else x.reshape(x.shape + (1,))
        if rng.rand() < 0.15 and x.dtype.kind != 'b' and np.all(np.isfinite(x)):
            return x.astype(int) if x.dtype.kind == 'f' else x.astype(float)
        y = x.copy()
        i = tuple(rng.randint(0, s) for s in x.shape)
        y[i] = (not y[i]) if x.dtype.kind == 'b' else num(rng, y[i], at, rt, x.dtype.kind == 'i')
        return y
    if x is None:
        return [0., 'None', False][rng.randint(3)]
    if isinstance(x, str):
        return x + 'x' if rng.rand() < 0.7 else None
    if rng.rand() < 0.2:
        return [str(x), [x], np.float64(x), None, np.array([x])][rng.randint(5)]
    if isinstance(x, (bool, np.bool_)):
        return type(x)(not x)
    return type(x)(num(rng, x, at, rt, isinstance(x, (int, np.integer))))


def num(rng, x, at, rt, whole):
    if whole:
        return x + rng.choice([1, -1, 2])
    if not np.isfinite(x):
        return rng.choice([np.nan, np.inf, -np.inf, 0.5])
    k = rng.randint(0, 4)
    return x + [at, at + 1 / 64, 1., -3.][k] * rng.choice([1, -1]) if k < 4 else np.nan


def dicts(rec):
    rng = rec.rng
    bad_dicts(rec)
    for _ in range(rec.count(2500, 80000)):
        k = rng.rand()
        m = rng.randint(1, 4)
        if k < 0.5:
            x = rdict(rng, 2 if rng.rand() < 0.95 else 4)
        elif k < 0.75:
            x = [rdict(rng, 1) for _ in range(rng.randint(0, 4) if rng.rand() < 0.95 else rng.randint(4, 13))]
        else:
            x = np.empty((m,), dtype=object)
            for i in range(m):
                x[i] = rdict(rng, 1)
            if rng.rand() < 0.4:
                x = x.reshape([(m, 1), (1, m)][rng.randint(2)])
        at = float([0., 0., 1 / 64, 0.25, 1.][rng.randint(5)])
        rt = [None, None, 0.25, 1.][rng.randint(4)]
        y = copy.deepcopy(x)
        if isinstance(y, dict) and rng.rand() < 0.5:      # another order of the keys
            y = {n: y[n] for n in list(y)[::-1]}
        k = rng.rand()
        if k < 0.65:
            y = mutate_top(rng, y, at, rt)
        elif k < 0.75:
            y = mutate_top(rng, mutate_top(rng, y, at, rt), at, rt)
        if rng.rand() < 0.5:
            x, y = y, x
        dict_one(rec, x, y, at, rt)


# ------------------------------------------------------------------ objects
PROPV = {'abs_tol': [1e-6, 1e-5, 1e-4, 1e-3, 0.01], 'rel_tol': [1e-6, 1e-5, 1e-4, 1e-3], 'n': [10, 50, 51, 200]}


def shaped(rng, objs):
    a = np.empty((len(objs),), dtype=object)
    for i, o in enumerate(objs):
        a[i] = o
    n = len(objs)
    if n > 1 and rng.rand() < 0.5:
        a = a.reshape([(1, n), (n, 1), (n // 2, 2) if n % 2 == 0 else (n, 1, 1)][rng.randint(3)])
    return a


def make_obj(kind, v, s):
    """object and record: a plane <c, x> = r, or an ellipsoid with centre c and shape r r"""
    if kind == 'h':
        return Hyperplane(v[0], v[1], **s), dict(c=vh.vec(v[0]), q=[[vh.fx(v[1])]], root=[], s=[vh.fx(s['abs_tol']), vh.fx(s['rel_tol'])])
    q = v[1] @ v[1]
    q = 0.5 * (q + q.T)
    return Ellipsoid(v[0], q, **s), dict(c=vh.vec(v[0]), q=vh.mat(q), root=vh.mat(v[1]), s=[vh.fx(s[k]) for k in s])


def equal_one(rec, kind, first, second, a, b, props):
    n1, n2 = len(first), len(second)
    cls = Ellipsoid if kind == 'e' else Hyperplane
    before = [vh.vec(x) for o in list(a.flatten()) + list(b.flatten()) for x in o.double()]
    if not props and rec.rng.rand() < 0.3:
        err, r = call(cls.eq, a, b)
    elif not props and rec.rng.rand() < 0.5:
        err, r = call(cls.is_equal, a, b)
    else:
        err, r = call(cls.is_equal, a, b, props)
    e2, r2 = call(cls.is_equal, b, a, props)
    op2 = []
    if n1 == 1 and n2 == 1:
        e3, r3 = call(lambda: a.flat[0] == b.flat[0])
        op2 = [bool(r3)] if e3 == '' else ['odd ' + e3]
    rec.ev(op='equal', kind=kind, first=[d for _, d in first], second=[d for _, d in second], sh1=list(a.shape), sh2=list(b.shape),
           props=props, err=err if err else e2, eq=[bool(x) for x in np.asarray(r[0]).flatten()] if err == '' else [],
           esh=vh.shape(r[0]) if err == '' else [], text=bool(err == '' and r[1] != ''),
           rev=[bool(x) for x in np.asarray(r2[0]).flatten()] if e2 == '' else [], op2=op2,
           kept=bool(before == [vh.vec(x) for o in list(a.flatten()) + list(b.flatten()) for x in o.double()]))


def equal_replay(rec):
    """every pair of small objects of MC_Compare"""
    Properties.init()
    for k, c in enumerate(rec.cases):
        if k % rec.nshards != rec.shard or c['op'] != 'equal':
            continue
        ob = []
        for d in (c['a'], c['b']):
            s = dict(zip(['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points'], [unfx(x) for x in d['s']]))
            s = {n: int(x) if n.startswith('n_') else x for n, x in s.items()}
            v = np.array([unfx(x) for x in d['c']])
            r = unfx(d['q'][0][0]) if c['kind'] == 'h' else np.array([[unfx(x) for x in row] for row in d['root']])
            ob.append(make_obj(c['kind'], [v, r], s))
        n = 1 if k % 5 else 3
        arr = [shaped(rec.rng, [o[0]]) for o in ob]
        if n == 3:
            arr[1] = shaped(rec.rng, [ob[1][0]] * 3)
        equal_one(rec, c['kind'], ob[:1], ob[1:] * n, arr[0], arr[1], bool(c['props']))


def equal(rec):
    rng = rec.rng
    Properties.init()
    for _ in range(rec.count(1200, 40000)):
        kind = 'e' if rng.rand() < 0.6 else 'h'
        n1, n2 = [(1, 1), (1, 1), (1, 3), (4, 1), (3, 3), (4, 4), (2, 3), (0, 0), (0, 1), (2, 0)][min(9, rng.randint(0, 12))]
        if rng.rand() < 0.04:
            n1, n2 = [(1, 9), (12, 1), (9, 9), (7, 12)][rng.randint(4)]
        dim = rng.randint(1, 4) if rng.rand() < 0.96 else rng.randint(4, 8)
        props = bool(rng.rand() < 0.35)
        m = max(n1, n2, 1)
        tol = {'abs_tol': float(rng.choice(PROPV['abs_tol'])), 'rel_tol': float(rng.choice(PROPV['rel_tol']))}

        def settings(vary):
            s = dict(tol)
            if kind == 'e':
                s.update(n_plot_2d_points=200, n_plot_3d_points=200)
            if vary:
                k = list(s)[rng.randint(len(s))]
                s[k] = int(rng.choice(PROPV['n'])) if k.startswith('n_') else float(rng.choice(PROPV[k]))
            return s

        def value(d):
            if kind == 'h':
                c = vh.rand_dir(rng, d) if rng.rand() < 0.93 else np.zeros(d)
                if d > 1 and np.linalg.norm(c) == 0:
                    c = np.ones(d)
                x = float(np.round(rng.uniform(-3, 3), 2)) if np.linalg.norm(c) else float(rng.choice([0., 1.]))
                if np.linalg.norm(c) == 0 and x != 0:
                    c = np.ones(d)
                return [c, x]
            r = vh.rand_psd(rng, d, rng.randint(0, d + 1)) if rng.rand() < 0.5 else vh.rand_spd(rng, d, 0.3, 2.)
            return [rand_vec(rng, d), r]

        def perturb(v, scale):
            """another value at a distance of about scale * tolerance"""
            c, r = np.array(v[0], dtype=float), v[1]
            t = tol['abs_tol'] * scale
            k = rng.randint(0, 3)
            if kind == 'h':
                if k == 0:
                    r = r + t * max(1., np.linalg.norm(c))
                elif k == 1 and c.size > 1:
                    c[rng.randint(c.size)] += t * max(1., np.linalg.norm(c))
                else:
                    f = float(rng.choice([2., -1., 0.5, -3., 10.]))
                    if r != 0 or f > 0:
                        c, r = c * f, r * f
                return [c, r]
            if k == 0:
                c[rng.randint(c.size)] += t
            else:
                i = rng.randint(c.size)
                r = r.copy()
                r[i, i] += t
                if k == 2 and c.size > 1 and scale > 1:
                    j = (i + 1) % c.size
                    r[j, j] += 2 * t
            return [c, r]

        base = [value(dim if rng.rand() < 0.95 else rng.randint(1, 4)) for _ in range(m)]
        if n1 == 1 or n2 == 1:
            base = [base[0]] * m
        va = rng.rand() < (0.4 if props else 0.25)
        first = [make_obj(kind, base[i], settings(va)) for i in range(n1)]
        second = []
        for i in range(n2):
            k = rng.rand()
            v = base[i]
            if k < 0.35:
                v = perturb(v, float(rng.choice([0.2, 0.4])))
            elif k < 0.6:
                v = perturb(v, float(rng.choice([4., 30., 1000.])))
            elif k < 0.65:
                v = value(rng.randint(1, 4))
            elif k < 0.8 and kind == 'e' and len(v[0]) > 1:     # the shape transposed in the order of coordinates
                p = rng.permutation(len(v[0]))
                v = [v[0], v[1][np.ix_(p, p)]]
            second.append(make_obj(kind, v, settings(va)))
        a, b = shaped(rng, [o for o, _ in first]), shaped(rng, [o for o, _ in second])
        if n1 == n2 and rng.rand() < 0.85:
            b = b.reshape(a.shape)
        equal_one(rec, kind, first, second, a, b, props)
