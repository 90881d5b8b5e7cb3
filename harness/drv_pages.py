"""Stacks of matrices, and stacks built from formulas and functions."""
import numpy as np
import vh
from vh import call, rand_spd, rand_psd, rand_orth
from drv_la import Kept, q64
from drv_lib import unfx
from ellipy.gras.gen.gen import MatVector, SquareMatVector, SymmetricMatVector


def lay(rng, a):
    k = rng.randint(0, 7)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        b = np.zeros(tuple(2 * s for s in a.shape))
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == 2 and np.all(np.isfinite(a)) and np.all(a == np.round(a)):
        return a.astype(int)
    if k == 3 and a.ndim == 3:
        return np.ascontiguousarray(a.transpose(2, 0, 1)).transpose(1, 2, 0)
    return a


def pages(a):
    a = np.asarray(a)
    if a.ndim == 3:
        return [vh.mat(a[:, :, k]) for k in range(a.shape[2])]
    return [vh.mat(a)]


def rect(rng, r, c, p=None, whole=False):
    sh = (r, c) if p is None else (r, c, p)
    return rng.randint(-3, 4, sh).astype(float) if whole or rng.rand() < 0.5 else np.round(rng.uniform(-2, 2, sh), 3)


def stack(ms, flat=False):
    return ms[0] if flat else np.stack(ms, axis=2)


def good(rng, n):
    while True:
        m = rect(rng, n, n)
        if abs(np.linalg.det(m)) > 0.3:
            return m


def symreal(rng, n):
    return rand_spd(rng, n) if rng.rand() < 0.3 else (lambda a: a + a.T)(rect(rng, n, n))


def around_zero(rng, n, v):
    """a symmetric matrix with eigenvalues of both signs, some of them near zero on the scale of v"""
    u = rand_orth(rng, n) if rng.rand() < 0.7 else np.eye(n)
    m = u @ np.diag(v * rng.choice([-4., -1., -0.5, -0.1, 0.3, 2.], n) + rng.choice([0., 0., 1.], n)) @ u.T
    return 0.5 * (m + m.T)


def out(o):
    """pages, shape and flat values of a result"""
    try:
        sh = vh.shape(o)
        return dict(o=pages(o) if np.ndim(o) in (0, 2, 3) else [], sh=sh, q=vh.vec(o) if np.ndim(o) == 1 or np.size(o) == 1 else [])
    except Exception:
        return dict(o=[], sh=[-1], q=[])


def emit(rec, op, f, args, kw=None, **data):
    kept = Kept(*args)
    err, r = call(f, *args, **(kw or {}))
    o = out(r) if err == '' else dict(o=[], sh=[], q=[])
    rec.ev(op=op, err=err, kept=kept(), **o, **data)


def unary(rec, op, a):
    f = {'triu': MatVector.triu, 'symm': MatVector.make_symmetric, 'transp': MatVector.transpose, 'pinv': MatVector.pinv,
         'inv': SquareMatVector.inv, 'sqrtm': SquareMatVector.sqrtm_pos, 'posnan': SquareMatVector.make_pos_definite_or_nan}[op]
    emit(rec, op, f, (a,), a=pages(a), ash=vh.shape(a))


def poseig(rec, a, v):
    if v is None:
        emit(rec, 'poseig', SquareMatVector.make_pos_definite_by_eig, (a,), a=pages(a), ash=vh.shape(a), v=vh.fx(1e-12))
    else:
        emit(rec, 'poseig', SquareMatVector.make_pos_definite_by_eig, (a, v), a=pages(a), ash=vh.shape(a), v=vh.fx(v))


def rmul(rec, a, b, c, sparse):
    args = (a, b) if c is None else (a, b, c)
    kw = {} if sparse is None else dict(use_sparse_matrix=sparse)
    emit(rec, 'rmul', MatVector.r_multiply, args, kw, a=pages(a), b=pages(b), c=[] if c is None else pages(c), tern=c is not None)


def cols_of(v):
    return [vh.vec(v[:, k]) for k in range(v.shape[1])]


def rmulvec(rec, a, v, sparse):
    kw = {} if sparse is None else dict(use_sparse_matrix=sparse)
    emit(rec, 'rmulvec', MatVector.r_multiply_by_vec, (a, v), kw, a=pages(a), v=cols_of(v) if v.ndim == 2 else [], vnd=v.ndim)


def svdrvec(rec, a, v):
    emit(rec, 'svdrvec', SymmetricMatVector.r_svd_multiply_by_vec, (a, v), a=pages(a), v=cols_of(v) if v.ndim == 2 else [], vnd=v.ndim)


def lr(rec, op, b, a, flag):
    f = SquareMatVector.lr_multiply if op == 'lr' else SymmetricMatVector.lr_svd_multiply
    args = (b, a) if flag is None else (b, a, flag)
    emit(rec, op, f, args, a=pages(a), b=pages(b), flag=flag or 'R', flat=bool(op == 'lr' and b.ndim == 2))


def vform(rec, op, b, v):
    f = {'lrvec': SquareMatVector.lr_multiply_by_vec, 'svdlrvec': SymmetricMatVector.lr_svd_multiply_by_vec,
         'div': SquareMatVector.lr_divide_vec, 'svddiv': SymmetricMatVector.lr_svd_divide_vec}[op]
    w = v.reshape(-1, 1) if v.ndim == 1 else v
    emit(rec, op, f, (b, v), b=pages(b), v=cols_of(w), flat=bool(op == 'div' and b.ndim == 2))


def algebra(rec):
    rng = rec.rng
    for _ in range(rec.count(2600, 80000)):
        k = rng.randint(0, 20) if rng.rand() < 0.9 else rng.randint(3, 8)
        n, r, c, p = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 5)
        if rng.rand() < 0.08:      # now and then something larger
            n, r, c, p = [(rng.randint(5, 8), r, c, p), (n, rng.randint(5, 9), c, p), (n, r, rng.randint(5, 9), p), (n, r, c, rng.randint(6, 15))][rng.randint(4)]
        flat = bool(rng.rand() < 0.3)
        if k < 3:
            unary(rec, ['triu', 'symm', 'transp'][k], lay(rng, rect(rng, n, n if k == 1 else r, None if flat else p)))
        elif k == 3:
            ms = []
            for _ in range(1 if flat else p):
                m = rect(rng, n, r)
                s = np.linalg.svd(m, compute_uv=False)
                if s[-1] < 0.2:              # a deficient page: a permuted diagonal
                    m = np.zeros((n, r))
                    for i, j in enumerate(rng.permutation(max(n, r))[:min(n, r)]):
                        x = rng.randint(0, 3) if rng.rand() < 0.6 else [0., 1., 2. ** -7, 2. ** -12, 64.][rng.randint(5)]
                        if n >= r:
                            m[j, i] = x
                        else:
                            m[i, j] = x
                ms.append(m)
            unary(rec, 'pinv', lay(rng, stack(ms, flat)))
        elif k == 4:
            unary(rec, 'inv', lay(rng, stack([good(rng, n) for _ in range(1 if flat else p)], flat)))
        elif k == 5:
            ms = [rand_spd(rng, n) if rng.rand() < 0.8 else rand_psd(rng, n, rng.randint(0, n + 1)) for _ in range(1 if flat else p)]
            j = rng.randint(len(ms))
            z = rng.rand()
            if z < 0.15 and not flat:
                ms[j] = ms[j] * np.nan
                if rng.rand() < 0.5 and n > 1:
                    ms[j] = rand_spd(rng, n)
                    ms[j][0, 0] = np.nan
            elif z < 0.22:
                ms[j] = -ms[j] - np.eye(n)
            elif z < 0.28 and n > 1:
                ms[j] = ms[j] + np.triu(np.ones((n, n)), 1)
            unary(rec, 'sqrtm', lay(rng, stack(ms, flat)))
        elif k == 6:
            unary(rec, 'posnan', lay(rng, stack([symreal(rng, n) for _ in range(1 if flat else p)], flat)))
        elif k == 7:
            v = [None, 0.25, 1., 1e-3, 0.][rng.randint(5)]
            ms = [symreal(rng, n) if rng.rand() < 0.4 else around_zero(rng, n, v or 0.01) for _ in range(1 if flat else p)]
            if rng.rand() < 0.08 and n > 1:
                ms[-1] = ms[-1] + np.triu(np.ones((n, n)), 1) / 8
            poseig(rec, lay(rng, stack(ms, flat)), v)
        elif k < 11:
            a = rect(rng, n, r, p)
            b = rect(rng, r, c, p)
            q = rng.randint(1, 5)
            d = rect(rng, c, q, p)
            which = rng.randint(0, 8)
            if which == 0:
                a = rect(rng, 1, 1, p)
            elif which == 1:
                b, d = rect(rng, 1, 1, p), rect(rng, r, q, p)
            elif which == 2:
                d = rect(rng, 1, 1, p)
            if rng.rand() < 0.25:
                b = b[:, :, 0] if rng.rand() < 0.6 else b[:, :, :1]
            if rng.rand() < 0.25:
                d = d[:, :, 0] if rng.rand() < 0.6 else d[:, :, :1]
            d = d if rng.rand() < 0.4 else None
            if d is None and rng.rand() < 0.05 and p > 1:
                b = rect(rng, b.shape[0], b.shape[1], p + 1)
            rmul(rec, lay(rng, a), lay(rng, b), None if d is None else lay(rng, d), [None, True, False][rng.randint(3)])
        elif k == 11:
            v = rect(rng, r, p)
            if rng.rand() < 0.06:
                v = [v[:, 0], v[:, :, None]][rng.randint(2)]
            rmulvec(rec, lay(rng, rect(rng, n, r, p)), lay(rng, v), [None, True, False][rng.randint(3)])
        elif k in (12, 13):
            flag = [None, 'R', 'L', 'R', 'L', 'X'][rng.randint(0, 6 if rng.rand() < 0.2 else 5)]
            b = np.stack([good(rng, n) if k == 12 else symreal(rng, n) for _ in range(p)], axis=2)
            a = rect(rng, n, r, p)
            if flag == 'L':
                a = a.transpose(1, 0, 2)
            z = rng.rand()
            if z < 0.25:
                a = a[:, :, 0] if rng.rand() < 0.7 or k == 12 else a[:, :, :1]
            elif z < 0.45:
                b, a = b[:, :, 0], a[:, :, 0] if rng.rand() < 0.7 else a[:, :, :1]
            lr(rec, 'lr' if k == 12 else 'svdlr', lay(rng, b), lay(rng, a), flag)
        elif k in (14, 15):
            b = np.stack([rect(rng, n, n) if k == 14 else symreal(rng, n) for _ in range(p)], axis=2)
            v = rect(rng, n, p)
            if k == 14 and rng.rand() < 0.4:
                b = b[:, :, 0]
            elif rng.rand() < 0.2:
                b, v = b[:, :, :1], v[:, :1]
                b = b if rng.rand() < 0.5 else b[:, :, 0]
            if v.shape[1] == 1 and k == 14 and rng.rand() < 0.5:
                v = v[:, 0]
            vform(rec, 'lrvec' if k == 14 else 'svdlrvec', lay(rng, b), lay(rng, v))
        elif k in (16, 17):
            def page():
                m = good(rng, n) if k == 16 and rng.rand() < 0.4 else rand_spd(rng, n)
                return m if k == 16 or rng.rand() < 0.7 else -m
            b = np.stack([page() for _ in range(p)], axis=2)
            v = rect(rng, n, p)
            if k == 16:
                z = rng.rand()
                if z < 0.25:
                    v = v[:, :1]
                    v = v[:, 0] if rng.rand() < 0.5 else v
                elif z < 0.5:
                    b, v = b[:, :, 0], v[:, :1]
                    v = v[:, 0] if rng.rand() < 0.5 else v
            elif rng.rand() < 0.3:
                b = b[:, :, :1]
                b = b[:, :, 0] if rng.rand() < 0.3 else b
            vform(rec, 'div' if k == 16 else 'svddiv', lay(rng, b), lay(rng, v))
        else:
            v = rect(rng, n, p)
            if rng.rand() < 0.06:
                v = [v[:, 0], v[:, :, None]][rng.randint(2)]
            b = np.stack([symreal(rng, n) for _ in range(p)], axis=2)
            if p == 1 and rng.rand() < 0.3:
                b = b[:, :, 0]
            svdrvec(rec, lay(rng, b), lay(rng, v))


# ------------------------------------------------------------------ formulas
PREC = dict(add=1, sub=1, neg=2, mul=3, div=3, pow=4)
FUNS = ('sin', 'cos', 'exp', 'abs', 'sqrt')


def tree(rng, d):
    z = rng.rand()
    if d == 0 or z < 0.2:
        if rng.rand() < 0.6:
            return dict(k='t')
        return dict(k='c', x=float(rng.choice([0., 1., 2., 3., 0.5, 0.25, 1.5, 10., 0.125])))
    if z < 0.65:
        return dict(k=['add', 'sub', 'mul'][rng.randint(3)], a=tree(rng, d - 1), b=tree(rng, d - 1))
    if z < 0.75:
        return dict(k='div', a=tree(rng, d - 1), n=int(rng.choice([2, 3, 4, 5, 8])))
    if z < 0.82:
        return dict(k='pow', a=tree(rng, d - 1), n=int(rng.randint(0, 4)))
    if z < 0.87:
        return dict(k='neg', a=tree(rng, d - 1))
    f = FUNS[rng.randint(5)]
    a = tree(rng, d - 1)
    if f == 'sqrt':
        a = dict(k='add', a=dict(k='mul', a=a, b=a), b=dict(k='c', x=1.))
    return dict(k=f, a=a)


def val(f, t):
    """value; raises when some intermediate value is too great for the specification"""
    k = f['k']
    if k == 't':
        return t
    if k == 'c':
        return f['x']
    a = val(f['a'], t)
    if k in ('add', 'sub', 'mul'):
        b = val(f['b'], t)
        r = a + b if k == 'add' else a - b if k == 'sub' else a * b
    elif k in ('sin', 'cos', 'exp'):
        if abs(a) > 6:
            raise OverflowError
        r = getattr(np, k)(a)
    else:
        r = dict(div=lambda: a / f['n'], pow=lambda: a ** f['n'], neg=lambda: -a, abs=lambda: abs(a), sqrt=lambda: np.sqrt(a))[k]()
    if abs(r) > 1000:
        raise OverflowError
    return r


def num(rng, x):
    if x == int(x) and rng.rand() < 0.6:
        return str(int(x))
    return repr(float(x))


def text(rng, f, ctx=0):
    """the formula written down, sometimes with more blanks or parentheses than needed"""
    k = f['k']
    sp = lambda: ' ' if rng.rand() < 0.2 else ''
    if k == 't':
        s, p = 't', 9
    elif k == 'c':
        s, p = num(rng, f['x']), 9
    elif k in FUNS:
        s, p = k + '(' + sp() + text(rng, f['a']) + sp() + ')', 9
    elif k == 'neg':
        s, p = '-' + text(rng, f['a'], 3), 2
    elif k == 'pow':
        s, p = text(rng, f['a'], 5) + sp() + '**' + sp() + str(f['n']), 4
    elif k == 'div':
        s, p = text(rng, f['a'], 3) + sp() + '/' + sp() + str(f['n']), 3
    else:
        q = PREC[k]
        s = text(rng, f['a'], q) + sp() + dict(add='+', sub='-', mul='*')[k] + sp() + text(rng, f['b'], q + 1)
        p = q
    return '(' + s + ')' if p < ctx or rng.rand() < 0.05 else s


def plain(f):
    """the tree as the specification reads it"""
    g = {k: plain(v) if isinstance(v, dict) else v for k, v in f.items() if k != 'x'}
    if f['k'] == 'c':
        g['v'] = vh.fx(f['x'])
    return g


def usable(m, ts):
    try:
        for row in m:
            for f in row:
                for t in ts:
                    val(f, t)
    except (OverflowError, ZeroDivisionError):
        return False
    return True


def times(rng, ts):
    """the time points in one of the accepted forms"""
    a = np.array(ts)
    k = rng.randint(0, 6)
    if len(ts) == 1 and k < 4:
        t = ts[0]
        return [t, int(t) if t == int(t) else t, np.float64(t), np.array(t)][k]
    if k == 4 and np.all(a == np.round(a)):
        return a.astype(int)
    if k == 5:
        return a.reshape(1, -1) if rng.rand() < 0.5 else a.reshape(-1, 1)
    if k == 0 and len(ts) > 1:
        return list(ts)
    return a


def formula(rec, op, m, ts):
    rng = rec.rng
    t = times(rng, ts)
    if op == 'formula':
        txt = np.array([[text(rng, f) for f in row] for row in m], dtype=object if rng.rand() < 0.2 else None)
        if len(m[0]) == 1 and rng.rand() < 0.5:
            txt = txt[:, 0]
        args, g = (txt, t), MatVector.from_formula_mat
    elif op == 'expr':
        cell = [[text(rng, f) for f in row] for row in m]
        sep = ',' if rng.rand() < 0.5 else ', '
        s = sep.join('[' + sep.join(r) + ']' for r in cell)
        if len(m) == 1 and len(m[0]) == 1 and rng.rand() < 0.5:
            s = cell[0][0]
        elif len(m) == 1 and rng.rand() < 0.5:
            pass
        else:
            s = '[' + s + ']'
        args, g = (s, t), MatVector.from_expression
    else:
        kind = rng.randint(0, 4)

        def fun(x):
            x = float(x)
            r = [[val(f, x) for f in row] for row in m]
            if len(m) == 1 and len(m[0]) == 1 and kind == 0:
                return r[0][0]
            if len(m[0]) == 1 and kind in (1, 2):
                return np.array([z[0] for z in r]) if kind == 1 else [z[0] for z in r]
            r = np.array(r)
            return r.astype(int) if kind == 3 and np.all(r == np.round(r)) else r
        args, g = (fun, t), MatVector.from_func
    kept = Kept(t)
    err, r = call(g, *args)
    o = out(r) if err == '' else dict(o=[], sh=[])
    rec.ev(op=op, empty=False, text=str(args[0])[:300] if op != 'func' else '', f=[[plain(f) for f in row] for row in m], t=[vh.fx(x) for x in ts],
           err=err, o=o['o'], sh=o['sh'], kept=kept())


EVAL = dict(trace=np.trace, sum=np.sum, corner=lambda m: m[0, -1], sq=lambda m: np.sum(m * m))
EVALM = dict(same=lambda m: m, double=lambda m: m * 2, sqm=lambda m: m @ m, transp=lambda m: m.T, shift=lambda m: m + 0.5)


def evalf(rec, a, mode, fun):
    kept = Kept(a)
    f = EVAL[fun] if mode == 'uniform' else EVALM[fun]
    if mode == 'uniform':
        err, r = call(MatVector.eval_func, f, a) if rec.rng.rand() < 0.5 else call(MatVector.eval_func, f, a, True, False)
        o = out(r)
    elif mode == 'keep':
        err, r = call(MatVector.eval_func, f, a, True, True) if rec.rng.rand() < 0.5 else call(MatVector.eval_func, f, a, keep_size=True)
        o = out(r)
    else:
        err, r = call(MatVector.eval_func, f, a, uniform_output=False)
        o = dict(o=[vh.mat(x) for x in r] if err == '' else [], sh=[], q=[])
    rec.ev(op='evalf', a=pages(a), mode=mode, fun=fun, islist=isinstance(r, list), err=err, kept=kept(), **o)


def formulas(rec):
    rng = rec.rng
    for _ in range(rec.count(1100, 40000)):
        z = rng.rand()
        if z < 0.02:
            err, r = call(MatVector.from_expression, '', np.array([1., 2.]))
            rec.ev(op='expr', empty=True, f=[], t=[], err=err, o=[], sh=[], kept=True)
        elif z < 0.75:
            r, c, nt = rng.randint(1, 4), rng.randint(1, 4), [1, 1, 2, 3, 4, 5][rng.randint(6)] if rng.rand() < 0.95 else rng.randint(6, 24)
            for _ in range(20):
                ts = [float(x) for x in (rng.randint(-2, 3, nt) if rng.rand() < 0.3 else np.round(rng.uniform(-2, 2, nt), 3))]
                m = [[tree(rng, rng.randint(0, 4)) for _ in range(c)] for _ in range(r)]
                if usable(m, ts):
                    break
            else:
                continue
            op = ['formula', 'expr', 'func'][rng.randint(3)]
            formula(rec, op, m, ts)
            if nt > 1 and rng.rand() < 0.4:      # the same formulas at other points of the same range
                ts = ts[:1] + [float(x) for x in np.round(rng.uniform(-2, 2, nt - 2), 3)] + ts[-1:] if rng.rand() < 0.6 else ts[::-1]
                if usable(m, ts):
                    formula(rec, op, m, ts)
        else:
            mode = ['uniform', 'keep', 'list'][rng.randint(3)]
            n, p = rng.randint(1, 4), rng.randint(1, 5) if rng.rand() < 0.93 else rng.randint(5, 16)
            fun = [list(EVAL), list(EVALM), list(EVALM)][['uniform', 'keep', 'list'].index(mode)]
            fun = fun[rng.randint(len(fun))]
            sq = fun in ('trace', 'sqm', 'transp')
            evalf(rec, lay(rng, rect(rng, n, n if sq else rng.randint(1, 4), None if rng.rand() < 0.3 else p)), mode, fun)


# ------------------------------------------------------------------ replay
def arr(ps):
    return np.stack([np.array([[unfx(x) for x in r] for r in m]) for m in ps], axis=2)


def untree(f):
    g = {k: untree(v) if isinstance(v, dict) else v for k, v in f.items() if k != 'v'}
    if f['k'] == 'c':
        g['x'] = unfx(f['v'])
    return g


def replay(rec):
    rng = rec.rng
    for k, c in enumerate(rec.cases):
        if k % rec.nshards != rec.shard:
            continue
        if c['op'] == 'stack':
            a, b = arr(c['a']), arr(c['b'])
            one = a.shape[2] == 1
            for op in ('triu', 'symm', 'transp', 'posnan'):
                if op != 'posnan' or np.array_equal(a, a.transpose(1, 0, 2)):
                    unary(rec, op, a)
            rmul(rec, a, b, None, bool(k % 2))
            rmul(rec, a, b, a, bool(k % 2))
            rmul(rec, a, b[:, :, 0], None, bool(k % 2))
            lr(rec, 'lr', b, a, 'RL'[k % 2])
            lr(rec, 'lr', b, a[:, :, 0], 'RL'[k % 2])
            v = b[:, 0, :]
            rmulvec(rec, a, v, bool(k % 2))
            vform(rec, 'lrvec', a, v)
            if np.array_equal(a, a.transpose(1, 0, 2)):
                poseig(rec, a, [None, 0.5][k % 2])
                svdrvec(rec, a, v)
                vform(rec, 'svdlrvec', a, v)
                lr(rec, 'svdlr', a, b, 'RL'[k % 2])
            if all(abs(np.linalg.det(a[:, :, i])) > 0.1 for i in range(a.shape[2])):
                unary(rec, 'inv', a[:, :, 0] if one and k % 2 else a)
                vform(rec, 'div', a, v)
        else:
            m, ts = [[untree(f) for f in row] for row in c['f']], [unfx(x) for x in c['t']]
            if usable(m, ts):
                for op in ('formula', 'expr', 'func'):
                    formula(rec, op, m, ts)
