"""Ellipsoidal calculus: random ellipsoids, arrays and directions through the public interface."""
import itertools
import numpy as np
from vh import (fx, vec, mat, cols, shape, ints, call, rand_spd, rand_psd, rand_vec, rand_dir, rand_orth, layout, dec)
from drv_lib import unfx
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.conf.properties.Properties import Properties
from ellipy.gras.geom.ell.ell import rho_mat, ell_volume


def E(c, q, tol=None, **k):
    if tol is not None:
        k['abs_tol'] = float(tol)
    return Ellipsoid(np.asarray(c, dtype=float), np.asarray(q, dtype=float), **k)


def rec_ell(e):
    try:
        c, q = e.double()
        return dict(c=vec(c), q=mat(q) if np.size(q) else [])
    except Exception:
        return dict(c=[[4]], q=[[[4]]])


def snap(arr):
    return [(e.get_center_vec().tobytes(), e.get_shape_mat().tobytes(), e.get_shape_mat().shape) for e in np.ravel(np.array(arr))]


def flat(arr):
    return list(np.ravel(np.array(arr)))


def arr_of(rng, ells, shapes=None):
    """the ellipsoids as a list / 1-d / n-d object array"""
    n = len(ells)
    a = np.empty(n, dtype=object)
    for i in range(n):
        a[i] = ells[i]
    opts = [(n,), (1, n), (n, 1)]
    for p in range(2, n):
        if n % p == 0:
            opts += [(p, n // p), (1, p, n // p), (p, n // p, 1)]
    sh = opts[rng.randint(len(opts))] if shapes is None else shapes[rng.randint(len(shapes))]
    k = rng.randint(4)
    if k == 0 and sh == (n,):
        return list(ells)
    a = a.reshape(sh)
    if k == 1:
        a = np.asfortranarray(a)
    return a


def eshape(a):
    return list(np.array(a).shape)


def verbose(rng):
    Properties.set_is_verbose(bool(rng.rand() < 0.2))


def dim(rng, lo, hi, top):
    """a dimension lo..hi - 1, sometimes up to top"""
    return rng.randint(lo, hi) if rng.rand() < 0.9 else rng.randint(hi, top + 1)


def rand_q(rng, n, flat_p=0.25, full_only=False):
    k = rng.rand()
    if n > 5 and (full_only or k >= flat_p):   # dense, away from the resolution of the arithmetic
        return blocks(rng, n, False) if k > 0.7 else rand_spd(rng, n, 0.8, 2.5, False)
    if not full_only and k < flat_p:
        return rand_psd(rng, n, rng.randint(0, n) if rng.rand() < 0.3 else max(0, n - 1))
    q = rand_spd(rng, n)
    if k > 0.9 and np.max(np.abs(q)) < 5:
        return dec(q * rng.choice([0.01, 30.0]), 5)
    return q


def blocks(rng, n, flat=None):
    """a high-dimensional matrix of small blocks, with shuffled coordinates"""
    q, i = np.zeros((n, n)), 0
    some = rng.rand() < 0.3 if flat is None else flat
    while i < n:
        k = min(n - i, rng.randint(1, 4))
        q[i:i + k, i:i + k] = rand_psd(rng, k, k - 1) if some and rng.rand() < 0.4 else rand_spd(rng, k) if flat is not False \
            else rand_spd(rng, k, 0.8, 2.5, False)
        i += k
    p = rng.permutation(n)
    return q[p][:, p]


def scaled_dir(rng, n):
    return rand_dir(rng, n) * rng.choice([1.0, 1.0, 1.0, 0.1, 12.0])


def null_dir(rng, q):
    """an exactly flat direction of an integer (or diagonal) matrix, if there is a simple one"""
    n = q.shape[0]
    cand = [np.array(v, dtype=float) for v in itertools.product((-2, -1, 0, 1, 2), repeat=min(n, 4)) if any(v)]
    rng.shuffle(cand)
    for v in cand[:200]:
        if n > 4:
            v = np.concatenate((v, np.zeros(n - 4)))
        if not np.any(q @ v):
            return v
    return None


# ------------------------------------------------------------------ support
def ev_rho(rec, ells, D, es, err, r, kept):
    n = D.shape[0]
    s, x = r if err == '' else (np.zeros(0), np.zeros((n, 0)))
    rec.ev(op='rho', ells=[rec_ell(e) for e in ells], dirs=cols(D.reshape(n, -1)), eshape=es, dshape=shape(D),
           sup=vec(s), supshape=shape(s), bp=cols(np.reshape(x, (n, -1))) if np.size(x) % n == 0 else [],
           bpshape=shape(x), err=err, kept=bool(kept))


def rho(rec):
    rng = rec.rng
    for t in range(rec.count(700, 20000)):
        n = dim(rng, 1, 6, 8)
        mode = rng.randint(6)
        verbose(rng)
        ell = lambda: E(rand_vec(rng, n), rand_q(rng, n), 10.0 ** -rng.randint(4, 10))
        bare = False
        if mode in (0, 1, 2):
            ells = [ell()]
            k = rng.randint(1, 7)
            d = [scaled_dir(rng, n) for _ in range(k)]
            nd = null_dir(rng, ells[0].get_shape_mat())
            if nd is not None and rng.rand() < 0.7:
                d[rng.randint(k)] = nd
            if rng.rand() < 0.1:
                d[rng.randint(k)] = np.zeros(n)
            D = np.array(d).T
            if mode == 2 and k in (4, 6):
                D = D.reshape((n, 2, k // 2))
            elif mode == 2 and k > 1:
                D = D.reshape((n, 1, k) if rng.rand() < 0.5 else (n, k, 1))
            arr = [ells[0], [ells[0]], arr_of(rng, ells)][rng.randint(3)]
            bare = mode == 1
        elif mode == 3:
            ells = [ell() for _ in range(rng.randint(2, 7))]
            D = scaled_dir(rng, n).reshape(n, 1)
            arr = arr_of(rng, ells)
        elif mode == 4:
            k = rng.randint(2, 7)
            ells = [ell() for _ in range(k)]
            D = np.array([scaled_dir(rng, n) for _ in range(k)]).T
            arr = arr_of(rng, ells, [(k,), (1, k), (k, 1)])
        else:
            sh = [(2, 2), (2, 3), (3, 2), (1, 2, 2), (2, 1, 3)][rng.randint(5)]
            k = int(np.prod(sh))
            ells = [ell() for _ in range(k)]
            arr = arr_of(rng, ells, [sh])
            D = np.array([scaled_dir(rng, n) for _ in range(k)]).T.reshape((n,) + sh)
        D = layout(rng, D)
        keep, d0 = snap(ells), D.copy()
        if bare and D.ndim == 2:
            # the matrix form of the same operation
            c, q = ells[0].double()
            kw = [dict(), dict(abs_tol=1e-7)][rng.randint(2)]
            if rng.rand() < 0.3:
                err, r = call(rho_mat, q, D, **kw)
                ells = [E(np.zeros(n), q)]
            else:
                err, r = call(rho_mat, q, D, ell_center_vec=c.reshape(-1, 1), **kw)
            keep = snap(ells)
            es = []
        else:
            es = eshape(arr)
            err, r = call(Ellipsoid.rho, arr, D)
        ev_rho(rec, ells, D, es, err, r, snap(ells) == keep and np.array_equal(D, d0))
    for t in range(rec.count(60, 600)):   # mismatching arguments
        n = rng.randint(2, 5)
        ells = [E(rand_vec(rng, n), rand_q(rng, n)) for _ in range(rng.randint(1, 4))]
        k = rng.randint(3)
        if k == 0:
            D = rng.randn(n + rng.choice([-1, 1]), rng.randint(1, 3) if len(ells) == 1 else 1)
        elif k == 1:
            ells = ells + [E(rand_vec(rng, n + 1), rand_q(rng, n + 1))]
            D = rng.randn(n, 1)
        else:
            while len(ells) < 2:
                ells.append(ells[0])
            D = rng.randn(n, len(ells) + rng.randint(1, 3))
        err, r = call(Ellipsoid.rho, arr_of(rng, ells, [(len(ells),)]), D)
        rec.ev(op='refuse', what='support with mismatching sizes', err=err, refused=err.startswith('lib:'))
    Properties.set_is_verbose(False)


# ----------------------------------------------------------- Minkowski sums
def sum_fun(kind):
    return Ellipsoid.minksum_ea if kind == 'ext' else Ellipsoid.minksum_ia


def clear_dir(kind, ells, d):
    """every summand is clearly extended along d, or exactly flat where that is allowed"""
    qs = [float(d @ e.get_shape_mat() @ d) for e in ells]
    return min(qs) > 1e-3 * (d @ d) or (kind == 'ext' and min(qs) == 0.0) or \
        (kind == 'int' and qs[0] > 1e-3 * (d @ d) and all(v == 0 or v > 1e-3 for v in qs))


def do_mink(rec, kind, ells, tols, arr, D, tests, again):
    fun, n = sum_fun(kind), D.shape[0]
    keep, d0 = snap(ells), D.copy()
    err, r = call(fun, arr, D)
    res = flat(r) if err == '' else []
    # mutating a result must not reach the operands or later results
    err2 = ''
    if err == '' and res and again:
        call(Ellipsoid.projection, [res[0]], np.eye(n)[:, :1])
        err2, r = call(fun, arr, D)
        res = flat(r) if err2 == '' else []
    rec.ev(op='mink', kind=kind, ells=[rec_ell(e) for e in ells], tols=vec(tols),
           dirs=cols(np.reshape(D, (n, -1))), tests=[vec(v) for v in tests],
           res=[rec_ell(e) for e in res], err=err + err2,
           kept=bool(snap(ells) == keep and np.array_equal(D, d0)))


def _mink(rec, kind):
    rng = rec.rng
    fun = sum_fun(kind)
    for t in range(rec.count(200, 6000)):
        n = dim(rng, 1, 5, 8)
        m = [1, 2, 2, 2, 3, 3, 4, 5, 7][rng.randint(9)]
        verbose(rng)
        flatp = 0.0 if rng.rand() < 0.6 else 0.5
        ells, tols = [], []
        for j in range(m):
            full = rng.rand() >= flatp or n == 1
            # an internal sum needs a non-trivial first projection along the direction
            q = rand_q(rng, n, 0.0, True) if full else rand_psd(rng, n, rng.randint(1, n))
            tol = 10.0 ** -rng.randint(2, 9)
            if full:
                tol = min(tol, 1e-4)
            ells.append(E(rand_vec(rng, n), q, tol))
            tols.append(tol)
        if rng.rand() < 0.2:          # the same object, or an equal one, is a summand twice
            j = rng.randint(m)
            c, q = ells[j].double()
            i = rng.randint(m + 1)
            ells.insert(i, ells[j] if rng.rand() < 0.6 else E(c, q, tols[j]))
            tols.insert(i, tols[j])
            m += 1
        k = rng.randint(1, 5)
        dirs = []
        while len(dirs) < k:
            d = scaled_dir(rng, n)
            if clear_dir(kind, ells, d):
                dirs.append(d)
        D = layout(rng, np.array(dirs).T)
        arr = arr_of(rng, ells)
        if kind == 'ext' and k == 1 and rng.rand() < 0.5:
            D = D.reshape(-1)
        tests = [scaled_dir(rng, n) for _ in range(4)] + [np.eye(n)[rng.randint(n)] for _ in range(2)]
        do_mink(rec, kind, ells, tols, arr, D, tests, rng.rand() < 0.3)
    for t in range(rec.count(40, 400)):
        n = rng.randint(2, 4)
        ells = [E(rand_vec(rng, n), rand_spd(rng, n)) for _ in range(rng.randint(1, 4))]
        D = rng.randn(n, 2)
        k = rng.randint(4)
        if k == 0:
            ells, what = [], 'no summands'
        elif k == 1:
            D, what = rng.randn(n + 1, 2), 'direction of another dimension'
        elif k == 2:
            ells, what = ells + [E(rand_vec(rng, n + 1), rand_spd(rng, n + 1))], 'summands of different dimensions'
        else:
            ells, what = ells + [Ellipsoid()], 'an empty summand'
        rng.shuffle(ells)
        err, r = call(fun, ells, D)
        rec.ev(op='refuse', what='sum: ' + what, err=err, refused=err.startswith('lib:'))
    Properties.set_is_verbose(False)


def mink_ext(rec):
    _mink(rec, 'ext')


def mink_int(rec):
    _mink(rec, 'int')


# --------------------------------------------------------------- membership
def do_internal(rec, ells, tols, arr, P, mode, passed):
    keep, p0 = snap(ells), P.copy()
    err, r = call(Ellipsoid.is_internal, arr, P, passed)
    rec.ev(op='internal', ells=[rec_ell(e) for e in ells], tols=vec(tols), points=cols(P), mode=mode,
           res=[bool(v) for v in np.ravel(r)] if err == '' else [], err=err,
           kept=bool(snap(ells) == keep and np.array_equal(P, p0)))


def internal(rec):
    rng = rec.rng
    for t in range(rec.count(500, 15000)):
        n = dim(rng, 1, 5, 7)
        m = [1, 1, 2, 2, 3, 4, 7][rng.randint(7)]
        verbose(rng)
        ells, tols, pts = [], [], []
        base = rand_vec(rng, n)
        for j in range(m):
            fl = rng.rand() < 0.2 and 1 < n < 5
            tol = 10.0 ** -rng.randint(2, 8)
            q = rand_psd(rng, n, rng.randint(1, n)) if fl else rand_q(rng, n, 0.0, True)
            if fl:
                if np.any(q != np.diag(np.diag(q))):
                    tol = 1e-8 if rng.rand() < 0.5 else 1e-7
                elif q.any():
                    tol = min(tol, 0.05 * float(np.min(np.diag(q)[np.diag(q) > 0])))
            else:
                tol = min(tol, 0.05 * float(np.min(np.linalg.eigvalsh(q))))
            c = base + 0.7 * rand_vec(rng, n)
            ells.append(E(dec(c, 3), q, tol))
            tols.append(tol)
        for p in range(rng.randint(1, 7)):
            e = ells[rng.randint(m)]
            c, q = e.double()
            tol = tols[ells.index(e)]
            w, v = np.linalg.eigh(q)
            s = v @ np.diag(np.sqrt(np.maximum(w, 0))) @ v.T
            u = rng.randn(n)
            u /= np.linalg.norm(u)
            r = [0.0, rng.uniform(0, 0.95), 1.0, 1 - 0.6 * tol, 1 + 0.3 * tol, 1 + 0.8 * tol, 1 + 1.6 * tol, 1 + 4 * tol, rng.uniform(1.05, 2)][rng.randint(9)]
            x = c + r * (s @ u)
            if rng.rand() < 0.1:
                x = rand_vec(rng, n) * 2
            if rng.rand() < 0.1:
                x = c + rand_dir(rng, n)
            pts.append(x)
        P = np.array(pts).T
        if rng.rand() < 0.3:
            P = layout(rng, P)
        arr = arr_of(rng, ells)
        if m == 1 and rng.rand() < 0.4:
            arr = ells[0]
        mode = ['u', 'i'][rng.randint(2)]
        passed = mode if not (mode == 'u' and rng.rand() < 0.2) else 5
        do_internal(rec, ells, tols, arr, P, mode, passed)
    for t in range(rec.count(40, 400)):
        n = rng.randint(2, 4)
        ells = [E(rand_vec(rng, n), rand_spd(rng, n)) for _ in range(rng.randint(1, 4))]
        P, mode = rng.randn(n, 2), 'u'
        k = rng.randint(5)
        if k == 0:
            ells, what = [], 'no ellipsoids'
        elif k == 1:
            P, what = rng.randn(n + 1, 2), 'points of another dimension'
        elif k == 2:
            ells, what = ells + [E(rand_vec(rng, n + 1), rand_spd(rng, n + 1))], 'ellipsoids of different dimensions'
        elif k == 3:
            ells, what = ells + [Ellipsoid()], 'an empty ellipsoid'
        else:
            mode, what = ['x', 'U', '', 'ui'][rng.randint(4)], 'unknown mode'
        err, r = call(Ellipsoid.is_internal, np.array(ells, dtype=object), P, mode)
        rec.ev(op='refuse', what='membership: ' + what, err=err, refused=err.startswith('lib:'))
    Properties.set_is_verbose(False)


# ---------------------------------------------------------------- inclusion
def do_bigger(rec, e1, e2, tol, how):
    keep = snap([e1, e2])
    second = [e2, [e2], np.array([e2], dtype=object)][how]
    err, r = call(e1.is_bigger, second)
    rec.ev(op='bigger', first=rec_ell(e1), second=rec_ell(e2), tol=fx(tol), res=bool(r), err=err,
           kept=bool(snap([e1, e2]) == keep))


def bigger(rec):
    rng = rec.rng
    for t in range(rec.count(700, 20000)):
        n = dim(rng, 1, 5, 6)
        verbose(rng)
        k = rng.randint(9)
        q2 = rand_q(rng, n, 0.0, True)
        tol = 10.0 ** -rng.randint(3, 8)
        if k == 0:
            q1 = q2.copy()
        elif k == 1:
            q1 = dec(q2 + rand_spd(rng, n, 0.05, 0.5), 5)
        elif k == 2:
            q1 = dec(q2 * rng.choice([1.5, 1.1, 0.9, 0.6]), 6)
        elif k == 3:
            d = rng.randn(n)
            q1 = q2 + np.outer(d, d) * rng.choice([0.5, 0.1]) - 0.03 * np.eye(n)
            q1 = dec(0.5 * (q1 + q1.T), 5)
        elif k == 4:
            q1 = rand_q(rng, n, 0.0, True)
        elif k == 5:   # second one flat
            q1, q2 = q2, rand_psd(rng, n, rng.randint(0, n))
            q2 = q2 * rng.choice([0.1, 1.0])
        elif k == 6:   # first one flat, second one of any rank
            r = rng.randint(1, n) if n > 1 else 1
            a = rng.randint(-2, 3, (n, r)).astype(float)
            q1 = a @ a.T
            if n == 1:
                q1 = q2.copy()
            s = rng.randint(3)
            if s == 0:
                b = a @ np.diag(rng.choice([0.5, 0.25], r))
                q2 = b @ b.T
            elif s == 1:
                b = a @ rng.randint(-1, 2, (r, r)) + 0.0
                q2 = b @ b.T * 0.25
            else:
                q2 = rand_psd(rng, n, min(n, max(1, r)))
        elif k == 8 and n > 1:   # the second one sticks a little out of the flat first one
            r = rng.randint(1, n)
            q1 = np.diag(np.concatenate((rng.choice([1.0, 2.0], r), np.zeros(n - r))))
            v = np.concatenate((rng.uniform(-0.5, 0.5, r), np.zeros(n - r)))
            v[r] = rng.choice([0.005, 0.01, 0.03])
            p = rng.permutation(n)
            q1, q2 = q1[p][:, p], np.outer(v, v)[p][:, p]
            if rng.rand() < 0.5:
                u = rand_orth(rng, n)
                q1, q2 = u @ q1 @ u.T, u @ q2 @ u.T
                q1, q2 = 0.5 * (q1 + q1.T), 0.5 * (q2 + q2.T)
            tol = 10.0 ** -rng.randint(7, 9)
        else:          # flat on the axes
            d1 = rng.choice([0.0, 1.0, 2.0], n)
            d2 = d1 * rng.choice([0.25, 1.0, 0.5], n)
            if rng.rand() < 0.4:
                d2[rng.randint(n)] = rng.choice([0.0, 0.5, 3.0])
            q1, q2 = np.diag(d1), np.diag(d2)
        if np.linalg.eigvalsh(q1)[0] < -1e-12:
            continue
        e = np.linalg.eigvalsh(q1)
        small = e[e > 1e-9]
        if small.size:
            tol = min(tol, 0.02 * float(small[0]))
        e1 = E(rand_vec(rng, n), q1, tol)
        e2 = E(rand_vec(rng, n), q2, 10.0 ** -rng.randint(4, 8) if rng.rand() < 0.5 else tol)
        do_bigger(rec, e1, e2, tol, rng.randint(3))
    for t in range(rec.count(24, 200)):
        n = rng.randint(1, 5)
        e1, e2 = E(np.zeros(n), rand_spd(rng, n)), E(np.zeros(n + 1), rand_spd(rng, n + 1))
        if rng.rand() < 0.5:
            e1, e2 = e2, e1
        err, r = call(e1.is_bigger, e2)
        rec.ev(op='refuse', what='inclusion: different dimensions', err=err, refused=err.startswith('lib:'))
    Properties.set_is_verbose(False)


# -------------------------------------------------------------------- polar
def ev_polar(rec, ells, es, rs, err, r, kept):
    rec.ev(op='polar', ells=[rec_ell(e) for e in ells], eshape=es, res=[rec_ell(e) for e in flat(r)] if err == '' else [],
           rshape=rs, err=err, kept=bool(kept))


def polar(rec):
    rng = rec.rng
    for t in range(rec.count(400, 12000)):
        n = dim(rng, 1, 5, 8)
        m = [1, 1, 1, 2, 3, 4, 7][rng.randint(7)]
        ells = []
        for j in range(m):
            k = rng.rand()
            q = rand_q(rng, n, 0.0, True) if k < 0.9 or n > 4 else dec(rand_spd(rng, n) * rng.choice([0.05, 20.0]), 4)
            if k < 0.05 and n > 1:
                q = rand_psd(rng, n, rng.randint(0, n))
            w, v = np.linalg.eigh(q)
            s = v @ np.diag(np.sqrt(np.maximum(w, 0))) @ v.T
            u = rng.randn(n)
            u /= np.linalg.norm(u)
            r = [0.0, 0.3, 0.6, 0.85][rng.randint(4)] if rng.rand() < 0.93 else rng.choice([1.05, 1.4, 3.0])
            ells.append(E(dec(r * (s @ u), 4), q, rng.choice([1e-6, 1e-5, 1e-8])))
        keep = snap(ells)
        k = rng.randint(3)
        if k == 2 and m == 1 and float(np.min(np.linalg.eigvalsh(ells[0].get_shape_mat()))) > 1e-3:
            err, r = call(ells[0]._get_scalar_polar_internal, bool(rng.rand() < 0.4))
            es, rs = [], []
        else:
            arr = arr_of(rng, ells)
            es = eshape(arr)
            err, r = call(Ellipsoid.polar, arr)
            rs = shape(r) if err == '' else []
        ev_polar(rec, ells, es, rs, err, r, snap(ells) == keep)


# --------------------------------------------------------------- projection
def do_proj(rec, ells, arr, B, inplace, touch):
    before = [rec_ell(e) for e in ells]
    es = eshape(arr)
    b0 = B.copy()
    err, r = call(Ellipsoid.projection if inplace else Ellipsoid.get_projection, arr, B)
    res = flat(r) if err == '' else []
    out = [rec_ell(e) for e in res]
    dims = ints(Ellipsoid.dimension(res)) if err == '' else []
    if err == '' and not inplace and touch:   # the copies are independent of the operands
        call(Ellipsoid.projection, res, np.eye(B.shape[1])[:, :1])
    rec.ev(op='proj', ells=before, basis=cols(B), inplace=inplace, after=[rec_ell(e) for e in ells],
           res=out, rshape=shape(r) if err == '' else [], eshape=es, rdim=dims, err=err,
           kept=bool(np.array_equal(B, b0)))


def proj(rec):
    rng = rec.rng
    for t in range(rec.count(500, 15000)):
        n = dim(rng, 1, 6, 10)
        m = [1, 1, 2, 3, 4, 6, 9][rng.randint(7)]
        tol = 10.0 ** -rng.randint(3, 8)
        ells = [E(rand_vec(rng, n), rand_q(rng, n), tol if rng.rand() < 0.5 else 1e-6) for _ in range(m)]
        nb = rng.randint(1, n + 1)
        k = rng.randint(7)
        if k == 0:
            B = np.eye(n)[:, rng.permutation(n)[:nb]] * rng.choice([1.0, -1.0, 3.0], nb)
        elif k == 1 and n >= 2:
            a, b = rng.randint(1, 4, 2)
            B = np.eye(n)
            i, j = rng.permutation(n)[:2]
            B[i, i], B[j, i], B[i, j], B[j, j] = a, b, -b, a
            B = B[:, rng.permutation(n)[:nb]]
        elif k == 2 and n >= 2:   # clearly skew
            B = rng.randint(-2, 3, (n, max(2, nb))).astype(float)
            B = B[:, :n]
            G = B.T @ B
            if np.any(np.diag(G) == 0) or not np.any(np.abs(G - np.diag(np.diag(G))) > 0.5):
                B = np.eye(n)[:, :2].copy()
                B[0, 1] = rng.choice([-0.5, 0.5])
        elif k == 3 and rng.rand() < 0.4:   # unsuitable sizes
            B = rng.randn(n, n + 1) if rng.rand() < 0.5 else np.eye(n + 1)[:, :1]
        else:
            B = rand_orth(rng, n)[:, :nb] * rng.choice([1.0, 0.5, 4.0, 1.002, 0.996], nb)
        B = layout(rng, B)
        if rng.rand() < 0.06:      # one of them has another dimension
            ells.insert(rng.randint(m + 1), E(rand_vec(rng, n + 1), rand_spd(rng, n + 1)))
        do_proj(rec, ells, arr_of(rng, ells), B, bool(rng.rand() < 0.5), rng.rand() < 0.5)


# --------------------------------------------------------------- reflection
def do_neg(rec, ells, arr, touch):
    keep = snap(ells)
    if arr is None:
        err, r = call(lambda: -ells[0])
        es, rs = [], []
    else:
        es = eshape(arr)
        err, r = call(Ellipsoid.uminus, arr)
        rs = shape(r)
    out = [rec_ell(e) for e in flat(r)] if err == '' else []
    kept = snap(ells) == keep
    if err == '' and touch and ells:
        call(Ellipsoid.projection, flat(r), np.eye(len(ells[0].get_center_vec()))[:, :1])
        kept = kept and snap(ells) == keep
    rec.ev(op='neg', ells=[rec_ell(e) for e in ells], eshape=es, res=out, rshape=rs, err=err, kept=bool(kept))


def neg(rec):
    rng = rec.rng
    for t in range(rec.count(300, 6000)):
        n = dim(rng, 1, 6, 10)
        m = [1, 1, 2, 3, 4, 6, 12, 0][rng.randint(8)]
        ells = [E(rand_vec(rng, n), rand_q(rng, n)) for _ in range(m)]
        arr = None if m == 1 and rng.rand() < 0.5 else arr_of(rng, ells) if m else np.empty([(0,), (0, 2), (1, 0)][rng.randint(3)], dtype=object)
        do_neg(rec, ells, arr, rng.rand() < 0.3)


# ---------------------------------------------------------- characteristics
def do_chars(rec, ells, tols, arr):
    m = len(ells)
    keep = snap(ells)

    def all_of():
        d1 = Ellipsoid.dimension(arr)
        d, r = Ellipsoid.dimension(arr, return_rank=True)
        dg = Ellipsoid.is_degenerate(arr)
        em = Ellipsoid.is_empty(arr)
        return d1, d, r, dg, em, Ellipsoid.trace(arr), Ellipsoid.min_eig(arr), Ellipsoid.max_eig(arr), Ellipsoid.volume(arr)
    err, r = call(all_of)
    ch, shs = [], []
    if err == '' and all(np.size(v) == m for v in r):
        d1, d, rk, dg, em, tr, mn, mx, vo = [np.ravel(v) for v in r]
        for j in range(m):
            ch.append(dict(dim=int(d[j]) if d[j] == d1[j] else -1, rank=int(rk[j]), deg=bool(dg[j]), empty=bool(em[j]),
                           trace=fx(tr[j]), mineig=fx(mn[j]), maxeig=fx(mx[j]), vol=fx(vo[j]),
                           vol2=fx(ell_volume(ells[j].get_shape_mat()))))
        shs = [shape(r[1]), shape(r[2]), shape(r[3]), shape(r[4])]
    rec.ev(op='chars', ells=[rec_ell(e) for e in ells], tols=vec(tols), ch=ch, shapes=shs, eshape=eshape(arr),
           err=err, kept=bool(snap(ells) == keep))


def chars(rec):
    rng = rec.rng
    for t in range(rec.count(320, 8000)):
        m = [1, 1, 2, 3, 4, 6][rng.randint(6)]
        ells, tols = [], []
        for j in range(m):
            n = rng.randint(1, 6) if rng.rand() < 0.85 else rng.randint(6, 9)
            k = rng.randint(6)
            q = rand_q(rng, n, 0.35) if n < 6 else blocks(rng, n)
            tol = 10.0 ** -rng.randint(4, 8)
            if k == 0 and np.linalg.eigvalsh(q)[0] > 0.19:      # a wide tolerance makes it count as degenerate
                tol = float(np.linalg.eigvalsh(q)[0]) * rng.choice([4.0, 0.3])
            elif k == 1:
                d = np.full(n, 1.0)
                d[rng.randint(n)] = tol * rng.choice([0.2, 5.0])
                q = np.diag(d)
                if n == 1:
                    q = q + 1
            ells.append(E(rand_vec(rng, n), q, tol))
            tols.append(tol)
        arr = arr_of(rng, ells)
        if m == 1 and rng.rand() < 0.3:
            arr = ells[0]
        do_chars(rec, ells, tols, arr)
    for t in range(rec.count(24, 200)):
        m = rng.randint(1, 4)
        ells = [E(rand_vec(rng, n), rand_spd(rng, n)) for n in rng.randint(1, 4, m)] + [Ellipsoid()]
        rng.shuffle(ells)
        exp = [0 if e.get_center_vec().size == 0 else int(e.get_center_vec().size) for e in ells]
        arr = arr_of(rng, ells)
        err, d = call(Ellipsoid.dimension, arr)
        err3, dr = call(Ellipsoid.dimension, arr, True)
        nil = np.empty([(0,), (0, 2), (1, 0)][rng.randint(3)], dtype=object)
        err4, dn = call(lambda: [Ellipsoid.dimension(nil)] + list(Ellipsoid.dimension(nil, True)) + [Ellipsoid.is_empty(nil)])
        ref = [call(f, ells)[0] for f in (Ellipsoid.volume, Ellipsoid.trace, Ellipsoid.min_eig, Ellipsoid.max_eig, Ellipsoid.is_degenerate)]
        err2, em = call(Ellipsoid.is_empty, ells)
        rec.ev(op='emptychars', dims=ints(d) if err == '' else [], expdims=exp, refused=ref,
               rdims=ints(dr[0]) if err3 == '' else [], ranks=ints(dr[1]) if err3 == '' else [],
               rshapes=[shape(v) for v in dr] if err3 == '' else [], eshape=eshape(arr),
               nil=list(nil.shape), nils=[shape(v) for v in dn] if err4 == '' else [],
               empty=[bool(v) for v in np.ravel(em)] if err2 == '' else [], err=err)


# ----------------------------------------------------------------- boundary
def ev_boundary(rec, e, n, num, den, pts, f, fl, err, kept):
    if np.ndim(pts) != 2:
        pts = np.zeros((0, n))
    pick = rec.rng.permutation(len(pts))[:24]
    uniq = len({tuple(np.round(p, 9)) for p in pts})
    rec.ev(op='boundary', dim=n, num=num, den=den, count=len(pts), distinct=bool(fl or uniq == len(pts)),
           pts=[vec(pts[i]) for i in pick], grid=np.asarray(f).astype(int).tolist() if f is not None else [],
           ell=rec_ell(e), err=err, kept=bool(kept))


def ev_rhoboundary(rec, e, n, num, den, r, err, kept):
    b, f, s, l = r if err == '' else (np.zeros((0, n)), None, np.zeros(0), np.zeros((0, n)))
    k = min(len(b), len(l), np.size(s))
    pick = rec.rng.permutation(k)[:16]
    sv = np.ravel(s)
    rec.ev(op='rhoboundary', dim=n, num=num, den=den, count=len(b), scount=int(np.size(s)), lcount=len(l),
           closed=bool(k and np.allclose(b[0], b[-1], atol=1e-9) and np.allclose(l[0], l[-1], atol=1e-12)
                       and abs(sv[0] - sv[-1]) < 1e-9),
           dirs=[vec(l[i]) for i in pick], sup=[fx(sv[i]) for i in pick], pts=[vec(b[i]) for i in pick],
           grid=np.asarray(f).astype(int).tolist() if f is not None else [], ell=rec_ell(e), err=err,
           kept=bool(kept))


def boundary(rec):
    rng = rec.rng
    for t in range(rec.count(400, 6000)):
        n = [2, 2, 2, 3, 3, 3][rng.randint(6)] if t % 12 else [1, 4][rng.randint(2)]
        fl = rng.rand() < 0.2
        q = rand_psd(rng, n, rng.randint(1, n)) if fl and n > 1 else rand_spd(rng, n)
        n2, n3 = int(rng.choice([3, 7, 12, 30, 200])), int(rng.choice([2, 20, 42, 43, 57, 85, 93, 163]))
        num, den = [(1, 1), (1, 2), (3, 2), (2, 1), (5, 4), (3, 4), (7, 4)][rng.randint(7)]
        how = rng.randint(4)
        if n == 3 and rng.rand() < 0.3:
            # the number of points between two partitions of the sphere when rounded up, not when rounded down
            n3, (num, den) = [(57, (3, 4)), (93, (7, 4))][rng.randint(2)]
        e = E(rand_vec(rng, n), q, n_plot_2d_points=n2, n_plot_3d_points=n3)
        keep = snap([e])
        nprop = n2 if n == 2 else n3
        if (nprop * num) // den < 1:
            num, den = 1, 1
        arg, grid = None, bool(rng.rand() < 0.6)
        if how == 0:
            num = den = 1
        elif how == 1:
            nprop = int(rng.choice([1, 2, 3, 5, 11, 40, 42, 43, 60]))
            num = den = 1
            arg = nprop
        elif how == 2:
            arg = num / den if num % den or rng.rand() < 0.5 else num // den
        else:
            o = rng.choice([0.5, 3.0])
            arg = [num / den, o] if n == 2 else [o, num / den]
            if rng.rand() < 0.5:
                arg = np.array(arg)
        if rng.rand() < 0.6:
            if how == 0:
                err, r = call(e.get_boundary, return_grid=grid) if rng.rand() < 0.5 else call(e.get_boundary_by_factor, return_grid=grid)
            elif how == 1:
                err, r = call(e.get_boundary, arg, grid)
            else:
                err, r = call(e.get_boundary_by_factor, arg, grid)
            pts, f = (r if grid else (r, None)) if err == '' else (np.zeros((0, max(n, 1))), None)
            ev_boundary(rec, e, n, nprop * num, den, pts, f, fl, err, snap([e]) == keep)
        else:
            if how == 0:
                err, r = call(e.get_rho_boundary) if rng.rand() < 0.5 else call(e.get_rho_boundary_by_factor)
            elif how == 1:
                err, r = call(e.get_rho_boundary, arg)
            else:
                err, r = call(e.get_rho_boundary_by_factor, arg)
            ev_rhoboundary(rec, e, n, nprop * num, den, r, err, snap([e]) == keep)


# ----------------------------------------------------- cases of the specification
def replay(rec):
    """every case of MC_EllCalc through the public interface"""
    rng = rec.rng
    Properties.init()
    V = lambda v: np.array([unfx(x) for x in v])
    M = lambda q: np.array([[unfx(x) for x in r] for r in q])
    L = lambda d, tol, **k: E(V(d['c']), M(d['q']), tol, **k)
    for k, c in enumerate(rec.cases):
        if k % rec.nshards != rec.shard:
            continue
        op = c['op']
        if op == 'rho':
            e, l = L(c['E'], 1e-7), V(c['l'])
            D = layout(rng, l.reshape(-1, 1))
            if k % 4 == 0:
                q = e.get_shape_mat()
                err, r = call(rho_mat, q, D, ell_center_vec=e.get_center_vec().reshape(-1, 1))
                es = []
            else:
                arr = [e, [e], np.array([[e]], dtype=object)][k % 3]
                es = eshape(arr)
                err, r = call(Ellipsoid.rho, arr, D)
            ev_rho(rec, [e], D, es, err, r, True)
        elif op in ('ext', 'int'):
            ells, l = [L(c['A'], 1e-7), L(c['B'], 1e-7)], V(c['l'])
            if rng.rand() < 0.3 and clear_dir(op, [ells[1], ells[0]], l):
                ells.reverse()
            if not clear_dir(op, ells, l):
                continue
            n = l.size
            tests = [np.eye(n)[0], -np.eye(n)[-1], np.arange(1., n + 1), np.ones(n) - 3 * np.eye(n)[0]]
            do_mink(rec, op, ells, [1e-7, 1e-7], arr_of(rng, ells), l.reshape(-1, 1), tests, False)
        elif op == 'member':
            tol = 1e-4
            if np.any(M(c['E']['q']) != np.diag(np.diag(M(c['E']['q'])))) and abs(np.linalg.det(M(c['E']['q']))) < 1e-9:
                tol = 1e-8
            e = L(c['E'], tol)
            P = np.array([V(x) for x in c['x']]).T
            do_internal(rec, [e], [tol], e if k % 2 else [e], P, 'u', 'u')
            do_internal(rec, [e], [tol], [e], P, 'i', 'i')
        elif op == 'bigger':
            do_bigger(rec, L(c['A'], 1e-7), L(c['B'], 1e-7), 1e-7, k % 3)
        elif op == 'polar':
            e = L(c['E'], 1e-7)
            if k % 2 and np.linalg.det(e.get_shape_mat()) > 1e-6:
                err, r = call(e._get_scalar_polar_internal, bool(k % 4 == 1))
                es, rs = [], []
            else:
                arr = arr_of(rng, [e])
                es = eshape(arr)
                err, r = call(Ellipsoid.polar, arr)
                rs = shape(r) if err == '' else []
            ev_polar(rec, [e], es, rs, err, r, True)
        elif op == 'proj':
            B = np.array([V(v) for v in c['B']]).T
            for inplace in (False, True):
                e = L(c['E'], 1e-7)
                do_proj(rec, [e], arr_of(rng, [e]), B, inplace, True)
        elif op == 'chars':
            e = L(c['E'], 1e-4)
            do_chars(rec, [e], [1e-4], arr_of(rng, [e]))
        elif op == 'neg':
            e = L(c['E'], 1e-7)
            do_neg(rec, [e], None if k % 2 else arr_of(rng, [e]), True)
        elif op == 'bound':
            n = int(c['n'])
            e = L(c['E'], 1e-7, n_plot_2d_points=n if k % 2 else 2 * n)
            fl = abs(np.linalg.det(e.get_shape_mat())) < 1e-9
            if k % 2:
                err, r = call(e.get_boundary, None, True)
                err2, r2 = call(e.get_rho_boundary)
            else:
                err, r = call(e.get_boundary_by_factor, 0.5, True)
                err2, r2 = call(e.get_rho_boundary_by_factor, 0.5)
            pts, f = r if err == '' else (np.zeros((0, 2)), None)
            ev_boundary(rec, e, 2, n, 1, pts, f, fl, err, True)
            ev_rhoboundary(rec, e, 2, n, 1, r2, err2, True)
