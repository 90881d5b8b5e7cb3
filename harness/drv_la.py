"""Orthogonal transport, matrix predicates and repairs, sorting of rows."""
import numpy as np
import vh
from vh import call, rand_vec, rand_dir, rand_orth, rand_spd, rand_psd, layout
from drv_lib import unfx
from ellipy.elltool.conf.properties.Properties import Properties
from ellipy.gras.la import la
from ellipy.gras.gen.gen import sort_rows_tol, mat_dot, sqrt_pos
from ellipy.gras.geom.ell.ell import quad_mat, inv_mat
from ellipy.elltool.core import core


def q64(x):
    return np.round(np.asarray(x, dtype=float) * 64) / 64


class Kept:
    """were the arguments left alone"""

    def __init__(self, *a):
        self.a = [x for x in a if isinstance(x, np.ndarray)]
        self.b = [(x.copy(), x.shape, x.dtype) for x in self.a]

    def __call__(self):
        return bool(all(x.shape == s and x.dtype == t and np.array_equal(x, c, equal_nan=t.kind == 'f') for x, (c, s, t) in zip(self.a, self.b)))


def sq(o, n):
    o = np.asarray(o)
    return vh.mat(o.reshape((n, n)) if o.size == n * n and n == 1 else o)


def two(rng, n):
    """source and destination: anything, parallel, opposite, or nearly so"""
    dst = rand_dir(rng, n) * rng.choice([1., 1., 10., 0.05])
    k = rng.randint(0, 9)
    if k < 3:
        src = rand_dir(rng, n)
    elif k < 5:
        src = dst * rng.choice([1., 3., 0.5]) * (1 if k == 3 else -1)
    elif k < 8:
        src = dst * rng.choice([1., 2.]) * (1 if k == 5 else -1) + rng.randn(n) * np.linalg.norm(dst) * 10. ** rng.choice([-2, -3, -4, -5, -6, -6.5, -8, -10])
    else:
        src = np.zeros(n)
        src[rng.randint(n)] = rng.choice([1., -2.])
        if rng.rand() < 0.5:
            dst = src * rng.choice([1., -1.])
            if rng.rand() < 0.5:
                dst = np.roll(dst, 1)
    if np.linalg.norm(src) < 0.01:
        src = dst + rand_dir(rng, n)
        if np.linalg.norm(src) < 0.01:
            src = dst
    return src, dst


KINDS = {'plain': la.orth_transl, 'qr': la.orth_transl_qr, 'haus': la.orth_transl_haus}


def transl_one(rec, kind, src, dst, shape=0):
    n = src.size
    a, b = (src.reshape(-1, 1), dst.reshape(-1, 1)) if shape == 1 else (src, dst)
    if shape == 2:
        a, b = a + 0j, b
    kept = Kept(a, b)
    err, o = call(KINDS[kind], a, b)
    rec.ev(op='transl', kind=kind, src=vh.vec(src), dst=vh.vec(dst), err=err, o=sq(o, n) if err == '' else [], kept=kept())


def maxdir_one(rec, src, dst, sm, dm):
    n = src.size
    kept = Kept(src, dst, sm, dm)
    err, o = call(la.orth_transl_max_dir, src, dst, sm, dm)
    rec.ev(op='maxdir', src=vh.vec(src), dst=vh.vec(dst), sm=vh.vec(sm), dm=vh.vec(dm), err=err, o=sq(o, n) if err == '' else [], kept=kept())


def maxtr_one(rec, src, dst, m):
    n = src.size
    kept = Kept(src, dst, m)
    err, o = call(la.orth_transl_max_tr, src, dst, m)
    rec.ev(op='maxtr', src=vh.vec(src), dst=vh.vec(dst), m=vh.mat(m), err=err, o=sq(o, n) if err == '' else [], kept=kept())


def transport(rec):
    rng = rec.rng
    for _ in range(rec.count(1600, 60000)):
        k = rng.rand()
        n = rng.randint(1, 6) if rng.rand() < 0.93 else rng.randint(6, 10)
        src, dst = two(rng, n)
        if k < 0.45:
            kind = ['plain', 'qr', 'haus'][rng.randint(3)]
            if kind != 'haus' and rng.rand() < 0.06:
                src, dst = (np.zeros(n), dst) if rng.rand() < 0.5 else (src, np.zeros(n))
            s = rng.randint(0, 3)
            transl_one(rec, kind, layout(rng, src) if s == 0 and rng.rand() < 0.3 else src, dst, s if kind != 'haus' else s % 2)
        elif k < 0.6:
            sm, dm = rand_dir(rng, n), rand_dir(rng, n)
            j = rng.randint(0, 6)
            if j == 0:
                sm = src.copy()
            elif j == 1:
                dm = -dst
            elif j == 2:
                sm, dm = src * -2., dst * 1.
            maxdir_one(rec, src, dst, sm, dm)
        elif k < 0.75:
            n = rng.randint(1, 5)
            src, dst = two(rng, n)
            j = rng.randint(0, 4)
            m = rng.randint(-3, 4, (n, n)).astype(float) if j < 2 else np.round(rng.uniform(-2, 2, (n, n)), 3) if j == 2 else np.eye(n)
            maxtr_one(rec, src, dst, m)
        elif k < 0.85:
            v, e = rng.randint(1, 4), rng.randint(1, 4)
            ss, dd = np.zeros((n, v)), np.zeros((n, v, e))
            for i in range(v):
                ss[:, i], _ = two(rng, n)
                for j in range(e):
                    s, dd[:, i, j] = two(rng, n)
                    if rng.rand() < 0.4:
                        dd[:, i, j] = ss[:, i] * rng.choice([1., -1., 2.])
            if e == 1 and rng.rand() < 0.5:
                dd = dd[:, :, 0]
                if v == 1 and rng.rand() < 0.5:
                    dd, ss = dd[:, 0], ss[:, 0]
            kept = Kept(ss, dd)
            err, o = call(la.ml_orth_transl, ss, dd)
            items = []
            if err == '' and vh.shape(o) == [n, n, e, v]:
                d3, s2 = dd.reshape((n, v, e)), ss.reshape((n, v))
                items = [dict(src=vh.vec(s2[:, i]), dst=vh.vec(d3[:, i, j]), o=vh.mat(o[:, :, j, i])) for i in range(v) for j in range(e)]
            rec.ev(op='ml', err=err, sh=vh.shape(o) if err == '' else [], want=[n, n, e, v], items=items, kept=kept())
        else:
            c = rng.randint(1, n + 2)
            m = rng.randint(-2, 3, (n, c)).astype(float) if rng.rand() < 0.5 else np.round(rng.uniform(-2, 2, (n, c)), 3)
            if c > 1 and rng.rand() < 0.3:
                m[:, -1] = m[:, 0] * 2
            kept = Kept(m)
            err, o = call(la.mat_orth, m)
            e2, c2 = call(la.math_orth_col, m)
            rec.ev(op='orth', src=vh.mat(m), err=err or e2, o=vh.mat(o) if err == '' else [], c=vh.mat(c2) if e2 == '' else [], kept=kept())


# ------------------------------------------------------------------ matrices
TOL = [0., 1e-7, 1e-6, 1e-3, 0.25, 0.5, 1.]


def small_sym(rng, n):
    a = rng.randint(-2, 4, (n, n)).astype(float) / rng.choice([1., 2.])
    return np.triu(a) + np.triu(a, 1).T


def symm(rng, n):
    k = rng.randint(0, 5)
    if k == 0:
        return small_sym(rng, n)
    if k == 1:
        return rand_psd(rng, n, rng.randint(0, n + 1))
    if k == 2:
        return rand_spd(rng, n)
    if k == 3:
        a = rng.randint(-2, 3, (n, n)).astype(float)
        return a @ a.T + np.eye(n) * rng.choice([0., 0.5, 1.])
    a = rng.uniform(-2, 2, (n, n))
    return q64(a + a.T)


def skewed(rng, q, tol):
    """asymmetric by less or more than the tolerance (exact binary fractions)"""
    q = q64(q)
    if q.shape[0] > 1:
        i, j = rng.permutation(q.shape[0])[:2]
        q[i, j] += [0.5, 1., 2., 0.][rng.randint(4)] * tol if tol in (0.25, 0.5, 1.) else rng.choice([0., 1 / 64])
    return q


def predicate(rec, op, m, tol, semi=False, odd=False):
    kept = Kept(m)
    f = {'notdeg': la.is_mat_not_deg, 'symm': la.is_mat_symm, 'posdef': la.is_mat_pos_def}[op]
    args = (m, tol, semi) if op == 'posdef' and (semi or rec.rng.rand() < 0.5) else (m,) if tol == 0 and rec.rng.rand() < 0.5 else (m, tol)
    err, r = call(f, *args)
    rec.ev(op=op, m=[] if odd else vh.mat(m), tol=vh.fx(tol), semi=semi, odd=odd, err=err, ans=bool(r) if err == '' else False, kept=kept())


def sqrtm_one(rec, m, tol):
    kept = Kept(m)
    err, r = call(la.sqrtm_pos, m, tol)
    rec.ev(op='sqrtm', m=vh.mat(m), tol=vh.fx(tol), err=err, r=vh.mat(r) if err == '' else [], kept=kept())


def regpd_one(rec, m, tol):
    kept = Kept(m)
    err, r = call(la.reg_pos_def_mat, m, tol)
    bad = not np.isscalar(tol)
    rec.ev(op='regpd', m=vh.mat(m), tol=vh.fx(1. if bad else tol), badtol=bad, err=err, r=vh.mat(r) if err == '' else [], kept=kept())


def matrices(rec):
    rng = rec.rng
    Properties.init()
    for _ in range(rec.count(2400, 80000)):
        n = rng.randint(1, 5) if rng.rand() < 0.95 else rng.randint(5, 7)
        tol = float(rng.choice(TOL))
        k = rng.randint(0, 14)
        if k == 0:
            r = rng.randint(1, 5)
            m = rng.randint(-2, 3, (n, r)).astype(float) if rng.rand() < 0.6 else np.round(rng.uniform(-2, 2, (n, r)), 2)
            if rng.rand() < 0.3 and r > 1:
                m[:, -1] = m[:, 0] * rng.choice([1., 2., 0.])
            predicate(rec, 'notdeg', m, tol if rng.rand() < 0.9 else -0.5)
        elif k == 1:
            m = skewed(rng, symm(rng, n), tol)
            j = rng.rand()
            if j < 0.08:
                m = rng.randint(-1, 2, (n, n + 1)).astype(float)
            elif j < 0.12:
                predicate(rec, 'symm', [np.zeros((2, 2, 2)), np.array([['a', 'b'], ['b', 'a']]), np.array([1., 2.])][rng.randint(3)], tol, odd=True)
                continue
            predicate(rec, 'symm', layout(rng, m) if rng.rand() < 0.3 else m, tol if j < 0.95 else -0.25)
        elif k in (2, 3):
            m = skewed(rng, symm(rng, n), tol) if rng.rand() < 0.5 else q64(symm(rng, n))
            j = rng.rand()
            if j < 0.05:
                m = rng.randint(-1, 2, (n, n + 1)).astype(float)
            predicate(rec, 'posdef', layout(rng, m) if rng.rand() < 0.3 else m, tol if j < 0.95 else -0.25, bool(rng.rand() < 0.5))
        elif k in (4, 5):
            m = q64(symm(rng, n)) if rng.rand() < 0.8 else skewed(rng, symm(rng, n), tol)
            if rng.rand() < 0.3 and n < 5:
                m = m @ m.T
            j = rng.rand()
            if j < 0.04:
                m = rng.randint(-1, 2, (n, n + 1)).astype(float)
            sqrtm_one(rec, m, tol if j < 0.96 else -0.25)
        elif k in (6, 7):
            m = q64(symm(rng, n))
            t = float(rng.choice([1e-6, 0.01, 0.25, 1., 2., 5.]))
            j = rng.rand()
            if j < 0.04:
                m = m + np.triu(np.ones((n, n)), 1) * 0.25 if n > 1 else m
            elif j < 0.08:
                t = [0., -1., np.array([1., 1.])][rng.randint(3)]
            regpd_one(rec, m, t)
        elif k == 8:
            m = rng.randint(-2, 3, (n, n)).astype(float) if rng.rand() < 0.5 else np.round(rng.uniform(-2, 2, (n, n)), 2)
            t = float(rng.choice([0.01, 0.25, 1., 2., 5.])) if rng.rand() < 0.92 else [0., -1., np.array([1., 1.])][rng.randint(3)]
            bad = not np.isscalar(t)
            kept = Kept(m)
            err, r = call(la.reg_mat, m, t)
            rec.ev(op='reg', m=vh.mat(m), tol=vh.fx(1. if bad else t), badtol=bad, err=err, r=vh.mat(r) if err == '' else [], kept=kept())
        elif k == 9:
            real_one(rec)
        elif k == 10:
            quad_one(rec, n)
        elif k == 11:
            j = rng.rand()
            m = rng.randint(-3, 4, (n, n)).astype(float) if rng.rand() < 0.5 else rand_spd(rng, n)
            if abs(np.linalg.det(m)) < 0.3:
                m = m + 7 * np.eye(n)
            bad = False
            if j < 0.1:
                m, bad = [np.ones((2, 3)), np.ones(3), np.ones((2, 2, 2)), np.ones((3, 1))][rng.randint(4)], True
            kept = Kept(m)
            err, r = call(inv_mat, m)
            rec.ev(op='inv', m=[] if bad else vh.mat(m), bad=bad, err=err, r=vh.mat(r) if err == '' else [], kept=kept())
        elif k == 12:
            simdiag_one(rec, n)
        else:
            misc_one(rec, n)


def real_one(rec):
    rng = rec.rng
    nd = rng.randint(0, 3)
    sh = tuple(rng.randint(1, 4, nd))
    re, im = q64(rng.uniform(-3, 3, sh)), q64(rng.uniform(-1, 1, sh)) * (rng.rand(*sh) < 0.5 if nd else 1.)
    tol = float(rng.choice([1 / 64, 0.25, 0.5, 1., 2.]))
    k = rng.randint(0, 5)
    if k == 0:
        im = im * 0.
    elif k == 1:
        im = im * 0.25
    x = re + 1j * im if k < 4 else re
    if k == 4:
        im = im * 0.
    x = x if nd else (complex(x) if np.iscomplexobj(x) else float(x))
    bad, args = False, (x, tol)
    if rng.rand() < 0.1:
        bad, args = True, (x, [0., -1., 'a', np.array([1., 2.])][rng.randint(4)])
    kept = Kept(x)
    err, r = call(la.try_treat_as_real, *args)
    im2 = np.reshape(im, (-1, 1)) if nd < 2 else im
    rec.ev(op='real', re=vh.vec(re), im=vh.mat(im2), sh=[int(v) for v in sh], tol=vh.fx(tol), badtol=bad, err=err, out=vh.vec(np.real(r)) if err == '' else [],
           oim=vh.vec(np.imag(r)) if err == '' else [], osh=vh.shape(r) if err == '' else [], kept=kept())


def quad_one(rec, n):
    rng = rec.rng
    q = rand_spd(rng, n) if rng.rand() < 0.7 else rng.randint(-3, 4, (n, n)) + 8. * np.eye(n)
    x, c = rand_vec(rng, n), rand_vec(rng, n)
    mode = ['plain', 'inv', 'invadv'][rng.randint(3)]
    name = [mode, mode.upper(), mode.capitalize()][rng.randint(3)]
    j = rng.randint(0, 5)
    if j == 0:
        c = np.zeros(n)
        args = [q, x]
        if mode != 'plain' or rng.rand() < 0.5:
            args += [[0., 0, np.zeros(1)][rng.randint(3)], name]
    else:
        args = [q, x, c, name]
    sh = [lambda v: v, lambda v: v.reshape(-1, 1), lambda v: v.reshape(1, -1)]
    args[1] = sh[rng.randint(3)](x)
    if j:
        args[2] = sh[rng.randint(3)](c)
    bad = False
    if rng.rand() < 0.15 and len(args) == 4:
        bad = True
        k = rng.randint(0, 6)
        i, v = [(0, np.ones((n, n + 1))), (0, np.array([['a']])), (1, np.ones(n + 1)), (2, np.ones(n + 2)), (3, 'direct'), (1, np.ones((2, 2, 2)))][k]
        args[i] = v
    kept = Kept(*args)
    err, r = call(quad_mat, *args)
    rec.ev(op='quad', q=vh.mat(q), x=vh.vec(x), c=vh.vec(c), mode='plain' if mode == 'plain' else 'inv', bad=bad, err=err,
           ans=vh.fx(r) if err == '' else [], sh=int(np.size(r)) if err == '' else 0, kept=kept())


def simdiag_one(rec, n):
    rng = rec.rng
    tol = float(rng.choice([1e-7, 1e-5, 0.25]))
    a, b = q64(rand_spd(rng, n, 0.6, 3.)), q64(symm(rng, n))
    k = rng.randint(0, 8)
    if k == 0:
        a = q64(symm(rng, n))
    elif k == 1:
        b = np.fliplr(np.eye(n)) * rng.choice([1., 2.])          # eigenvalues of both signs
        a = np.eye(n) if rng.rand() < 0.5 else a
    elif k == 2:
        a = np.eye(n)
    elif k == 3:
        b = -b @ b.T
    bad = False
    if rng.rand() < 0.12:
        j = rng.randint(0, 4)
        if j == 0 and n > 1:
            a[0, 1] += 1.
        elif j == 1 and n > 1:
            b[0, 1] += 1.
        elif j == 2:
            b = np.eye(n + 1)
        else:
            b, bad = np.array([['a'] * n] * n), True
    kept = Kept(a, b)
    err, t = call(core.ell_sim_diag, a, b, tol)
    rec.ev(op='simdiag', a=vh.mat(a), b=[] if bad else vh.mat(b), tol=vh.fx(tol), bad=bad, err=err, t=vh.mat(t) if err == '' else [], kept=kept())


def misc_one(rec, n):
    rng = rec.rng
    k = rng.rand()
    if k < 0.55:
        v, x = two(rng, n)
        sh = [lambda u: u, lambda u: u.reshape(-1, 1), lambda u: u.reshape(1, -1)]
        a, b, bad = sh[rng.randint(3)](v), sh[rng.randint(3)](x), False
        if n == 1 and rng.rand() < 0.3:
            a, b = np.array(v[0]), np.array(x[0])
        if rng.rand() < 0.12:
            bad = True
            a, b = [(a, np.ones(n + 1)), (np.ones((2, 2)), np.ones(4)), (np.ones(4), np.ones((2, 2))), (np.array(['a']), np.ones(1))][rng.randint(4)]
            if a.shape == () and b.size == 2 and n == 1:
                a = v
        if not bad and (a.shape == ()) != (b.shape == ()):
            return
        kept = Kept(a, b)
        err, t = call(core.ell_valign, a, b)
        rec.ev(op='valign', v=vh.vec(v), x=vh.vec(x), bad=bad, err=err, t=vh.mat(t) if err == '' else [], kept=kept())
    elif k < 0.9:
        n = rng.randint(1, 4)
        a, b = rand_spd(rng, n, 0.4, 2.), rand_spd(rng, n, 0.4, 2.)
        a, b = [m / 2. ** max(0, np.ceil(np.log2(np.max(np.abs(m)) / 8))) for m in (a, b)]     # the value stays representable
        ca, cb = rand_vec(rng, n, 1.), rand_vec(rng, n, 1.)
        lam = float(rng.choice([0., 0.25, 0.5, 1., np.round(rng.rand(), 3)]))
        err, f = call(core.ell_fusion_lambda, lam, ca, a, cb, b, n)
        rec.ev(op='fusion', qa=vh.mat(a), qb=vh.mat(b), ca=vh.vec(ca), cb=vh.vec(cb), lam=vh.fx(lam), err=err, ans=vh.fx(f) if err == '' else [])
    else:
        n = rng.randint(1, 7)
        err, b = call(core.ell_unitball, n)
        c, q = b.double() if err == '' else ([], [])
        rec.ev(op='ball', n=int(n), err=err, c=vh.vec(c), q=vh.mat(q) if err == '' else [])


# ------------------------------------------------------------------ sorting
def sort_one(rec, m, tol, bad=False):
    kept = Kept(m)
    err, r = call(sort_rows_tol, m, tol)
    rec.ev(op='sort', m=[] if bad else vh.mat(m), tol=vh.fx(tol), bad=bad, err=err, r=vh.mat(r[0]) if err == '' else [],
           ind=vh.ints(r[1]) if err == '' else [], rev=vh.ints(r[2]) if err == '' else [], kept=kept())


def sorting(rec):
    rng = rec.rng
    for _ in range(rec.count(1800, 60000)):
        k = rng.rand()
        if k < 0.75:
            n, c = rng.randint(1, 9), rng.randint(1, 5)
            if rng.rand() < 0.06:
                n, c = rng.randint(9, 33), rng.randint(1, 8)
            tol = float(rng.choice([0., 1 / 64, 0.25, 0.5, 1.]))
            j = rng.randint(0, 4)
            if j == 0:
                m = rng.randint(-2, 3, (n, c)).astype(float)
            elif j == 1:                     # a few base values and small offsets around the tolerance
                m = rng.randint(-1, 2, (n, c)) * 4. + q64(rng.choice([0., 0., 0.5, 1., 1.5, -1., 2.], (n, c)) * tol)
            elif j == 2:
                m = q64(rng.uniform(-2, 2, (n, c)))
            else:
                m = np.round(rng.uniform(-1.5, 1.5, (n, c)))
                m[rng.randint(n)] = m[rng.randint(n)]
                m = m + q64(rng.choice([0., 0., 1., -1.], (n, c)) * tol)
            if rng.rand() < 0.15:                # a narrow tolerance
                tol = 1e-7
                m = rng.randint(-2, 3, (n, c)) + tol * rng.choice([0., 0.3, -0.4, 3., -3.], (n, c))
            elif n > 2 and rng.rand() < 0.2:       # a long chain of small gaps
                m[:, rng.randint(c)] = rng.permutation(n) * (tol if rng.rand() < 0.7 else tol + 1 / 64)
            bad = False
            if rng.rand() < 0.05:
                m, bad = [(np.ones(3), True), (np.ones((2, 2, 1)), True), (np.array([['a', 'b']]), True), (m, False)][rng.randint(4)]
                if not bad:
                    tol = -0.5
            elif rng.rand() < 0.05:
                m = m[:0]
            elif rng.rand() < 0.15:
                m = layout(rng, m)
            sort_one(rec, m, tol, bad)
        elif k < 0.87:
            n, p = rng.randint(1, 5), rng.randint(1, 4)
            a, b = np.round(rng.uniform(-3, 3, (n, n, p)), 2), np.round(rng.uniform(-3, 3, (n, n, p)), 2)
            if p == 1 and rng.rand() < 0.7:
                a, b = a[:, :, 0], b[:, :, 0]
            bad = False
            if rng.rand() < 0.15:
                bad = True
                a, b = [(a, np.ones((n + 1, n + 1))), (np.ones((2, 3)), np.ones((2, 3))), (np.ones((3, 1)), np.ones((3, 1)))][rng.randint(3)]
            kept = Kept(a, b)
            err, r = call(mat_dot, a, b)
            pages = lambda x: [vh.mat(x[:, :, i]) for i in range(x.shape[2])] if x.ndim == 3 else [vh.mat(x)]
            rec.ev(op='matdot', a=[] if bad else pages(a), b=[] if bad else pages(b), bad=bad, err=err, ans=vh.vec(r) if err == '' else [], kept=kept())
        else:
            sh = tuple(rng.randint(0 if rng.rand() < 0.1 else 1, 4, rng.randint(0, 3)))
            tol = float(rng.choice([0., 1 / 64, 0.25]))
            x = q64(rng.uniform(0, 9, sh))
            if rng.rand() < 0.5:
                x = x * (rng.rand(*sh) < 0.7) - tol * (rng.rand(*sh) < 0.3) * rng.choice([0.5, 1.]) if sh else rng.choice([-tol, -tol / 2, 0.])
                x = np.maximum(x, -tol)
            if rng.rand() < 0.2:
                x = x - rng.choice([1., tol + 1 / 64]) * (rng.rand(*sh) < 0.4 if sh else 1.)
            arg = float(x) if sh == () else np.asarray(x)
            kept = Kept(arg)
            t = tol if rng.rand() < 0.95 else -0.5
            err, r = call(sqrt_pos, arg, t) if t or rng.rand() < 0.5 else call(sqrt_pos, arg)
            rec.ev(op='sqrtpos', x=vh.vec(x), xsh=[int(v) for v in sh], tol=vh.fx(t), err=err, r=vh.vec(r) if err == '' else [], sh=vh.shape(r) if err == '' else [], kept=kept())


# ------------------------------------------------------------------ replay
def arr(m):
    return np.array([[unfx(x) for x in r] for r in m])


def replay(rec):
    for k, c in enumerate(rec.cases):
        if k % rec.nshards != rec.shard:
            continue
        op = c['op']
        if op == 'transl':
            src, dst = (np.array([unfx(x) for x in c[z]]) for z in ('src', 'dst'))
            for kind in KINDS:
                if kind != 'haus' or (np.any(src) and np.any(dst)):
                    transl_one(rec, kind, src, dst, k % 3 if kind != 'haus' else 0)
            if np.any(src) and np.any(dst):
                e1 = np.roll(src, 1)
                maxdir_one(rec, src, dst, e1, dst + 1.)
                maxtr_one(rec, src, dst, np.outer(e1, dst) + np.diag(src))
        elif op == 'sort':
            sort_one(rec, arr(c['m']), unfx(c['tol']))
        else:
            m, tol = arr(c['m']), unfx(c['tol'])
            for z in ('notdeg', 'symm', 'posdef'):
                predicate(rec, z, m, tol)
            predicate(rec, 'posdef', m, tol, True)
            sqrtm_one(rec, m, tol)
            regpd_one(rec, m, tol)
