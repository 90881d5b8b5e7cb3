"""Support functions on grids of directions: boundary points and geometric differences."""
import numpy as np
from scipy.optimize import linprog, nnls
import vh
from vh import call
from drv_la import Kept
from ellipy.gras.geom.sup import sup
from ellipy.gras.geom.tri import tri
from ellipy.gras.geom.geom import circle_part


def ring(rng, n, skew=True):
    """directions around the circle, in order, no gap of a half turn"""
    k = rng.randint(0, 4)
    while True:
        if k < 2:
            a = 2 * np.pi * np.arange(n) / n + (rng.uniform(0, 6) if k else 0.)
        else:
            a = np.sort(rng.uniform(0, 2 * np.pi, n))
        gap = np.diff(np.append(a, a[0] + 2 * np.pi))
        if gap.max() < 2.9 and gap.min() > 0.05:
            break
    if rng.rand() < 0.3:
        a = a[::-1]
    L = np.column_stack((np.cos(a), np.sin(a)))
    if skew and rng.rand() < 0.3:
        L = L * rng.uniform(0.5, 2, (n, 1))
    return L


def ball(rng, n, big=False):
    """directions around the sphere; their convex hull has the origin well inside"""
    k = rng.randint(0, 5)
    if k == 0:
        L = tri.sphere_tri(0)[0]
    elif k == 1 and big:
        L = tri.sphere_tri(1)[0]
    elif k == 2:
        L = np.vstack((np.eye(3), -np.eye(3), rng.randn(max(n - 6, 0), 3)))
    elif k == 3:
        L = np.array([(a, b, c) for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1) if (a, b, c) != (0, 0, 0)], float)
    else:
        L = np.vstack((np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]) + rng.uniform(-0.2, 0.2, (4, 3)), rng.randn(max(n - 4, 0), 3)))
    L = L / np.linalg.norm(L, axis=1, keepdims=True)
    if k > 1:
        keep = [i for i in range(len(L)) if all(abs(L[i] @ L[j]) < 0.999 or L[i] @ L[j] < 0 for j in range(i))]
        L = L[keep]
        if rng.rand() < 0.3:
            L = L * rng.uniform(0.5, 2, (len(L), 1))
    return L[rng.permutation(len(L))]


def body(rng, L, size, spot=None):
    """support values of a convex body of about the given size"""
    d = L.shape[1]
    k = rng.randint(0, 4)
    c = np.zeros(d) if spot is None else spot
    if k == 0:
        r = size * np.linalg.norm(L, axis=1)
    elif k == 1:
        A = np.linalg.qr(rng.randn(d, d))[0]
        q = A @ np.diag((size * rng.uniform(0.4, 1, d)) ** 2) @ A.T
        r = np.sqrt(np.sum((L @ q) * L, 1))
    elif k == 2:
        r = np.abs(L) @ (size * rng.uniform(0.4, 1, d))
    else:
        V = np.vstack((np.eye(d), -np.eye(d))) * size * rng.uniform(0.5, 1, (2 * d, 1))
        V = np.vstack((V, rng.randn(4, d) * size * 0.3))
        r = np.max(L @ V.T, axis=1)
    return r + L @ c


# ------------------------------------------------------------------ boundary
def boundary(rec):
    rng = rec.rng
    for _ in range(rec.count(300, 8000)):
        d = 2 if rng.rand() < 0.6 else 3
        inside = False
        if d == 2:
            n = rng.randint(3, 13)
            L = ring(rng, n)
            F = np.array([(i, (i + 1) % n) for i in range(n)])
            r = body(rng, L, rng.uniform(0.5, 3), rng.uniform(-2, 2, 2))
            if rng.rand() < 0.4:          # a polygon and exactly its sides
                r = np.linalg.norm(L, axis=1) * rng.uniform(1, 2)
                inside = True
        else:
            k = rng.randint(0, 3)
            if k == 0:
                L, F = tri.sphere_tri(0)
                p = rng.permutation(len(L))
                L, F = L[p], np.argsort(p)[F]
                r = np.full(len(L), float(rng.randint(1, 4)))
                inside = True
            else:
                L = ball(rng, rng.randint(4, 12))
                F = np.array([rng.permutation(len(L))[:3] for _ in range(rng.randint(1, 12))])
                F = F[[abs(np.linalg.det(L[f])) > 0.02 for f in F]]
                if not len(F):
                    continue
                r = body(rng, L, rng.uniform(0.5, 3), rng.uniform(-2, 2, 3))
            if rng.rand() < 0.2:
                F = F.astype(np.int32)
        if rng.rand() < 0.2:
            L = np.asfortranarray(L)
        kept = Kept(L, r, F)
        err, x = call(sup.sup_2_boundary_2, L, r) if d == 2 else call(sup.sup_2_boundary_3, L, r, F)
        ok = err == '' and np.ndim(x) == 2
        rec.ev(op='boundary', d=d, L=vh.mat(L), r=vh.vec(r), F=[[int(v) for v in f] for f in F], inside=bool(inside), err=err, pts=vh.mat(x) if ok else [], kept=kept())


# ---------------------------------------------------------------- difference
def witness(L, r):
    out = []
    for l in L:
        s = linprog(-l, A_ub=L, b_ub=r, bounds=[(None, None)] * len(l), method='highs', options=dict(primal_feasibility_tolerance=1e-10, dual_feasibility_tolerance=1e-10))
        assert s.status == 0, s.message
        x = s.x
        t = L @ x / r
        x = x / max(1., t.max())
        act = np.nonzero(t > 1 - 1e-7)[0]
        w, res = nnls(L[act].T, l)
        assert res < 1e-10, (res, len(act))
        use = w > 0
        out.append(dict(x=vh.vec(x), i=[int(v) for v in act[use]], w=vh.vec(w[use])))
    return out


def diff_one(rec, L, rho1, rho2, small, sizes=False):
    d = L.shape[1]
    lm = np.array(L.T, order='F' if rec.rng.rand() < 0.3 else 'C')
    kept = Kept(lm, rho1, rho2)
    err, h = call(sup.sup_geom_diff_2d if d == 2 else sup.sup_geom_diff_3d, rho1, rho2, lm)
    r = np.ravel(rho1) - np.ravel(rho2)
    wit = [] if small or np.any(r <= 0) else witness(L, r)
    ok = err == '' and np.ndim(h) == 1
    rec.ev(op='diff', d=d, L=vh.mat(L), r=vh.vec(r), sizes=sizes, err=err, h=vh.vec(h) if ok else [], wit=wit, kept=kept())


def shaped(rng, r):
    k = rng.randint(0, 6)
    return r.reshape(-1, 1) if k == 0 else r.reshape(1, -1) if k == 1 else r


def bad_one(rec, d):
    rng = rec.rng
    L = ring(rng, 6) if d == 2 else ball(rng, 8)
    n = len(L)
    f = sup.sup_geom_diff_2d if d == 2 else sup.sup_geom_diff_3d
    r1, r2 = np.full(n, 3.) * np.linalg.norm(L, axis=1), np.ones(n)
    lm = L.T
    k = rng.randint(0, 8)
    if k == 0:
        lm = L
    elif k == 1:
        r1 = np.tile(r1, (2, 1))
    elif k == 2:
        r2 = np.tile(r2, (2, 1))
    elif k == 3:
        r1 = r1[:-1]
    elif k == 4:
        r2 = np.append(r2, 1.)
    elif k == 5:
        lm = L.T[:, :-1]
    elif k == 6:
        lm = np.ravel(L)
    else:
        f = sup.sup_geom_diff_3d if d == 2 else sup.sup_geom_diff_2d
    err, _ = call(f, r1, r2, lm)
    rec.ev(op='diff', d=d, L=[], r=[], sizes=True, err=err, h=[], wit=[], kept=True)


def beside(rng):
    """a direction that leaves the body through a facet, close to the edge of another one"""
    A = np.linalg.qr(rng.randn(3, 3))[0] @ np.diag(rng.uniform(0.7, 1.4, 3))
    L = np.vstack((A, -A * rng.uniform(0.7, 1.4)))
    t = rng.uniform(0.2, 0.8)
    i, j, k = rng.permutation(3)
    off = 10.0 ** rng.uniform(-3, -1.5) * rng.choice([-1, 1])
    l = t * A[i] + (1 - t) * A[j] + off * A[k]
    L = np.vstack((L, l))
    p = rng.permutation(7)
    r = np.append(rng.uniform(0.8, 1.2, 6), 4.0)
    return L[p], r[p]


def difference(rec):
    rng = rec.rng
    for _ in range(rec.count(40, 1000)):
        L, r = beside(rng)
        r2 = rng.uniform(0, 1) * np.linalg.norm(L, axis=1)
        diff_one(rec, L, r + r2, r2, True)
    for _ in range(rec.count(260, 8000)):
        d = 2 if rng.rand() < 0.6 else 3
        if rng.rand() < 0.1:
            bad_one(rec, d)
            continue
        big = rng.rand() < 0.5
        if d == 2:
            n = rng.randint(9, 25 if rec.tier == 'quick' else 61) if big else rng.randint(3, 9)
            L = ring(rng, n) if n < 25 else circle_part(n)
        else:
            L = ball(rng, rng.randint(4, 20) if big else rng.randint(4, 7), big)
        n = len(L)
        small = n <= 9 and not big and (d == 2 or n <= 7)
        spot = None if rng.rand() < 0.5 else rng.uniform(-0.3, 0.3, d)
        rho2 = body(rng, L, rng.uniform(0.1, 1))
        rho1 = rho2 + body(rng, L, rng.uniform(0.7, 3), spot) if rng.rand() < 0.4 else body(rng, L, rng.uniform(2.2, 5), spot)
        if rng.rand() < 0.15:
            rho1 = rho2 + rng.uniform(0.3, 3, n)           # no convex body at all
        if rng.rand() < 0.05:
            rho1 = rho2 + 1.
            rho1[rng.randint(n)] = rho2[rng.randint(n)] * 0 + (0. if rng.rand() < 0.5 else -1.)
        if np.any((rho1 - rho2 > -1e-3) & (rho1 - rho2 < 0.05) & (rho1 != rho2)):
            continue
        diff_one(rec, L, shaped(rng, rho1), shaped(rng, rho2), small)


def replay(rec):
    for k, c in enumerate(rec.cases):
        if not rec.mine():
            continue
        L, r = np.array(c['L'], float), np.array(c['r'], float)
        q = float(k % 3)
        r2 = np.full(len(r), q)
        if k % 2:
            r2 = q * np.abs(L).sum(1)
        diff_one(rec, L, r + r2, r2, True)
