"""Triangle meshes: incidence, equality, refinement; partitions of the sphere and the circle; tube grids."""
import itertools
import numpy as np
import vh
from vh import call
from drv_la import Kept
from ellipy.gras.geom.tri import tri
from ellipy.gras.geom.geom import circle_part, sphere_part

OCTA = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]


def base(rng, k=None):
    k = rng.randint(0, 11) if k is None else k
    if k == 0:
        return 3, [(0, 1, 2)]
    if k == 1:
        n = rng.randint(3, 7)
        return n + 1, [(0, i, i % n + 1) for i in range(1, n + 1)]
    if k == 2:
        n = rng.randint(2, 6)
        return n + 2, [(i, i + 1, i + 2) for i in range(n)]
    if k == 3:
        return 4, [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)]
    if k == 4:
        return 6, OCTA
    if k == 5:
        return 12, [tuple(int(v) for v in f) for f in tri.icosahedron()[1]]
    if k == 6:
        n, m = rng.randint(2, 4), rng.randint(2, 4)
        f = []
        for i in range(n - 1):
            for j in range(m - 1):
                a, b, c, d = i * m + j, i * m + j + 1, (i + 1) * m + j, (i + 1) * m + j + 1
                f += [(a, b, d), (a, d, c)] if rng.rand() < 0.5 else [(a, b, c), (b, d, c)]
        return n * m, f
    if k == 7:
        return 5, [(i, (i + 1) % 5, (i + 2) % 5) for i in range(5)]
    if k == 8:
        return 5, [(0, 1, 2), (0, 1, 3), (0, 1, 4)]
    if k == 9:
        return 6, [(0, 1, 2), (3, 4, 5)]
    return 5, [(0, 1, 2), (0, 2, 3), (0, 3, 4)]


def mixed(rng, f, n):
    """corners, faces and vertex numbers in another order"""
    p = rng.permutation(n)
    g = [[int(p[v]) for v in np.array(t)[rng.permutation(3)]] for t in f]
    return [g[i] for i in rng.permutation(len(g))]


def farr(rng, f):
    a = np.array(f)
    k = rng.randint(0, 5)
    if k == 0:
        return a.astype(np.int32)
    if k == 1:
        return np.asfortranarray(a)
    return a


def rows(a, w=None):
    a = np.asarray(a)
    if w:
        a = a.reshape(-1, w)
    return [[int(v) for v in r] for r in a]


def bools(a):
    return [[bool(v) for v in r] for r in np.asarray(a).reshape(-1, 3)]


# ----------------------------------------------------------------- incidence
def edges_one(rec, F):
    kept = Kept(F)
    err, r = call(tri.map_face_2_edge, F)
    err2, g = call(tri.get_face_edge_info, F)
    err = err or err2
    d = dict(E=[], f2e=[], dir=[], E2=[], groups=[])
    if err == '':
        d = dict(E=rows(r[0]), f2e=rows(r[1], 3), dir=bools(r[2]), E2=rows(g[1]))
        at = np.cumsum(np.hstack(([0], g[3])))
        d['groups'] = [[int(v) for v in g[2][at[i]:at[i + 1]]] for i in range(len(g[3]))]
    bad = F.shape[-1] != 3
    rec.ev(op='edges', F=[] if bad else rows(F, 3), bad=bool(bad), err=err, kept=kept(), **d)


def isface_one(rec, F, C):
    kept = Kept(F, C)
    err, r = call(tri.is_face, F, C)
    rec.ev(op='isface', F=rows(F, 3), C=rows(C), err=err, ans=[bool(v) for v in np.asarray(r).reshape(-1)] if err == '' else [], kept=kept())


def trieq_one(rec, V1, F1, V2, F2, tol):
    kept = Kept(V1, F1, V2, F2)
    err, r = call(tri.is_tri_equal, V1, F1, V2, F2, tol)
    rec.ev(op='trieq', V1=vh.mat(V1), F1=rows(F1), V2=vh.mat(V2), F2=rows(F2), tol=vh.fx(tol), err=err,
           ans=bool(r[0]) if err == '' else False, report=str(r[1])[:60] if err == '' else '', kept=kept())


def incidence(rec):
    rng = rec.rng
    for _ in range(rec.count(1500, 50000)):
        n, f = base(rng)
        z = rng.rand()
        if z < 0.3:
            F = farr(rng, mixed(rng, f, n))
            if len(f) == 1 and rng.rand() < 0.5:
                F = F[0]
            if rng.rand() < 0.05:
                F = np.array([[0, 1], [1, 2]]) if rng.rand() < 0.5 else np.array([0, 1])
            edges_one(rec, F)
        elif z < 0.55:
            g = mixed(rng, f, n)
            if len(g) > 1 and rng.rand() < 0.5:
                g = g[:-1]
            C = []
            for _ in range(rng.randint(1, 9)):
                k = rng.rand()
                if k < 0.5:
                    c = np.array(g[rng.randint(len(g))])[rng.permutation(3)]
                elif k < 0.9:
                    c = rng.permutation(n + (k > 0.85) * 2)[:3]
                else:
                    c = rng.randint(0, n, 3)
                C.append([int(v) for v in c])
            if len(g) > 1 and rng.rand() < 0.5:
                C.append([int(v) for v in rng.permutation(mixed(rng, f, n)[-1])])
            isface_one(rec, farr(rng, g), farr(rng, C))
        else:
            equal_one(rec, n, f)


def equal_one(rec, n, f):
    rng = rec.rng
    tol = float(rng.choice([0., 1e-6, 1e-3, 0.01, 0.125]))
    d = rng.randint(1, 4) if n < 4 else rng.randint(2, 4)
    while True:
        V = rng.randint(0, 4 if d > 1 else 9, (n, d)).astype(float)
        if np.unique(V, axis=0).shape[0] == n:
            break
    p = rng.permutation(n)
    inv = np.argsort(p)
    V1, V2 = V + 0., V[p] + 0.
    F1 = [list(np.array(t)[rng.permutation(3)]) for t in f]
    F2 = [list(inv[np.array(t)[rng.permutation(3)]]) for t in f]
    F2 = [F2[i] for i in rng.permutation(len(F2))]
    if rng.rand() < 0.7:
        V2 = V2 + np.round(rng.uniform(-1, 1, V2.shape), 1) * tol / 2
        if rng.rand() < 0.5:
            V1, V2 = V1 + np.round(rng.uniform(-1, 1, V2.shape), 1) * tol / 4, V[p] + np.round(rng.uniform(-1, 1, V2.shape), 1) * tol / 4
    k = rng.randint(0, 12)
    F2 = [[int(v) for v in t] for t in F2]
    if k == 0:                                   # one corner of one face
        i, j = rng.randint(len(F2)), rng.randint(3)
        F2[i][j] = int(rng.randint(n))
    elif k == 1:                                 # one vertex moved a little too far
        V2[rng.randint(n), rng.randint(d)] += float(rng.choice([-1, 1])) * max(1.5 * tol, 0.001)
    elif k == 2:
        i, j = rng.permutation(n)[:2]
        F2 = [[int(j) if v == i else int(i) if v == j else v for v in t] for t in F2]
    elif k == 3 and len(F2) > 1:
        F2 = F2[:-1]
    elif k == 4 and len(F2) > 1:                 # one face instead of another
        F2[0] = [F2[1][i] for i in rng.permutation(3)]
    elif k == 5:
        V2 = np.vstack((V2, V2[:1] + 9.))
    elif k == 6 and n > 3:                       # another face on present vertices
        F2[rng.randint(len(F2))] = [int(v) for v in rng.permutation(n)[:3]]
    elif k == 7:
        i, j = rng.permutation(n)[:2]
        V2[[i, j]] = V2[[j, i]]
    if any(len(set(t)) < 3 for t in F2):
        return
    a, b = (V1, np.array(F1)), (V2, np.array(F2))
    if rng.rand() < 0.5:
        a, b = b, a
    trieq_one(rec, *a, *b, tol)


# ---------------------------------------------------------------- refinement
FUNS = dict(none=None, double=lambda m: m * 2, shift=lambda m: m + 0.5, flat=lambda m: np.hstack((m[:, :-1], m[:, -1:] * 0)),
            unit=lambda m: m / np.sqrt(np.sum(m * m, 1))[:, None])


def stats(s):
    fl = lambda k: [int(v) for v in np.ravel(s[k])]
    return dict(n=int(s['n_steps']), nv=fl('n_vert_vec'), nf=fl('n_face_vec'), ne=fl('n_edge_vec'), sh=fl('n_edges_to_shrink_vec'),
                ml=vh.vec(s['max_edge_length_vec']))


NOST = dict(n=0, nv=[], nf=[], ne=[], sh=[], ml=[])


def mids(V, F, V2, F2, fun):
    """which edge each new vertex halves, as far as the result shows"""
    es = sorted({tuple(sorted(p)) for t in F for p in itertools.combinations(t, 2)})
    near = {}
    for t in F2:
        for v in t:
            near.setdefault(int(v), set()).update(int(x) for x in t)
    P = np.array([(V[a] + V[b]) / 2 for a, b in es])
    P = FUNS[fun](P) if FUNS[fun] else P
    out = []
    for k in range(len(V), len(V2)):
        d = np.max(np.abs(P - V2[k]), axis=1)
        best = sorted(range(len(es)), key=lambda i: (not (es[i][0] in near.get(k, ()) and es[i][1] in near.get(k, ())), d[i]))
        out.append([int(v) for v in es[best[0]]])
    return out


def chain(rec, V, F, mx, steps, fun):
    kept = Kept(V, F)
    args = () if FUNS[fun] is None else (FUNS[fun],)

    def run(k, st=True):
        if args:
            return call(tri.shrink_face_tri, V, F, mx, k, args[0], st)
        return call(tri.shrink_face_tri, V, F, mx, k, is_stat_collected=st)
    prev = None
    for k in range(steps + 1):
        err, r = run(k)
        if err:
            rec.ev(op='refine', err=err, V=vh.mat(V), F=rows(F, 3), V2=[], F2=[], max=vh.fx(mx), fun=fun, mids=[], same=True, kept=kept(), stop=False, st=NOST, st2=NOST)
            return
        V2, F2, s, E2, f2e, dr = r
        e0, q = run(k, False)
        same = bool(e0 == '' and len(q) == 2 and np.array_equal(q[0], V2) and np.array_equal(q[1], F2))
        cur = (V2, np.asarray(F2).reshape(-1, 3), stats(s))
        if k == 0:
            rec.ev(op='start', err='', kept=kept() and same, V=vh.mat(V), F=rows(F, 3), V2=vh.mat(V2), F2=rows(cur[1]), st=cur[2])
        else:
            rec.ev(op='refine', err='', kept=kept(), same=same, stop=False, V=vh.mat(prev[0]), F=rows(prev[1]), st=prev[2], V2=vh.mat(V2), F2=rows(cur[1]), st2=cur[2],
                   E2=rows(E2), f2e2=rows(f2e, 3), dir2=bools(dr), max=vh.fx(mx), fun=fun, mids=mids(prev[0], prev[1], V2, cur[1], fun))
            if len(prev[0]) == len(V2):
                return
        prev = cur


def strip(rng):
    """a strip of triangles, the long sides of some of which are exactly as long as the bound"""
    n, u = rng.randint(2, 6), float(rng.choice([0.5, 1., 2.]))
    x = np.concatenate([[0.], np.cumsum(rng.choice([2., 2., 2., 3., 1.5], n))])
    low, top = [(v, 0.) for v in x], [((a + b) / 2, 0.75) for a, b in zip(x[:-1], x[1:])]
    f = [(i, i + 1, n + 1 + i) for i in range(n)] + [(i + 1, n + 2 + i, n + 1 + i) for i in range(n - 1)]
    p = rng.permutation(2 * n + 1)
    V = np.zeros((2 * n + 1, rng.randint(2, 4)))
    V[p, :2] = np.array(low + top) * u
    ax = rng.permutation(V.shape[1])
    f = [[int(p[t[i]]) for i in rng.permutation(3)] for t in f]
    return V[:, ax], np.array(f), 2. * u


def refinement(rec):
    rng = rec.rng
    for _ in range(rec.count(24, 400)):
        V, F, mx = strip(rng)
        chain(rec, V, farr(rng, F), mx, 2, 'none')
    for _ in range(rec.count(260, 9000)):
        n, f = base(rng)
        d = rng.randint(2, 5)
        V = np.round(rng.uniform(-2, 2, (n, d)), 2)
        if rng.rand() < 0.15:
            V = rng.randint(-9, 10, (n, d))
            while np.unique(V, axis=0).shape[0] < n:
                V = rng.randint(-9, 10, (n, d))
        g = mixed(rng, f, n)
        F = farr(rng, g)
        if len(f) == 1 and rng.rand() < 0.4:
            F = F[0]
        es = sorted({tuple(sorted(p)) for t in g for p in itertools.combinations(t, 2)})
        ln = np.sort([np.linalg.norm(V[a] - V[b]) for a, b in es])
        i = rng.randint(0, len(ln))
        k = rng.randint(0, 6)
        mx = float([ln[i] * 0.99, (ln[i] + ln[i - 1]) / 2 if i else ln[0] * 0.9, ln[-1] * 0.6, ln[0] * 0.7, ln[-1] + 0.1, 0.][k])
        mx = round(mx, 6)
        steps = 1 if len(f) > 8 else 2 if len(f) > 3 else 3
        if k == 5:
            steps = min(steps, 2)
        fun = ['none', 'none', 'double', 'shift', 'flat', 'unit'][rng.randint(6)]
        if fun == 'unit' and np.any(np.array([np.linalg.norm(V[a] + V[b]) for a, b in es]) < 0.4):
            fun = 'none'
        if rng.rand() < 0.12 and len(f) < 9:
            mx = round(max(mx, ln[-1] * 0.35), 6)
            kept = Kept(V, F)
            err, r = call(tri.shrink_face_tri, V, F, mx)
            rec.ev(op='done', err=err, kept=kept(), max=vh.fx(mx), V2=vh.mat(r[0]) if err == '' else [], F2=rows(r[1], 3) if err == '' else [])
        else:
            chain(rec, V, F, mx, steps, fun)


def simplex(n, long):
    """vertices whose pairwise distances are below one except on the given edges"""
    D = np.full((n, n), 0.9)
    np.fill_diagonal(D, 0.)
    for a, b in long:
        D[a, b] = D[b, a] = 1.1
    J = np.eye(n) - 1. / n
    w, u = np.linalg.eigh(-0.5 * J @ D @ J)
    return np.round(u * np.sqrt(np.maximum(w, 0)), 9)


def replay(rec):
    for k, c in enumerate(rec.cases):
        if k % rec.nshards != rec.shard:
            continue
        if c['op'] == 'refine':
            F = np.array(c['F'])
            V = simplex(int(F.max()) + 1, c['L'])
            chain(rec, V, F, 1., 1, 'none')
            if k % 11 == 0:
                chain(rec, V, F, 0.71, 2, ['none', 'shift'][k % 2])
        elif c['op'] == 'faces':
            F = np.array(c['F'])
            edges_one(rec, F)
            isface_one(rec, F, np.array([list(t) for t in itertools.permutations(range(4), 3)] + [[0, 0, 1], [0, 1, 0]]))
        else:
            V = np.array([[0., 0.], [1., 0.], [0., 1.], [1., 1.]])
            p = np.array(c['p'])
            trieq_one(rec, V, np.array(c['F']), V[p] + 0.001 * (1 - 2 * (k % 2)) * np.eye(4, 2), np.array(c['G']), 0.01)


# ------------------------------------------------------- sphere, circle, tube
ARCS = (None, (0., 1.5), (-1., 5.), (2., 2.5), (3., -3.))


def sphere_one(rec, d):
    err, r = call(tri.sphere_tri, d)
    bad = not np.isscalar(d) or d < 0 or d != int(d)
    rec.ev(op='sphere', depth=-1 if bad else int(d), bad=bool(bad), err=err, V=vh.mat(r[0]) if err == '' else [], F=rows(r[1]) if err == '' else [], kept=True)


def part_one(rec, n):
    err, r = call(sphere_part, n)
    rec.ev(op='spherepart', n=int(n), err=err, pts=vh.mat(r) if err == '' else [], kept=True)


def arc_one(rec, n, rg):
    for apart in (False, True):
        a = None if rg is None else np.array(rg)
        kept = Kept(a)
        err, r = call(circle_part, n, apart) if rg is None else call(circle_part, n, apart, a)
        ok, pts = True, []
        if err == '':
            ok = (np.shape(r) == (n, 2)) if not apart else isinstance(r, tuple) and len(r) == 2 and all(np.shape(x) == (n, 1) for x in r)
            pts = vh.mat(np.hstack(r) if apart and ok else r) if ok else []
        rg2 = rg or (0., 2 * np.pi)
        rec.ev(op='circle', n=int(n), a=vh.fx(rg2[0]), b=vh.fx(rg2[1]), err=err, pts=pts, okshape=bool(ok), kept=kept())


def ext_one(rec, d, n):
    bad = n <= 0 or n != int(n)
    for grid in (False, True) if d == 2 else (True,):
        err, r = call(tri.sphere_tri_ext, d, n, grid)
        two = isinstance(r, tuple)
        if err == '' and d == 2 and two != grid:
            err = 'shape'
        V, F = r if two else (r, np.zeros((0, 3)))
        rec.ev(op='sphereext', dim=int(d), n=-1 if bad else int(n), bad=bool(bad), err=err, faces=bool(grid), V=vh.mat(V) if err == '' else [], F=rows(F) if err == '' else [], kept=True)


def tube_one(rec, n, m):
    if m > 1:
        err, r = call(tri.ell_tube_2_tri, n, m)
        rec.ev(op='tube', n=n, m=m, err=err, F=rows(r) if err == '' else [], kept=True)
    for k in (n, n - 2):
        err, r = call(tri.ell_tube_discr_tri, k, m)
        rec.ev(op='discr', n=int(k), m=m, err=err, G=rows(r) if err == '' else [], kept=True)


def partitions(rec):
    rng = rec.rng
    cases = [('sphere', d) for d in ([0, 1, 2, 0, 1, 2.0, 3, -1, 1.5, np.array([1, 2])] + ([4] if rec.tier == 'thorough' else []))]
    ns = list(range(1, 33)) + [40, 64, 100] if rec.tier == 'quick' else list(range(1, 161)) + [321, 322, 400]
    cases += [('circle', n) for n in ns] + [('part', n) for n in list(range(-1, 45)) + [81, 82] + ([100, 150, 321] if rec.tier == 'thorough' else [])]
    cases += [('ext', 2, n) for n in ns] + [('ext', 3, n) for n in [1, 5, 11, 12, 13, 41, 42, 43, 100, 161, 162, 163] + ([641, 642, 643, 1000] if rec.tier == 'thorough' else [])]
    cases += [('ext', d, n) for d in (2, 3) for n in (0, -3, 2.5)]
    for c in cases:
        if not rec.mine():
            continue
        if c[0] == 'sphere':
            sphere_one(rec, c[1])
        elif c[0] == 'part':
            part_one(rec, c[1])
        elif c[0] == 'circle':
            for rg in ARCS:
                arc_one(rec, c[1], rg)
            for _ in range(2 if rec.tier == 'quick' else 6):                  # any arc, in either direction
                arc_one(rec, c[1], tuple(float(x) for x in np.round(rng.uniform(-6.3, 6.3, 2), 3)))
        else:
            ext_one(rec, c[1], c[2])


def surface_replay(rec):
    """the sizes of the model"""
    for k, c in enumerate(rec.cases):
        if k % rec.nshards != rec.shard:
            continue
        o, n = c['op'], c['n']
        if o == 'tube':
            tube_one(rec, n, c['m'])
        elif o == 'sphere':
            sphere_one(rec, n)
        elif o == 'arc':
            arc_one(rec, n, ARCS[c['k'] - 1])
        elif o == 'part':
            part_one(rec, n)
        else:
            ext_one(rec, 2 if o == 'ext2' else 3, n)


def tubes(rec):
    top = (9, 8) if rec.tier == 'quick' else (17, 14)
    for n in range(3, top[0]):
        for m in range(1, top[1]):
            if rec.mine():
                tube_one(rec, n, m)
