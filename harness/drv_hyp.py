"""Hyperplanes: membership, parallelism, description, negation."""
import numpy as np
import vh
from vh import call, rand_vec, rand_dir, layout
from drv_lib import unfx
from ellipy.elltool.conf.properties.Properties import Properties
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane

SPECIAL = {1: np.nan, 2: np.inf, 3: -np.inf}
TOLS = [1e-6, 1e-5, 1e-4, 1e-3, 0.01]


def value(x):
    return SPECIAL[x[0]] if len(x) == 1 else unfx(x)


def desc(n, s, tol):
    return dict(n=vh.vec(n), s=vh.fx(s), tol=vh.fx(tol))


def shaped(rng, objs):
    a = np.empty((len(objs),), dtype=object)
    for i, o in enumerate(objs):
        a[i] = o
    n = len(objs)
    shapes = [(n,), (1, n), (n, 1)] + ([(2, n // 2)] if n % 2 == 0 and n else []) + ([()] if n == 1 else [])
    return a.reshape(shapes[rng.randint(len(shapes))])


def given(rng, a):
    """the array, or a plain list of the same nesting, or the lone object"""
    k = rng.randint(0, 4)
    if k == 0:
        return a.tolist()
    return a


def state(objs):
    return [(vh.vec(h.double()[0]), vh.fx(h.double()[1]), vh.vec(Hyperplane.get_abs_tol(np.array([h]), None))) for h in objs]


def do_contains(rec, ds, objs, x, lst=True):
    """x: array (n, ...)"""
    rng = rec.rng
    h = shaped(rng, objs)
    sh = list(h.shape)
    arg = given(rng, h) if lst else h
    before, x0 = state(objs), x.copy()
    pts = vh.cols(x) if x.ndim > 1 else [vh.vec(x)]
    err, r = call(Hyperplane.contains, arg, x)
    ok = err == ''
    rec.ev(op='contains', hyps=ds, hsh=sh, pts=pts, xsh=list(x.shape[1:]), err=err,
           ans=[bool(v) for v in np.asarray(r).flatten()] if ok else [], ash=vh.shape(r) if ok else [],
           kept=before == state(objs) and bool(np.array_equal(x, x0, equal_nan=True)))


def do_parallel(rec, d1, o1, d2, o2, same):
    rng = rec.rng
    a, b = shaped(rng, o1), shaped(rng, o2)
    if same and len(o1) == len(o2):
        b = b.reshape(a.shape)
    before = state(o1 + o2)
    err, r = call(Hyperplane.is_parallel, given(rng, a), given(rng, b))
    e2, r2 = call(Hyperplane.is_parallel, b, a)
    rec.ev(op='parallel', first=d1, sh1=list(a.shape), second=d2, sh2=list(b.shape), err=err or e2,
           ans=[bool(v) for v in np.asarray(r).flatten()] if err == '' else [], ash=vh.shape(r) if err == '' else [],
           rev=[bool(v) for v in np.asarray(r2).flatten()] if e2 == '' else [], kept=before == state(o1 + o2))


def do_plane(rec, n, s, tol, bad=False):
    def build():
        nn = np.array(n, copy=True)
        h = Hyperplane(n, s, abs_tol=tol)
        one = np.array([h])
        pn, ps = h.parameters()
        dn, ds = h.double()
        neg = Hyperplane.uminus(one).flat[0] if rec.rng.rand() < 0.5 else -h
        neg2 = -neg
        out = dict(pn=vh.vec(pn), ps=vh.fx(ps), dn=vh.vec(dn), ds=vh.fx(ds), tol=vh.fx(Hyperplane.get_abs_tol(one, None).flat[0]),
                   dim=int(Hyperplane.dimension(one).flat[0]), empty=bool(Hyperplane.is_empty(one).flat[0]),
                   negn=vh.vec(neg.parameters()[0]), negs=vh.fx(neg.parameters()[1]),
                   neg2n=vh.vec(neg2.parameters()[0]), neg2s=vh.fx(neg2.parameters()[1]))
        t = Hyperplane.to_dict(one, True)[0].flat[0]
        out.update(tn=vh.vec(t['normal_vec']), ts=vh.vec(t['shift']), bn=[], bs=vh.fx(0), btol=vh.fx(0))
        if not out['empty'] and np.any(np.asarray(n) != 0):
            b = Hyperplane.from_dict([t]).flat[0]
            out.update(bn=vh.vec(b.parameters()[0]), bs=vh.fx(b.parameters()[1]), btol=vh.fx(Hyperplane.get_abs_tol(np.array([b]), None).flat[0]))
        out['kept'] = bool(np.array_equal(nn, n)) and vh.vec(h.double()[0]) == out['pn'] and vh.fx(h.double()[1]) == out['ps']
        return out
    err, r = call(build)
    d = dict(n=[], s=[4], tol=vh.fx(tol)) if bad else desc(n, np.real(np.asarray(s).flat[0]), tol)
    rec.ev(op='plane', h=d, bad=bad, err=err, **(r if err == '' else {}))


def replay(rec):
    Properties.init()
    for k, c in enumerate(rec.cases):
        if k % rec.nshards != rec.shard:
            continue
        n, s, tol = np.array([value(x) for x in c['h']['n']]), value(c['h']['s']), value(c['h']['tol'])
        if c['op'] == 'plane':
            do_plane(rec, n, s, tol)
        elif c['op'] == 'contains':
            x = np.array([value(v) for v in c['x']])
            do_contains(rec, [desc(n, s, tol)], [Hyperplane(n, s, abs_tol=tol)], x if k % 3 else x.reshape(-1, 1))
        else:
            m = np.array([value(v) for v in c['g']['n']])
            do_parallel(rec, [desc(n, s, tol)], [Hyperplane(n, s, abs_tol=tol)], [desc(m, 1., tol)], [Hyperplane(m, 1., abs_tol=tol)], True)


def rplane(rng, d, tol):
    n = rand_dir(rng, d)
    if rng.rand() < 0.2 and d > 1:
        n[rng.randint(d)] = 0.
        if np.linalg.norm(n) < 0.3:
            n[0] = 1.
    if rng.rand() < 0.2:
        n = n * rng.choice([10., 100., 0.1])
    return n, float(np.round(rng.uniform(-3, 3), 2) if rng.rand() < 0.8 else 0.)


def point(rng, n, s, tol):
    """a point on the plane, or next to it on either side of the tolerance, or anywhere"""
    x = rand_vec(rng, n.size)
    k = rng.randint(0, 6)
    if k < 5 and np.any(n):
        x = x + n * (s - n @ x) / (n @ n)
        off = [0., 0.4, 0.8, 1.3, 5.][k] * tol * rng.choice([1, -1])
        j = rng.randint(n.size)
        if abs(n[j]) > 1e-3 and rng.rand() < 0.5:
            x[j] += off / n[j]
        else:
            x = x + n * off / (n @ n)
    if rng.rand() < 0.12:
        j = rng.randint(n.size)
        x[j] = rng.choice([np.inf, -np.inf])
    return x


def geometry(rec):
    rng = rec.rng
    Properties.init()
    for _ in range(rec.count(2400, 80000)):
        d = rng.randint(1, 6) if rng.rand() < 0.94 else rng.randint(6, 11)
        tol = float(rng.choice(TOLS))
        k = rng.rand()
        if k < 0.5:
            m, K = [(1, 1), (1, 4), (3, 1), (3, 3), (4, 4), (2, 2), (1, 3), (6, 6), (3, 2), (2, 4)][rng.randint(10)] if rng.rand() < 0.96 else [(1, 13), (11, 1), (9, 9)][rng.randint(3)]
            hs = [rplane(rng, d, tol) for _ in range(m)]
            tols = [tol] * m if rng.rand() < 0.6 else [float(rng.choice(TOLS)) for _ in range(m)]
            if m > 1 and rng.rand() < 0.05:
                hs[-1] = rplane(rng, d + 1, tol)
            ds = [desc(n, s, t) for (n, s), t in zip(hs, tols)]
            pts = []
            for j in range(K):
                i = j if m == K else rng.randint(m)
                pts.append(point(rng, hs[i][0][:d], hs[i][1], tols[i]))
            x = np.array(pts).T
            k = rng.rand()
            if k < 0.04:
                x[rng.randint(d), rng.randint(K)] = np.nan
            elif k < 0.08:
                x = np.vstack((x, x[:1]))
            if K == 1 and rng.rand() < 0.5:
                x = x[:, 0]
            elif K % 2 == 0 and rng.rand() < 0.5:
                x = x.reshape((x.shape[0], 2, K // 2))
            elif K > 1 and rng.rand() < 0.2:
                x = x.reshape((x.shape[0], 1, K))
            if rng.rand() < 0.3:
                x = layout(rng, x)
            do_contains(rec, ds, [Hyperplane(n, s, abs_tol=t) for (n, s), t in zip(hs, tols)], x)
        elif k < 0.75:
            m, K = [(1, 1), (1, 4), (3, 1), (3, 3), (4, 4), (2, 2), (2, 3)][rng.randint(7)] if rng.rand() < 0.96 else [(1, 11), (12, 1), (9, 9)][rng.randint(3)]
            one, two = [], []
            base = [rplane(rng, d, tol) for _ in range(max(m, K))]
            if m == 1 or K == 1:
                base = [base[0]] * max(m, K)
            for i in range(m):
                one.append(base[i])
            for i in range(K):
                n, s = base[i % len(base)]
                k = rng.randint(0, 7)
                if k < 3:
                    n = n * rng.choice([2., -1., -0.5, 10., 1.])
                    s = float(np.round(rng.uniform(-3, 3), 2))
                elif k < 5:
                    n = n.copy()
                    n[rng.randint(d)] += np.linalg.norm(n) * tol * rng.choice([0.3, 5., 30., 1e3]) * rng.choice([1, -1])
                    n = n * rng.choice([1., -1., 3.])
                    if np.linalg.norm(n) < 1e-3:
                        n = n + 1.
                elif k == 5:
                    n, s = rplane(rng, rng.randint(1, 6), tol)
                two.append((n, s))
            t2 = tol if rng.rand() < 0.8 else float(rng.choice(TOLS))
            do_parallel(rec, [desc(n, s, tol) for n, s in one], [Hyperplane(n, s, abs_tol=tol) for n, s in one],
                        [desc(n, s, t2) for n, s in two], [Hyperplane(n, s, abs_tol=t2) for n, s in two], rng.rand() < 0.9)
        else:
            n, s = rplane(rng, d, tol)
            k = rng.rand()
            if k < 0.1:
                n = np.zeros(rng.randint(1, 4))
                s = float(rng.choice([0., tol * 0.5, tol * 3, 1.]))
            elif k < 0.15:
                n = np.array([tol * rng.choice([0.5, -0.5, 3., -3.])])
                s = float(tol * rng.choice([0.5, -0.5, 3., 0.]))
            elif k < 0.35:      # refused: not a numeric vector with finite entries and a finite number
                bad = [(np.ones((2, 2)), s), (np.array([1., np.nan]), s), (np.array([np.inf, 1.]), s), (np.array(['a', 'b']), s), ([1., 2.], s),
                       (n, np.nan), (n, np.inf), (n, 'x'), (n, np.array([1., 2.])), (n + 1j, s), (n, 1j), (n, -np.inf), (None, s)][rng.randint(13)]
                do_plane(rec, bad[0], bad[1], tol, True)
                continue
            v = n
            k = rng.randint(0, 5)
            if k == 0:
                v = n.reshape(-1, 1)
            elif k == 1:
                v = n.reshape(1, -1)
            elif k == 2:
                v = layout(rng, n)
            elif k == 3:
                v = n + 0j
            w = s
            if rng.rand() < 0.3:
                w = np.array([s]) if rng.rand() < 0.5 else np.float64(s)
            do_plane(rec, v, w, tol)
