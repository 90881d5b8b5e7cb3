"""Keyword parsing and constructors."""
import numpy as np
import vh
from drv_lib import unfx, NUM, OTHER
from ellipy.elltool.conf.properties.Properties import Properties
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane


def real(v, rng=None):
    """the Python value a tagged value stands for"""
    t = v['t']
    if t == 'float':
        x = float(unfx(v['x']))
        return np.float64(x) if rng is not None and rng.rand() < 0.3 else x
    return {'int': lambda: int(unfx(v['x'])), 'str': lambda: v['s'], 'bool': lambda: bool(v['b']), 'nan': lambda: float('nan'),
            'none': lambda: None, 'list': lambda: [1e-3]}[t]()


def tag(x):
    if isinstance(x, (bool, np.bool_)):
        return {'t': 'bool', 'b': bool(x)}
    if isinstance(x, (int, np.integer)):
        return {'t': 'int', 'x': vh.fx(x)}
    if isinstance(x, (float, np.floating)):
        return {'t': 'nan'} if x != x else {'t': 'float', 'x': vh.fx(x)}
    if isinstance(x, str):
        return {'t': 'str', 's': x}
    return {'t': 'none' if x is None else 'list'}


def defaults():
    d = Properties.get_prop_dict()
    return {k: tag(v) for k, v in d.items() if k in NUM + OTHER}


def one(rec, case):
    rng = rec.rng
    given = case['given'] if isinstance(case['given'], dict) else {}
    args = {k: real(v, rng) for k, v in given.items()}
    before = dict(args)
    dfl = defaults()
    needed = list(case['needed'])
    nd = list(needed)
    if case['all']:
        err, r = vh.call(Properties.parse_prop, args) if rng.rand() < 0.5 else vh.call(Properties.parse_prop, args, None)
    else:
        err, r = vh.call(Properties.parse_prop, args, needed)
    kept = list(args) == list(before) and all(args[k] is before[k] for k in args) and needed == nd and defaults() == dfl
    ev = dict(op='parse', all=case['all'], needed=nd, given=given, defaults=dfl, err=err, kept=kept, out=[], rest=[], restval=[])
    if err == '':
        out, rest = r
        ev.update(out=[tag(x) for x in out], rest=list(rest), restval=[tag(x) for x in rest.values()])
    rec.ev(**ev)


def replay(rec):
    Properties.init()
    for k, c in enumerate(rec.cases):
        if k % rec.nshards == rec.shard:
            one(rec, c)


BAD = {'abs_tol': [0., -1., 1], 'rel_tol': [0., 'x'], 'n_plot_2d_points': [2.5, 'a'], 'n_time_grid_points': [7.1, None], 'is_verbose': [1, 'on']}
GOOD = {'abs_tol': [1e-4, 2e-6], 'rel_tol': [1e-3, 1e-7], 'n_plot_2d_points': [5, 300], 'n_time_grid_points': [9, 11], 'is_verbose': [False],
        'n_plot_3d_points': [33, 60]}
NAMES = ['version', 'is_verbose', 'abs_tol', 'rel_tol', 'reg_tol', 'ode_solver_name', 'is_ode_norm_control',
         'is_enabled_ode_solver_options', 'n_plot_2d_points', 'n_plot_3d_points', 'n_time_grid_points']
POOL = [0.5, 1e-3, 7, 30., 2.5, 'ode45', 'ode23', 'v', True, False, None, 1, -0.25, 0., float('nan')]


def histories(rec):
    """parsing while the defaults change, also to values that are not valid settings"""
    rng = rec.rng
    for _ in range(rec.count(160, 6000)):
        Properties.init()
        for _ in range(8):
            if rng.rand() < 0.5:
                src = BAD if rng.rand() < 0.3 else GOOD
                n = list(src)[rng.randint(len(src))]
                getattr(Properties, 'set_' + n)(src[n][rng.randint(len(src[n]))])
            k = rng.randint(0, 5)
            needed = [NAMES[i] for i in rng.permutation(len(NAMES))[:k]]
            if rng.rand() < 0.05:
                needed.insert(rng.randint(len(needed) + 1), ['abs_tols', 'unknown', 'Abs_tol', ''][rng.randint(4)])
            given = {}
            for n in NAMES + ['foreign', 'center_vec']:
                if rng.rand() < 0.25:
                    v = POOL[rng.randint(len(POOL))]
                    if rng.rand() < 0.6 and n in GOOD:
                        v = GOOD[n][rng.randint(len(GOOD[n]))]
                    if n.startswith('n_') and isinstance(v, bool):
                        v = 12
                    given[n] = tag(v)
            one(rec, dict(all=bool(rng.rand() < 0.15), needed=needed, given=given))
    Properties.init()


# ------------------------------------------------------------------ constructors
def targ(a):
    """a constructor argument as the specification sees it"""
    if not isinstance(a, np.ndarray):
        return {'t': type(a).__name__}
    if a.dtype.kind not in 'biufc':
        return {'t': 'arr', 'kind': 'text', 'sh': list(a.shape), 'v': []}
    if a.dtype.kind == 'c':
        return {'t': 'arr', 'kind': 'complex', 'sh': list(a.shape), 'v': vh.vec(a.real), 'im': vh.vec(a.imag)}
    return {'t': 'arr', 'kind': 'real', 'sh': list(a.shape), 'v': vh.vec(a)}


def ctor_one(rec, kind, args, tol, shown=None):
    kw = {} if tol is None else {'abs_tol': tol}
    before = [np.array(a, copy=True) if isinstance(a, np.ndarray) else a for a in args]
    # arguments of no use to the model (a float shift) are shown as one-element arrays
    sh = shown or [targ(a) for a in before]
    err, o = vh.call((Ellipsoid if kind == 'e' else Hyperplane), *args, **kw)
    kept = all(not isinstance(a, np.ndarray) or (a.shape == b.shape and a.dtype == b.dtype and
               (a.tobytes() == b.tobytes() if a.dtype != object else True)) for a, b in zip(args, before))
    ev = dict(op='ctor', kind=kind, args=sh, tol=vh.fx(1e-6 if tol is None else tol), err=err, kept=kept, c=[], q=[])
    if err == '':
        if kind == 'e':
            c, q = o.double()
            ev.update(c=vh.vec(c), q=vh.mat(q) if q.size else [])
        else:
            n, s = o.double()
            ev.update(c=vh.vec(n), q=[[vh.fx(s)]])
    rec.ev(**ev)


def ctor(rec):
    rng = rec.rng
    Properties.init()
    for _ in range(rec.count(1200, 30000)):
        n = rng.randint(1, 5)
        tol = None if rng.rand() < 0.4 else float(rng.choice([1e-7, 1e-5, 1e-3, 0.02]))
        t = 1e-6 if tol is None else tol
        if rng.rand() < 0.7:                                      # ellipsoid
            q = vh.rand_spd(rng, n) if rng.rand() < 0.6 else vh.rand_psd(rng, n, rng.randint(0, n + 1))
            c = vh.rand_vec(rng, n)
            q, c = np.array(q, dtype=float), np.array(c, dtype=float)
            k = rng.randint(0, 16)
            if k == 0 and n > 1:                                  # not symmetric, above or below the tolerance
                i, j = rng.permutation(n)[:2]
                q[i, j] += rng.choice([0.3, 0.3, 5, 200, -200, -0.3]) * t
            elif k == 1:                                          # not semidefinite
                d = rng.uniform(0.3, 2, n)
                d[rng.randint(n)] = -rng.choice([0.3, 0.3, 6., 300.]) * t
                u = np.eye(n) if rng.rand() < 0.5 else vh.rand_orth(rng, n)
                q = u @ np.diag(d) @ u.T
                q = np.round(0.5 * (q + q.T), 11)
            elif k == 2:
                q[rng.randint(n), rng.randint(n)] = rng.choice([np.nan, np.inf, -np.inf])
            elif k == 3:
                c[rng.randint(n)] = rng.choice([np.nan, np.inf, -np.inf])
            elif k == 4:
                c = np.append(c, 1.) if rng.rand() < 0.5 else c[:-1]
            elif k == 5:
                q = np.hstack((q, np.ones((n, 1))))
            elif k == 6:
                q = q[:, :-1] if n > 1 else q.reshape(1, 1, 1)
            elif k == 7 and n > 1:
                c = np.tile(c, (2, 1))
            elif k == 8:
                q = q + 1j * rng.choice([0., 1e-9, 1.]) * (np.eye(n) if rng.rand() < 0.5 else np.ones((n, n)))
            elif k == 9:
                c = c + 1j * rng.choice([0., 1e-9, 1.])
            elif k == 10:
                c = rng.choice([list(c), None, 'abc', 3.])
            elif k == 11:
                q = np.array([['a'] * n] * n) if rng.rand() < 0.5 else q[0]
            elif k == 12:
                c = c.reshape(-1, 1) if rng.rand() < 0.5 else c.reshape(1, -1)
            if isinstance(c, np.ndarray) and c.dtype == float:
                c = vh.layout(rng, c)
            if q.dtype == float:
                q = vh.layout(rng, q)
            m = rng.rand()
            if m < 0.02:
                ctor_one(rec, 'e', [], tol)
            elif m < 0.25:
                ctor_one(rec, 'e', [q], tol)
            else:
                ctor_one(rec, 'e', [c, q], tol)
        else:
            v = np.array(vh.rand_vec(rng, n), dtype=float)
            s = float(np.round(rng.uniform(-3, 3), 3))
            k = rng.randint(0, 12)
            if k == 0:
                v[rng.randint(n)] = rng.choice([np.nan, np.inf])
            elif k == 1:
                s = float(rng.choice([np.nan, np.inf, -np.inf]))
            elif k == 2:
                v = np.tile(v, (2, 1)) if n > 1 else np.ones((2, 2))
            elif k == 3:
                v = [list(v), None, 'abc'][rng.randint(3)]
            elif k == 4:
                v = v + 1j * rng.choice([0., 1.])
            elif k == 5:
                s = np.array([s, 1.])
            elif k == 6:
                s = np.array([s]) if rng.rand() < 0.5 else np.array([[s]])
            elif k == 7:
                s = s + 1j * rng.choice([0.5, 1.])
            elif k == 8:
                s = 'abc'
            elif k == 9 and isinstance(v, np.ndarray):
                v = v.reshape(-1, 1) if rng.rand() < 0.5 else v.reshape(1, -1)
            elif k == 10:
                s = int(rng.randint(-3, 4))
            if isinstance(v, np.ndarray) and v.dtype == float:
                v = vh.layout(rng, v)
            args = [v, s]
            shown = [targ(v), targ(np.asarray(s))]
            ctor_one(rec, 'h', args, tol, shown)


def unarg(a, rng):
    """an argument of the model as a Python value"""
    t = a['t']
    if t != 'arr':
        return {'list': [1., 2.], 'NoneType': None, 'float': 2.5, 'str': 'abc'}[t]
    sh = tuple(a['sh'])
    if a['kind'] == 'text':
        return np.full(sh, 'a') if sh else 'abc'
    special = {1: float('nan'), 2: float('inf'), 3: float('-inf')}

    def arr(vs):
        x = np.array([special[v[0]] if len(v) == 1 else unfx(v) for v in vs], dtype=float)
        return x.reshape(sh)
    x = arr(a['v'])
    if a['kind'] == 'complex':
        x = x + 1j * arr(a['im'])
    elif sh and rng.rand() < 0.5:
        x = vh.layout(rng, x)
    return x if sh else x.item()


def ctor_replay(rec):
    Properties.init()
    for k, c in enumerate(rec.cases):
        if k % rec.nshards == rec.shard:
            ctor_one(rec, c['kind'], [unarg(a, rec.rng) for a in c['args']], None if rec.rng.rand() < 0.5 else 1e-6, shown=c['args'])
