"""Histories of the library: configuration, construction, copies, in-place projection, writes into
the user's arrays.  Every command is one public call; after each the whole observable state is
observed again and the differences to the previous observation are recorded."""
import numpy as np
import vh
from ellipy.elltool.conf.properties.Properties import Properties
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane

NUM = ['abs_tol', 'rel_tol', 'reg_tol', 'n_time_grid_points', 'n_plot_2d_points', 'n_plot_3d_points']
OTHER = ['version', 'is_verbose', 'ode_solver_name', 'is_ode_norm_control', 'is_enabled_ode_solver_options']
SETTERS = ['abs_tol', 'rel_tol', 'n_time_grid_points', 'n_plot_2d_points', 'n_plot_3d_points', 'is_verbose']
ALIAS = {'absTol': 'abs_tol', '_abs_tol': 'abs_tol', 'relTol': 'rel_tol', '_rel_tol': 'rel_tol',
         'nPlot2dPoints': 'n_plot_2d_points', 'nPlot3dPoints': 'n_plot_3d_points'}
ESET = ['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']


def unfx(x):
    """the number a fixed point tuple stands for"""
    v = 0
    for k in range(5, -1, -1):
        v = v * 10000 + x[k]
    return v / 1e12 if v % 10 ** 12 else float(v // 10 ** 12)


def other(x):
    return bool(x) if isinstance(x, (bool, np.bool_)) else x if isinstance(x, str) else 'odd ' + repr(x)


def get_cfg():
    c = {n: vh.fx(getattr(Properties, 'get_' + n)()) for n in NUM}
    c.update({n: other(getattr(Properties, 'get_' + n)()) for n in OTHER})
    return c


def dict_cfg():
    d = Properties.get_prop_dict()
    c = {n: vh.fx(d[n]) for n in NUM}
    c.update({n: other(d[n]) for n in OTHER})
    return c


def same_arr(a, b):
    return np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))


def obs_obj(o):
    try:
        if isinstance(o, Ellipsoid):
            c, q = o.double()
            ok = same_arr(c, o.get_center_vec()) and same_arr(q, o.get_shape_mat()) \
                and all(same_arr(x, y) for x, y in zip((c, q), o.parameters()))
            s = {n: vh.fx(o.get_property([o], n, None).flat[0]) for n in ESET}
            ok = ok and s['abs_tol'] == vh.fx(Ellipsoid.get_abs_tol([o], None).flat[0]) \
                and s['rel_tol'] == vh.fx(Ellipsoid.get_rel_tol([o], None).flat[0]) \
                and s['n_plot_2d_points'] == vh.fx(Ellipsoid.get_n_plot_2d_points([o]).flat[0]) \
                and s['n_plot_3d_points'] == vh.fx(Ellipsoid.get_n_plot_3d_points([o]).flat[0])
            ok = ok and all(vh.fx(o.get_property([o], a, None).flat[0]) == s[n] for a, n in ALIAS.items())
            q = np.asarray(q)
            return {'k': 'e' if ok else 'inconsistent accessors', 'c': vh.vec(c),
                    'q': vh.mat(q) if q.size else [], 's': s}
        n, sh = o.double()
        ok = all(same_arr(x, y) for x, y in zip((n, sh), o.parameters()))
        s = {p: vh.fx(o.get_property([o], p, None).flat[0]) for p in ('abs_tol', 'rel_tol')}
        ok = ok and all(vh.fx(o.get_property([o], a, None).flat[0]) == s[n] for a, n in ALIAS.items() if n in s) \
            and s['abs_tol'] == vh.fx(Hyperplane.get_abs_tol([o], None).flat[0]) \
            and s['rel_tol'] == vh.fx(Hyperplane.get_rel_tol([o], None).flat[0]) \
            and o.get_property([o], 'shift', None).flat[0] == sh
        return {'k': 'h' if ok else 'inconsistent accessors', 'c': vh.vec(n), 'q': [[vh.fx(sh)]], 's': s}
    except Exception as e:
        return {'k': 'unreadable ' + type(e).__name__, 'c': [], 'q': [], 's': {}}


def obs_arr(a):
    return {'sh': list(np.shape(a)), 'v': vh.vec(a)}


class Hist:
    def __init__(self, rec):
        self.rec, self.rng = rec, rec.rng
        Properties.init()
        self.objs, self.arrs = [], []
        self.cfg, self.oo, self.oa = get_cfg(), [], []
        rec.ev(op='reset', cfg=self.cfg)

    # --- one observed command; f returns (new objects, new arrays, extra)
    def cmd(self, e, f):
        err, r = vh.call(f)
        newo, newa, extra = r if err == '' else ([], [], True)
        e = dict(e)
        if e.get('kw') == []:
            e['kw'] = {}
        e['refused'] = err != ''
        if err and not err.startswith('lib:'):
            e['err'] = err
        cfg = get_cfg()
        e['cfgchg'] = cfg != self.cfg
        if e['cfgchg']:
            e['cfg'] = cfg
        e['dictok'] = dict_cfg() == cfg
        oo, oa = [obs_obj(o) for o in self.objs], [obs_arr(a) for a in self.arrs]
        e['dobj'] = [{'i': i + 1, 'x': x} for i, (x, y) in enumerate(zip(oo, self.oo)) if x != y]
        e['darr'] = [{'i': i + 1, 'x': x} for i, (x, y) in enumerate(zip(oa, self.oa)) if x != y]
        # a new object must be an object of its own, a new array must not be shared memory
        own = all(isinstance(o, (Ellipsoid, Hyperplane)) for o in newo) and \
            len({id(o) for o in newo} | {id(o) for o in self.objs}) == len(newo) + len(self.objs)
        e['extra'] = bool(extra and own)
        made = [obs_obj(o) for o in newo]
        marr = [obs_arr(a) for a in newa]
        e['made'], e['newarr'] = made, marr
        self.objs += newo
        self.arrs += newa
        self.cfg, self.oo, self.oa = cfg, oo + made, oa + marr
        self.rec.ev(**e)
        return not e['refused']

    def kw(self, kw):
        d = {}
        for k, v in (kw or {}).items():
            v = unfx(v)
            d[k] = int(v) if k.startswith('n_') and self.rng.rand() < 0.5 else float(v)
        return d

    def do(self, e):
        """execute a command given in the vocabulary of the specification"""
        op, rng = e['op'], self.rng
        if op == 'set':
            v = e['val'] if isinstance(e['val'], bool) else unfx(e['val'])
            if e['name'].startswith('n_'):
                v = int(v)
            return self.cmd(e, lambda: (getattr(Properties, 'set_' + e['name'])(v), ([], [], True))[1])
        if op == 'init':
            def f():
                if rng.rand() < 0.3:      # nothing there yet: asking for the configuration makes the built-in one
                    Properties.set_conf_repo_mgr(None)
                    return [], [], isinstance(Properties.get_conf_repo_mgr(), dict)
                Properties.init()
                return [], [], True
            return self.cmd(e, f)
        if op == 'repo':
            d = {n: (int(unfx(v)) if n.startswith('n_') else unfx(v)) if n in NUM else v for n, v in e['rec'].items()}
            return self.cmd(e, lambda: (Properties.set_conf_repo_mgr(d), ([], [], Properties.get_conf_repo_mgr() == d))[1])
        if op == 'defaultsdict':
            def f():
                d = Properties.get_prop_dict()
                for k in list(d):
                    d[k] = 5
                d['foreign'] = 1
                return [], [], True
            return self.cmd(e, f)
        if op == 'arr':
            v = [unfx(x) for x in e['a']['v']]
            a = np.array(v, dtype=float).reshape(e['a']['sh'])
            if 'lay' in e:
                a = vh.layout(rng, a)
            return self.cmd({k: x for k, x in e.items() if k != 'lay'}, lambda: ([], [a], True))
        if op == 'write':
            a = self.arrs[e['i'] - 1]
            if not a.flags.writeable:
                return True
            def f():
                a[np.unravel_index(e['k'] - 1, a.shape)] = unfx(e['x'])
                return [], [], True
            return self.cmd(e, f)
        if op == 'ell':
            args = [self.arrs[i - 1] for i in (e['c'], e['q']) if i > 0]
            kw = self.kw(e['kw'])
            if e['bad']:
                kw.update(self.badkw())
            shp = None if e['n'] == 1 and rng.rand() < 0.7 else [[e['n']], [1, e['n']], [e['n'], 1]][rng.randint(3)]

            def f():
                if shp is None:
                    return [Ellipsoid(*args, **kw)], [], True
                r = Ellipsoid.from_rep_mat(*args, shp, **kw)
                return list(r.flatten()), [], r.shape == tuple(shp)
            return self.cmd(e, f)
        if op == 'hyp':
            a, x = self.arrs[e['c'] - 1], unfx(e['x'])
            kw = self.kw(e['kw'])
            if e['bad']:
                kw.update(self.badkw())
            if rng.rand() < 0.3:
                x = np.array([x])

            def f():
                if e['n'] == 1:
                    return [Hyperplane(a, x, **kw)], [], True
                r = Hyperplane.from_rep_mat(a, x, [e['n']], **kw)
                return list(r.flatten()), [], r.shape == (e['n'],)
            return self.cmd(e, f)
        if op == 'read':
            o = self.objs[e['o'] - 1]

            def f():
                if isinstance(o, Hyperplane):
                    return [], [o.double()[0]], True
                if e['what'] == 'c':
                    return [], [o.get_center_vec()], True
                if e['what'] == 'q':
                    return [], [o.get_shape_mat()], True
                return [], list(o.double() if rng.rand() < 0.5 else o.parameters()), True
            return self.cmd(e, f)
        if op in ('copy', 'proj', 'getproj', 'neg'):
            os_ = [self.objs[i - 1] for i in e['os']]
            cls = type(os_[0])
            n = len(os_)
            arg = np.empty((n,), dtype=object)
            arg[:] = os_
            if rng.rand() < 0.4:
                arg = arg.reshape([(1, n), (n, 1)][rng.randint(2)])
            shp = arg.shape
            if rng.rand() < 0.3 and arg.ndim == 1:
                arg = list(os_)
            if n == 1 and rng.rand() < 0.3:
                arg, shp = os_[0], ()
            if op == 'copy':
                def f():
                    r = np.asarray(cls.get_copy(arg))
                    return list(r.flatten()), [], r.shape == shp or n == 1
            elif op == 'neg':
                def f():
                    if n == 1 and shp == ():
                        return [-os_[0]], [], True
                    r = cls.uminus(arg)
                    return list(r.flatten()), [], r.shape == shp
            else:
                b = np.zeros((e['n'], len(e['b'])))
                for j, t in enumerate(e['b']):
                    b[t['k'] - 1, j] = unfx(t['x'])
                b0 = b.copy()

                def f():
                    r = np.asarray((cls.projection if op == 'proj' else cls.get_projection)(arg, b))
                    flat = list(r.flatten())
                    kept = np.array_equal(b, b0)
                    if op == 'proj':
                        return [], [], kept and r.shape == shp and all(x is y for x, y in zip(flat, os_))
                    return flat, [], kept and (r.shape == shp or n == 1)
            return self.cmd(e, f)
        if op == 'rep':
            o = self.objs[e['o'] - 1]
            shp = [[e['n']], [1, e['n']], [e['n'], 1, 1]][rng.randint(3)]
            if rng.rand() < 0.3:
                shp = np.array(shp, dtype=float)

            def f():
                r = o.rep_mat(shp)
                return list(r.flatten()), [], r.shape == tuple(int(x) for x in shp)
            return self.cmd(e, f)
        if op == 'dict':
            o = self.objs[e['o'] - 1]
            cls = type(o)
            want = ({'shape_mat', 'center_vec'} if cls is Ellipsoid else {'normal_vec', 'shift'}) | \
                ((set(ESET) if cls is Ellipsoid else {'abs_tol', 'rel_tol'}) if e['props'] else set())

            def f():
                d = cls.to_dict([o], e['props'])[0]
                ok = d.shape == (1,) and set(d[0].keys()) == want
                given = d if rng.rand() < 0.5 else [d[0]]
                r = cls.from_dict(given)
                ok = ok and r.shape == (1,) and set(d[0].keys()) == want
                for v in d[0].values():          # the dictionary stays the user's
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v[...] = 99.
                return [r[0]], [], ok
            return self.cmd(e, f)
        if op == 'pure':
            os_ = [self.objs[i - 1] for i in e['os']]
            e = dict(e)

            def f():
                try:
                    made = self.pure(e, os_)
                except Exception:
                    made = []
                return made, [], True
            return self.cmd(e, f)
        raise AssertionError(op)

    def badkw(self):
        return [{'abs_tol': -1.}, {'rel_tol': 0.}, {'abs_tol': 'x'}, {'abs_tol': 1}, {'rel_tol': None},
                {'abs_tol': [1e-3]}][self.rng.randint(6)]

    def pure(self, e, os_):
        """operations that must leave everything alone; what they hand out is then overwritten"""
        rng = self.rng
        fun = e['f']
        o = os_[0]
        cls = type(o)
        made, out = [], []
        if cls is Ellipsoid:
            n = o.get_center_vec().size
            l = np.eye(n)[:, :1] + 0.5
            if fun == 'rho':
                out = Ellipsoid.rho(os_, l if rng.rand() < 0.5 else np.tile(l, (1, len(os_))))
            elif fun == 'minksum_ea':
                made = list(np.ravel(Ellipsoid.minksum_ea(os_, l)))
            elif fun == 'minksum_ia':
                made = list(np.ravel(Ellipsoid.minksum_ia(os_, l)))
            elif fun == 'polar':
                made = list(np.ravel(Ellipsoid.polar(os_)))
            elif fun == 'internal':
                out = [Ellipsoid.is_internal(os_, np.ones((n, 2)), 'ui'[rng.randint(2)])]
            elif fun == 'bigger':
                o.is_bigger(os_[-1])
            elif fun == 'boundary':
                out = [o.get_boundary(20)] + list(o.get_rho_boundary(20)) + [o.get_boundary_by_factor(0.5)]
            elif fun == 'chars':
                out = [Ellipsoid.dimension(os_), Ellipsoid.is_degenerate(os_), Ellipsoid.volume(os_), Ellipsoid.trace(os_),
                       Ellipsoid.min_eig(os_), Ellipsoid.max_eig(os_), Ellipsoid.is_empty(os_)]
        else:
            n = o.double()[0].size
            if fun == 'rho':
                Hyperplane.contains(os_, np.ones((n, 1)))
            elif fun == 'polar':
                Hyperplane.is_parallel(os_, os_)
            elif fun == 'chars':
                out = [Hyperplane.dimension(os_), Hyperplane.is_empty(os_)]
        if fun == 'equal':
            cls.is_equal(os_, os_, bool(rng.randint(2)))
            _ = os_[0] == os_[-1]
        elif fun == 'str':
            str(o)
        elif fun == 'props':
            out = [cls.get_abs_tol(os_, None), cls.get_property(os_, 'rel_tol', None), cls.get_rel_tol(os_)[0]]
        elif fun == 'todict':
            d = cls.to_dict(os_, True)
            out = [v for x in d[0].flatten() for v in x.values()]
            for x in d[0].flatten():
                x.clear()
            for x in d[1:]:
                x.clear()
        for x in out:
            if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype != object:
                x[...] = 77
        return made


FUNS = ['rho', 'minksum_ea', 'minksum_ia', 'polar', 'internal', 'bigger', 'boundary', 'chars', 'equal', 'str', 'props', 'todict']
F = vh.fx


def kinds(h, k):
    return [i + 1 for i, x in enumerate(h.oo) if x['k'] == k]


def whole(x):
    return all(v[0] == v[1] == v[2] == 0 for v in x)


def rand_cmd(h, mix):
    """a random command whose outcome the specification knows"""
    rng, rec = h.rng, h.rec
    r = rng.rand() * sum(mix.values())
    for op, w in mix.items():
        r -= w
        if r <= 0:
            break
    ells, hyps = kinds(h, 'e'), kinds(h, 'h')
    some = lambda s: s[rng.randint(len(s))]  # noqa: E731
    small = len(h.objs) > 10
    if op == 'set':
        n = some(SETTERS)
        v = bool(rng.randint(2)) if n == 'is_verbose' else F(some([5, 21, 64, 300])) if n.startswith('n_') \
            else F(some([1e-7, 3e-6, 1e-4, 0.002]))
        if n == 'is_verbose':
            v = False
        return dict(op='set', name=n, val=v)
    if op == 'init':
        return dict(op='init')
    if op == 'repo':
        d = dict(h.cfg)
        d['abs_tol'], d['n_plot_3d_points'] = F(some([2e-6, 4e-5])), F(some([8, 90]))
        return dict(op='repo', rec=d)
    if op == 'defaultsdict':
        return dict(op='defaultsdict')
    if op == 'arr':
        n = rng.randint(1, 4)
        if rng.rand() < 0.45:
            v = rng.randint(-4, 5, n)
            sh = [[n], [n, 1], [1, n]][rng.choice(3, p=[.7, .2, .1])]
        else:
            a = rng.randint(-2, 3, (n, rng.randint(1, n + 1)))
            v = a @ a.T if rng.rand() < 0.85 else rng.randint(-2, 3, (n, n))
            sh = [n, n]
        return dict(op='arr', a={'sh': sh, 'v': vh.vec(v)}, lay=1)
    wa = [i + 1 for i, x in enumerate(h.oa) if len(x['v'])]
    if op == 'write' and wa:
        i = some(wa)
        return dict(op='write', i=i, k=rng.randint(1, len(h.oa[i - 1]['v']) + 1), x=F(rng.randint(-5, 9)))
    kw = {}
    if rng.rand() < 0.5:
        for n in ESET:
            if rng.rand() < 0.5:
                kw[n] = F(some([7, 40])) if n.startswith('n_') else F(some([2e-7, 5e-6, 3e-4]))
    if op == 'ell' and h.arrs and not small:
        sq = [i + 1 for i, x in enumerate(h.oa) if len(x['sh']) == 2 and x['sh'][0] == x['sh'][1]]
        if rng.rand() < 0.05:
            return dict(op='ell', c=0, q=0, kw=kw, bad=False, n=1)
        if not sq:
            return None
        q = some(sq)
        cs = [i + 1 for i, x in enumerate(h.oa) if len(x['v']) == h.oa[q - 1]['sh'][0]] or [0]
        c = some(cs) if rng.rand() < 0.8 else 0
        if c and rng.rand() < 0.08:
            c = rng.randint(1, len(h.arrs) + 1)
        return dict(op='ell', c=c, q=q, kw=kw, bad=bool(rng.rand() < 0.06), n=int(some([1, 1, 1, 2, 3])))
    if op == 'hyp' and not small:
        vs = [i + 1 for i, x in enumerate(h.oa) if (len(x['sh']) == 1 or 1 in x['sh']) and whole(x['v'])
              and any(any(v) for v in x['v'])]
        if not vs:
            return None
        kw = {k: v for k, v in kw.items() if not k.startswith('n_')}
        return dict(op='hyp', c=some(vs), x=F(rng.randint(-4, 5)), kw=kw, bad=bool(rng.rand() < 0.06), n=int(some([1, 1, 2])))
    allo = list(range(1, len(h.objs) + 1))
    if not allo:
        return None
    o = some(allo)
    if op == 'read' and len(h.arrs) < 14:
        return dict(op='read', o=o, what=some('bcq'))
    grp = [i for i in (ells if h.oo[o - 1]['k'] == 'e' else hyps)]
    if op in ('copy', 'neg') and not small:
        return dict(op=op, os=[int(x) for x in rng.permutation(grp)[:rng.randint(1, 4)]])
    if op == 'rep' and not small:
        return dict(op='rep', o=o, n=int(rng.randint(1, 4)))
    if op == 'dict' and not small and h.oo[o - 1]['c']:
        if h.oo[o - 1]['k'] == 'h' and not any(any(v) for v in h.oo[o - 1]['c']):
            return None
        return dict(op='dict', o=o, props=bool(rng.randint(2)))
    if op in ('proj', 'getproj') and ells and not (small and op == 'getproj'):
        full = [i for i in ells if h.oo[i - 1]['c']]
        if not full:
            return None
        n = len(h.oo[some(full) - 1]['c'])
        grp = full if rng.rand() < 0.12 else [i for i in full if len(h.oo[i - 1]['c']) == n]
        m = rng.randint(1, n + 1) if n < 3 or rng.rand() < 0.4 else rng.randint(2, n + 1)
        ks = rng.permutation(n)[:m] if rng.rand() < 0.93 else rng.randint(0, n, m)
        return dict(op=op, os=[int(x) for x in rng.permutation(grp)[:rng.randint(1, 4)]], n=n,
                    b=[{'k': int(k) + 1, 'x': F(some([1, 1, -1, 2, -3, 0.5]))} for k in ks])
    if op == 'pure' and not small:
        grp = [i for i in grp if len(h.oo[i - 1]['c']) == len(h.oo[o - 1]['c'])]
        return dict(op='pure', f=some(FUNS), os=[int(x) for x in rng.permutation(grp)[:rng.randint(1, 4)]])
    return None


CFGMIX = dict(set=6, init=1, repo=1, defaultsdict=1, arr=3, ell=6, hyp=3, copy=2, rep=1, dict=2, neg=1, getproj=1, pure=1, write=.5, read=.5)
HEAPMIX = dict(set=.3, arr=4, write=5, ell=5, hyp=2, read=4, copy=2, rep=1, dict=1, proj=4, getproj=2, neg=1, pure=4)
COPYMIX = dict(set=1.5, arr=4, write=3, ell=5, hyp=4, read=1, copy=5, rep=4, dict=5, proj=2, getproj=1, neg=.5, pure=.5)


def random_histories(rec, mix, quick, thorough):
    for _ in range(rec.count(quick, thorough)):
        h = Hist(rec)
        n = 0
        for _ in range(60):
            e = rand_cmd(h, mix)
            if e is None:
                continue
            h.do(e)
            n += 1
            if n >= 22:
                break
    Properties.init()


def config(rec):
    random_histories(rec, CFGMIX, 240, 6000)


def heap(rec):
    random_histories(rec, HEAPMIX, 240, 6000)


def copies(rec):
    random_histories(rec, COPYMIX, 240, 6000)


def replay(rec):
    """histories printed by TLC"""
    for k, cmds in enumerate(rec.cases):
        if k % rec.nshards != rec.shard:
            continue
        h = Hist(rec)
        for e in cmds:
            h.do(e)
    Properties.init()
