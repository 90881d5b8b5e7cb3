"""Argument domains: the descriptions enumerated by the specification, realised and tried on the real operations."""
import numpy as np
from vh import call
from ellipy.elltool.conf.properties.Properties import Properties
from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid
from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane
from ellipy.elltool.core import core
from ellipy.gen.common import common
from ellipy.gen.dict import dict as dct
from ellipy.gras.gen import gen
from ellipy.gras.geom import geom
from ellipy.gras.geom.ell import ell
from ellipy.gras.geom.sup import sup
from ellipy.gras.geom.tri import tri
from ellipy.gras.la import la
from ellipy.gras.sym import sym

E = Ellipsoid
H = Hyperplane
SQ, MV, SM = gen.SquareMatVector, gen.MatVector, gen.SymmetricMatVector
COUNTS = {'sphere_tri': 2, 'sphere_tri_ext2': 12, 'sphere_tri_ext3': 40, 'sphere_part': 7}
ICO = tri.icosahedron()[0].T


def arr(op, k, sh, v):
    sh = tuple(sh)
    n = int(np.prod(sh))
    if v == 'text':
        return np.array(['t*2'] * n, dtype=object if n == 0 else str).reshape(sh)
    if op.startswith('sup_geom') and k == 2:
        if sh == (3, 12):
            return ICO.copy()
        if len(sh) == 2 and sh[0] == 2:
            a = np.linspace(0, 2 * np.pi, sh[1], endpoint=False)
            return np.array([np.cos(a), np.sin(a)])
        if sh == (3, 8):
            return np.array(np.meshgrid([-1.0, 1.0], [-1.0, 1.0], [-1.0, 1.0])).reshape(3, 8) / np.sqrt(3)
        return np.ones(sh)
    if op.startswith('sup_geom'):
        return np.full(sh, 2.0 if v == 'sym' else 1.0)
    if op == 'get_face_edge_info':
        return np.add.outer(np.arange(sh[0]), np.arange(sh[1])) if len(sh) == 2 else np.arange(sh[0])
    if op.endswith('rep_mat'):
        return np.full(sh, dict(eye=1.0, sym=2.0, zero=0.0, half=0.5, neg=-1.0).get(v, 1 + 1j))
    if v == 'zero':
        return np.zeros(sh)
    if len(sh) == 1:
        a = dict(eye=np.ones(n), sym=2.0 + np.arange(n), asym=3.0 + np.arange(n), ind=(-1.0) ** np.arange(n)).get(v, np.full(n, 1 + 1j))
        return a
    r, c = sh[:2]
    m = np.eye(r, c)
    m[:, r:] = 1.0
    if v in ('sym', 'asym'):
        m = 3 * np.eye(r, c) + 1.0
        if v == 'asym' and c > 1:
            m[0, c - 1] += 1.0
    elif v == 'ind':
        m = np.diag((-1.0) ** np.arange(max(r, c)))[:r, :c]
    elif v == 'imag':
        m = m * (1 + 1j)
    return m if len(sh) == 2 else np.multiply.outer(m, np.ones(sh[2:]))


def obj(v):
    def e(k=0):
        return E(np.zeros(2), np.array([[2.0 + k, 0.5], [0.5, 1.0]]))

    def h(k=0):
        return H(np.array([1.0, 2.0 + k]), 1.0)

    def grid(f, sh):
        a = np.empty(int(np.prod(sh)), dtype=object)
        for i in range(a.size):
            a[i] = f(i)
        return a.reshape(sh)
    return dict(ell=lambda: e(), ells=lambda: [e(), e(1), e(2)], ellmat=lambda: grid(e, (2, 2)), hyp=lambda: h(),
                hyps=lambda: [h(), h(1), h(2)], hypmat=lambda: grid(h, (2, 2)), mixed=lambda: [e(), h(), e(1)],
                mixed2=lambda: np.array([h(), h(1), e()], dtype=object), number=lambda: 5.0, numbers=lambda: [1.0, 2.0], str=lambda: 'ell',
                none=lambda: None, dict=lambda: dict(a=1.0, b='x'), dicts=lambda: [dict(a=1.0, b='x')],
                dictarray=lambda: np.array([dict(a=1.0, b='x')], dtype=object), empty=lambda: [], dictmixed=lambda: [dict(a=1.0, b='x'), 1.0],
                numarray=lambda: np.array([1.0, 2.0]), tuple=lambda: (dict(a=1.0),))[v]()


def sets(t, sh, es):
    """ellipsoids or hyperplanes as described"""
    out = np.empty(len(es), dtype=object)
    for i, e in enumerate(es):
        n, k = e['n'], e['k']
        if t == 'hset':
            out[i] = H() if k == 'empty' else H(np.arange(1.0, n + 1.0), 1.0 + i)
        elif k == 'empty':
            out[i] = E()
        else:
            q = (2.0 + i) * np.eye(n) + 1.0
            if k == 'flat':
                q = np.diag(np.arange(n) * 1.0)
            out[i] = E(np.full(n, 10.0 if k == 'far' else 0.1), q)
    return out.reshape(sh)


def real(op, k, a):
    t = a['t']
    if t in ('set', 'hset'):
        return sets(t, a['sh'], a['es'])
    if t == 'arr':
        return arr(op, k, a['sh'], a['v'])
    if t == 'num':
        pos = COUNTS.get(op, 1e-7)
        return dict(neg=-1 if op in COUNTS else -1.0, zero=0 if op in COUNTS else 0.0, pos=pos, half=0.5, imag=1 + 1j)[a['v']]
    if t == 'str':
        return a['s']
    return dict(none=lambda: None, fun=lambda: np.abs, obj=lambda: obj(a['v']))[t]()


D2 = np.array([[1.0], [0.5]])
P2 = np.array([[1.0, 0.0, 0.2], [0.5, 0.1, 3.0]])
ELL = {k: getattr(E, k) for k in ('dimension', 'is_empty', 'is_degenerate', 'trace', 'volume', 'min_eig', 'max_eig', 'get_copy', 'uminus', 'polar',
                                  'to_dict', 'get_abs_tol', 'get_rel_tol', 'get_n_plot_2d_points', 'get_n_plot_3d_points')}
ELL.update(projection=lambda x: E.projection(x, D2), get_projection=lambda x: E.get_projection(x, D2), rho=lambda x: E.rho(x, D2),
           minksum_ea=lambda x: E.minksum_ea(x, D2), minksum_ia=lambda x: E.minksum_ia(x, D2), is_internal=lambda x: E.is_internal(x, P2, 'u'),
           is_equal=lambda x: E.is_equal(x, obj('ell')), is_equal2=lambda x: E.is_equal(obj('ell'), x), is_bigger=lambda x: obj('ell').is_bigger(x),
           to_dict_tol=lambda x: E.to_dict(x, False, 1e-7))
HYP = {k: getattr(H, k) for k in ('dimension', 'is_empty', 'get_copy', 'uminus', 'to_dict', 'get_abs_tol', 'get_rel_tol')}
HYP.update(contains=lambda x: H.contains(x, D2), is_parallel=lambda x: H.is_parallel(x, obj('hyp')), is_parallel2=lambda x: H.is_parallel(obj('hyp'), x),
           is_equal=lambda x: H.is_equal(x, obj('hyp')), is_equal2=lambda x: H.is_equal(obj('hyp'), x))
OPS = {'is_mat_symm': la.is_mat_symm, 'is_mat_pos_def': la.is_mat_pos_def, 'is_mat_not_deg': la.is_mat_not_deg, 'sqrtm_pos': la.sqrtm_pos,
       'reg_pos_def_mat': la.reg_pos_def_mat, 'reg_mat': la.reg_mat, 'try_treat_as_real': la.try_treat_as_real, 'orth_transl': la.orth_transl,
       'orth_transl_qr': la.orth_transl_qr, 'inv_mat': ell.inv_mat, 'quad_mat': ell.quad_mat, 'sort_rows_tol': gen.sort_rows_tol,
       'sqrt_pos': gen.sqrt_pos, 'lr_multiply': SQ.lr_multiply, 'lr_svd_multiply': SM.lr_svd_multiply, 'r_multiply': MV.r_multiply,
       'r_multiply_by_vec': MV.r_multiply_by_vec, 'mat_dot': gen.mat_dot, 'make_pos_definite_by_eig': SQ.make_pos_definite_by_eig,
       'from_expression': lambda s: MV.from_expression(s, np.array([0.5, 1.5])), 'sphere_tri': tri.sphere_tri,
       'sphere_tri_ext2': lambda n: tri.sphere_tri_ext(2, n), 'sphere_tri_ext3': lambda n: tri.sphere_tri_ext(3, n, True),
       'sphere_part': geom.sphere_part, 'sup_geom_diff_2d': sup.sup_geom_diff_2d, 'sup_geom_diff_3d': sup.sup_geom_diff_3d,
       'get_face_edge_info': tri.get_face_edge_info, 'var_replace': sym.var_replace, 'ell_sim_diag': core.ell_sim_diag,
       'ell_valign': core.ell_valign, 'abs_rel_compare': common.abs_rel_compare, 'dict_compare': dct.dict_compare,
       'rep_mat': lambda s: obj('ell').rep_mat(s), 'h_rep_mat': lambda s: obj('hyp').rep_mat(s)}
OPS.update({'e.' + k: f for k, f in ELL.items()})
OPS.update({'h.' + k: f for k, f in HYP.items()})


PLANE = {'s.rho': E.rho, 's.minksum_ea': E.minksum_ea, 's.minksum_ia': E.minksum_ia, 's.get_projection': E.get_projection, 's.projection': E.projection,
         's.is_internal': E.is_internal, 's.polar': E.polar, 's.is_bigger': lambda s, r: s[0].is_bigger(r), 's.is_equal': E.is_equal,
         's.h_is_equal': H.is_equal, 's.contains': H.contains}
for name in ('get_boundary', 'get_rho_boundary', 'get_boundary_by_factor', 'get_rho_boundary_by_factor'):
    PLANE['s.' + name] = lambda s, n, name=name: getattr(s[0], name)(n)
    COUNTS['s.' + name] = 14 if name.endswith('boundary') else 2
for name in ('is_degenerate', 'trace', 'volume', 'min_eig', 'max_eig'):
    PLANE['s.' + name] = getattr(E, name)
OPS.update(PLANE)


def state(x):
    """what an argument is, to tell whether a call changed it"""
    if isinstance(x, (E, H)):
        return [v.tobytes() if isinstance(v, np.ndarray) else v for v in x.parameters()]
    if isinstance(x, (list, tuple)) or isinstance(x, np.ndarray) and x.dtype == object:
        return [list(np.shape(x)), [state(y) for y in np.ravel(np.array(x, dtype=object))]]
    if isinstance(x, np.ndarray):
        return [x.dtype.str, x.shape, x.tobytes()]
    return repr(x)


def arguments(rec):
    np.seterr(all='ignore')
    for c in rec.cases:
        if not rec.mine():
            continue
        op = c['op']
        args = [real(op, k, a) for k, a in enumerate(c['args'])]
        keep = [state(a) for a in args]
        err, _ = call(OPS[op], *args)
        kept = op in ('e.projection', 's.projection') or [state(a) for a in args] == keep
        rec.ev(op=op, args=c['args'], err=err, lib=err.startswith('lib:'), kept=bool(kept))
