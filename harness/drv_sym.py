"""Dependence on the time variable and substitution of variables in matrices of texts."""
import numpy as np
import vh
from vh import call, codes
from drv_la import Kept
from drv_pages import tree, text, plain, usable, val, pages
from ellipy.gras.sym.sym import is_dependent, var_replace
from ellipy.gras.gen.gen import MatVector

PIECES = ['t', 't', 'k', 'x', 'tt', 'xt', 't1', '1', '2.5', '_t', 't_', 'sin', 'cos', 'exp', '(', ')', '+', '-', '*', '/', ' ', ' ', '**', ',', '[', ']', '.', 'T', 'K',
          '\t', 'ж', 'é', 'tж', '1e', "'", '&', 'alpha', 'theta', 'kt', 'k']


def word(rng):
    return ''.join(PIECES[rng.randint(len(PIECES))] for _ in range(rng.randint(1, 9)))


def item(v):
    return dict(num=True, x=vh.fx(v), s=[]) if not isinstance(v, str) else dict(num=False, x=[], s=codes(v))


class KeptObj:
    def __init__(self, a):
        self.a, self.b = a, a.copy()

    def __call__(self):
        return bool(self.a.shape == self.b.shape and self.a.dtype == self.b.dtype and all(type(x) is type(y) and x == y for x, y in zip(self.a.reshape(-1), self.b.reshape(-1))))


def listed(m):
    return [v.item() if isinstance(v, np.generic) and not isinstance(v, np.str_) else str(v) if isinstance(v, str) else v for v in m.reshape(-1)]


def dep_one(rec, m, disc):
    kept = KeptObj(m)
    err, r = call(is_dependent, m, disc) if disc or rec.rng.rand() < 0.5 else call(is_dependent, m)
    rec.ev(op='dep', items=[item(v) for v in listed(m)], disc=bool(disc), err=err, ans=bool(r) if err == '' else False, kept=kept())


def sub_one(rec, m, frm, to, bad=False):
    kept = KeptObj(m)
    err, r = call(var_replace, m, frm, to)
    rec.ev(op='sub', items=[] if bad else [item(v) for v in listed(m)], **{'from': [] if bad else codes(frm)}, to=[] if bad else codes(to), bad=bad, err=err,
           outs=[codes(str(v)) for v in np.asarray(r).reshape(-1)] if err == '' and not bad else [], sh=vh.shape(r) if err == '' else [], ash=vh.shape(m), kept=kept())


def texts(rec):
    rng = rec.rng
    for _ in range(rec.count(2000, 60000)):
        z = rng.rand()
        sh = [(), (1,), (2,), (3,), (1, 1), (2, 2), (2, 3), (3, 1), (1, 4)][rng.randint(9)]
        n = int(np.prod(sh))

        def cell():
            if kind == 0 or (kind == 1 and rng.rand() < 0.5):
                return word(rng)
            x = [int(rng.randint(-9, 100)), float(np.round(rng.uniform(-5, 5), rng.randint(0, 7))), 0., 1., 0.125, 1234.5, 1e-6,
                 float(rng.uniform(-5, 5)), 2 / 7, float(rng.uniform(-1, 1)) * 1e-4][rng.randint(10)]
            return x
        kind = [0, 0, 0, 1, 1, 2, 3][rng.randint(7)]
        vals = [cell() for _ in range(n)]
        if kind == 3:
            vals = [int(v) for v in rng.randint(-50, 50, n)]
        if kind == 1:
            m = np.empty(n, dtype=object)
            m[:] = vals
            m = m.reshape(sh)
        else:
            m = np.array(vals).reshape(sh)
        if z < 0.4:
            dep_one(rec, m, bool(rng.rand() < 0.4))
        elif z < 0.8:
            frm = ['t', 't', 'k', 'x', 'tt', 't1', 'theta', '_t', 'sin', 'T', 'ж', 'alpha'][rng.randint(12)]
            to = [word(rng), 't', 'x+1', 'T-t', '1-t', '5', '', 'a\\1b', '\\g<0>', 'sin(t)', 't t'][rng.randint(11)]
            if rng.rand() < 0.06:
                j = rng.randint(3)
                a = [(m[:0] if m.ndim else np.array([]), frm, to), (m, 3, to), (m, frm, None)][j]
                sub_one(rec, *a, bad=True)
            else:
                sub_one(rec, m, frm, to)
        else:
            for _ in range(30):
                ts = [float(x) for x in np.round(rng.uniform(-1, 1, rng.randint(1, 4)), 2)]
                f, g = tree(rng, rng.randint(0, 4)), tree(rng, rng.randint(0, 3))
                try:
                    if usable([[g]], ts) and usable([[f]], [val(g, t) for t in ts]):
                        break
                except OverflowError:
                    pass
            else:
                continue
            comp_one(rec, f, g, ts)


def comp_one(rec, f, g, ts):
    rng = rec.rng
    m = np.array([[text(rng, f)]])
    err, r = call(var_replace, m, 't', text(rng, g))
    vals, dep, depf = [], False, False
    if err == '':
        err, o = call(MatVector.from_formula_mat, r, np.array(ts))
        vals = vh.vec(o[0, 0, :]) if err == '' else []
        err2, dep = call(is_dependent, r)
        err3, depf = call(is_dependent, m)
        err = err or err2 or err3
    rec.ev(op='comp', f=plain(f), g=plain(g), t=[vh.fx(t) for t in ts], text=str(m[0, 0])[:200], err=err, vals=vals, dep=bool(dep), depf=bool(depf), kept=True)


def replay(rec):
    for k, c in enumerate(rec.cases):
        if k % rec.nshards != rec.shard:
            continue
        s, frm, to = (''.join(chr(z) for z in c[q]) for q in ('s', 'from', 'to'))
        sub_one(rec, np.array([s, '1'])[:1 + k % 2], frm, to)
        if frm == 't':
            dep_one(rec, np.array([['0', s]]), False)
            dep_one(rec, np.array(s.replace('t', 'k')), True)
