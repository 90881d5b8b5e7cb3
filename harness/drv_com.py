"""Lookup of elements, caller names, errors, numeric data."""
import importlib
import logging
import os
import shutil
import sys
import tempfile
import warnings
import numpy as np
import vh
from vh import call, codes
from ellipy.gen.common.common import is_member, throw_error, throw_warn, get_caller_name, get_caller_name_ext, is_numeric
from ellipy.gen.logging.logging import get_logger


def elem(v):
    if isinstance(v, (str, np.str_)):
        return codes(str(v))
    return vh.fx(v)


def member_one(rec, a, b):
    ka, kb = np.array(a, copy=True), np.array(b, copy=True)
    err, r = call(is_member, a, b)
    rec.ev(op='member', a=[elem(v) for v in ka.flatten()], b=[elem(v) for v in kb.flatten()], ash=vh.shape(a), err=err,
           found=[bool(v) for v in np.asarray(r[0]).flatten()] if err == '' else [], fsh=vh.shape(r[0]) if err == '' else [],
           at=vh.ints(r[1]) if err == '' else [], kept=bool(np.array_equal(a, ka) and np.array_equal(b, kb)))


def member_replay(rec):
    kinds = [lambda v: np.array(v, dtype=int), lambda v: np.array(v, dtype=float), lambda v: np.array(['', 'a', 'ab', 'b'])[np.array(v, dtype=int)]]
    for k, c in enumerate(rec.cases):
        if k % rec.nshards == rec.shard:
            f = kinds[k // rec.nshards % 3]
            member_one(rec, f(c['a']), f(c['b']))


def member(rec):
    rng = rec.rng
    words = ['a', 'b', 'abs_tol', 'rel_tol', 'A', 'abs', '', 'x y']
    for _ in range(rec.count(1500, 60000)):
        k = rng.randint(0, 4)
        n, m = rng.randint(0, 7), rng.randint(0, 7)
        if rng.rand() < 0.04:
            n, m = [(rng.randint(7, 30), m), (n, rng.randint(7, 30)), (rng.randint(7, 20), rng.randint(7, 20))][rng.randint(3)]
        hi = rng.randint(1, 9)
        if k == 0:
            a, b = rng.randint(-hi, hi + 1, n), rng.randint(-hi, hi + 1, m)
        elif k == 1:
            a, b = rng.randint(-hi, hi + 1, n) / 4., rng.randint(-hi, hi + 1, m) / 4.
        elif k == 2:
            a, b = rng.randint(-hi, hi + 1, n) / 2., rng.randint(-hi, hi + 1, m)
        else:
            a, b = np.array(words, dtype=str)[rng.randint(0, 8, n)], np.array(words, dtype=str)[rng.randint(0, 8, m)]
        if rng.rand() < 0.3 and a.size % 2 == 0 and a.size:
            a = a.reshape((2, -1))
        if rng.rand() < 0.15 and b.size % 2 == 0 and b.size:
            b = b.reshape((-1, 2))
        if a.ndim == 1 and rng.rand() < 0.3 and a.size:
            a = a.tolist()
        if rng.rand() < 0.3 and np.size(b):
            b = b.tolist()
        member_one(rec, a, b)


# ---------------------------------------------------------------- caller names
MODULE = '''
class {cls}:
    def {meth}(self, path):
        return path[0](path[1:])

    def _inner(self, path):
        return path[0](path[1:])

    @staticmethod
    def fixed(path):
        return path[0](path[1:])

    @classmethod
    def made(cls, path):
        return path[0](path[1:])

    def ask(self, act):
        return act()


def plain(path):
    return path[0](path[1:])


def With_Case9(path):
    def nested(path):
        return path[0](path[1:])
    return nested(path)
'''


def world():
    d = tempfile.mkdtemp(prefix='names_', dir=os.environ.get('VERIF_TMP'))
    os.makedirs(os.path.join(d, 'vpkg', 'sub'))
    for p in ('vpkg', 'vpkg/sub'):
        open(os.path.join(d, p, '__init__.py'), 'w').close()
    mods = []
    leaf = '''

def leaf_ext(up=None):
    return get_caller_name_ext() if up is None else get_caller_name_ext(up)


def leaf_name(up, mode):
    return get_caller_name(up, mode) if up > 1 or mode != 'default' or len(__name__) % 2 else get_caller_name()


def leaf_throw(tag, say, up, throw):
    return throw_error(tag, say, up, throw)


def leaf_plain(tag, say):
    throw_error(tag, say)


def leaf_warn(tag, say):
    throw_warn(tag, say)


def leaf_logger():
    return get_logger()


class Leaf{k}:
    def leaf_ext(self, up=None):
        return get_caller_name_ext() if up is None else get_caller_name_ext(up)

    def leaf_name(self, up, mode):
        return get_caller_name(up, mode) if up > 1 or mode != 'default' or len(__name__) % 2 else get_caller_name()

    def leaf_throw(self, tag, say, up, throw):
        return throw_error(tag, say, up, throw)

    def leaf_plain(self, tag, say):
        throw_error(tag, say)

    def leaf_warn(self, tag, say):
        throw_warn(tag, say)

    def leaf_logger(self):
        return get_logger()
'''
    head = ('from ellipy.gen.common.common import throw_error, throw_warn, get_caller_name, get_caller_name_ext\n'
            'from ellipy.gen.logging.logging import get_logger\n')
    for k, (name, cls, meth) in enumerate([('vtop', 'Alpha', 'run'), ('vpkg.mod_one', 'betaClass', 'do_It'), ('vpkg.sub.Two', 'Gamma3', '__call__')]):
        with open(os.path.join(d, name.replace('.', '/') + '.py'), 'w') as f:
            f.write(head + MODULE.format(cls=cls, meth=meth) + leaf.format(k=k))
        mods.append((name, cls, meth))
    sys.path.insert(0, d)
    importlib.invalidate_caches()
    out = []
    for k, (name, cls, meth) in enumerate(mods):
        m = importlib.import_module(name)
        o = getattr(m, cls)()
        sub = type('Derived' + cls, (getattr(m, cls),), {})()      # the class of the object, not of the code
        lf = getattr(m, 'Leaf%d' % k)()
        f = lambda c, n, name=name: dict(mod=codes(name), cls=codes(c), fun=codes(n))
        steps = [(getattr(o, meth), [f(cls, meth)]), (o._inner, [f(cls, '_inner')]), (sub._inner, [f('Derived' + cls, '_inner')]),
                 (m.plain, [f('', 'plain')]), (getattr(m, cls).fixed, [f('', 'fixed')]), (getattr(m, cls).made, [f('', 'made')]),
                 (m.With_Case9, [f('', 'nested'), f('', 'With_Case9')])]
        out.append((steps, [(m, ''), (lf, 'Leaf%d' % k)], f))
    return out, d


def names(rec):
    rng = rec.rng
    mods, d = world()
    try:
        names_run(rec, rng, mods)
    finally:
        sys.path.remove(d)
        shutil.rmtree(d)


def names_run(rec, rng, mods):
    tags = ['wrongInput', 'wrongSizes', 'a:b', 'wrong_input', 'x.y', 'Tag']
    says = ['', 'Something is wrong.', 'value 1.5: bad', 'mixed CASE text', "it's"]
    for _ in range(rec.count(700, 20000)):
        path, frames = [], []
        for _ in range(rng.randint(0, 4)):
            steps, _, _ = mods[rng.randint(len(mods))]
            s, fr = steps[rng.randint(len(steps))]
            path.append(s)
            frames = fr + frames
        _, leaves, f = mods[rng.randint(len(mods))]
        owner, cls = leaves[rng.randint(2)]
        kind = ['ext', 'default', 'full', 'logger', 'bad', 'beyond', 'throw', 'plain', 'warn', 'give'][rng.randint(10)]
        fun = {'ext': 'leaf_ext', 'beyond': 'leaf_ext', 'default': 'leaf_name', 'full': 'leaf_name', 'bad': 'leaf_name', 'logger': 'leaf_logger',
               'throw': 'leaf_throw', 'give': 'leaf_throw', 'plain': 'leaf_plain', 'warn': 'leaf_warn'}[kind]
        frames = [f(cls, fun)] + frames
        up = int(rng.randint(1, len(frames) + 1))
        tag, say = tags[rng.randint(len(tags))], says[rng.randint(len(says))]
        g = getattr(owner, fun)
        bare = bool(rng.rand() < 0.5)
        act = {'ext': lambda p: g(up) if up > 1 or bare else g(), 'beyond': lambda p: g(10000), 'default': lambda p: g(up, 'default'), 'full': lambda p: g(up, 'full'),
               'bad': lambda p: g(up, 'short'), 'logger': lambda p: g(), 'throw': lambda p: g(tag, say, up, True), 'give': lambda p: g(tag, say, up, False),
               'plain': lambda p: g(tag, say), 'warn': lambda p: g(tag, say)}[kind]
        # the act itself is a frame of this file, so it only comes last: a step of a module calls it
        if len(frames) > 1:
            up = 1 if kind in ('plain', 'warn', 'logger') else up
            # frame 2 is the act (here); steps above it follow
            frames = [frames[0], dict(mod=codes(__name__), cls=codes(''), fun=codes('<lambda>'))] + frames[1:]
        else:
            up = 1
        run = (lambda: path[0](path[1:] + [act])) if path else (lambda: act(None))
        if kind in ('throw', 'give', 'plain', 'warn'):
            ev = dict(op='throw', mode={'plain': 'throw'}.get(kind, kind), frames=frames, up=up, tag=codes(tag), say=codes(say), err='', raised=False, type='', text=[])
            try:
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    r = run()
                if kind == 'give':
                    ev.update(type=type(r).__name__, text=codes(str(r)))
                elif kind == 'warn':
                    ev.update(type=w[0].category.__name__ if len(w) == 1 else 'none', text=codes(str(w[0].message)) if w else [])
            except ValueError as e:
                ev.update(raised=True, type=type(e).__name__, text=codes(str(e)))
            except Exception as e:
                ev['err'] = 'crash:' + type(e).__name__
            rec.ev(**ev)
            continue
        ev = dict(op='name', what=kind, frames=frames, up=up, err='', got=[], scope=[])
        try:
            r = run()
            if kind in ('ext', 'beyond'):
                ev.update(got=codes(r[0]), scope=codes(r[1]))
            elif kind == 'logger':
                ev.update(got=codes(r.name))
                for h in list(r.handlers):
                    r.removeHandler(h)
            else:
                ev.update(got=codes(r))
        except ValueError as e:
            ev['err'] = 'text:wrongInput' if 'wrongInput' in str(e) else 'crash:ValueError'
        except Exception as e:
            ev['err'] = 'crash:' + type(e).__name__
        rec.ev(**ev)


def numeric(rec):
    rng = rec.rng
    for _ in range(rec.count(500, 10000)):
        kind = ['bool', 'int', 'uint', 'float', 'complex', 'str', 'bytes', 'object', 'time', 'span'][rng.randint(10)]
        t = {'bool': [bool], 'int': [np.int8, np.int16, np.int32, np.int64], 'uint': [np.uint8, np.uint32, np.uint64],
             'float': [np.float16, np.float32, np.float64], 'complex': [np.complex64, np.complex128]}.get(kind)
        sh = tuple(rng.randint(0, 3, rng.randint(0, 4)))
        if t:
            v = np.array(rng.randint(0, 3, sh)).astype(t[rng.randint(len(t))])
            k = rng.rand()
            if k < 0.25:
                v = v.tolist() if v.size else v
            elif k < 0.35:
                v = {'bool': True, 'int': 3, 'uint': np.uint8(1), 'float': float('nan'), 'complex': 1j}[kind]
            elif k < 0.45 and kind in ('float', 'complex'):
                v = [1, 2., {'float': 3., 'complex': 1j}[kind]]
        else:
            v = {'str': ['a', ['a', 'b'], np.array(['1', '2']), '1', [1, 'a'], np.array([], dtype=str)], 'bytes': [b'1', np.array([b'a'])],
                 'object': [None, {}, np.array([1, 2.], dtype=object), [None, 1], object(), np.array([], dtype=object)],
                 'time': [np.datetime64('2020-01-01'), np.array(['2020-01-01'], dtype='datetime64[D]')],
                 'span': [np.timedelta64(1, 's'), np.array([1, 2], dtype='timedelta64[s]')]}[kind]
            v = v[rng.randint(len(v))]
        err, r = call(is_numeric, v)
        rec.ev(op='numeric', kind=kind, err=err, ans=bool(r) if err == '' else False)
