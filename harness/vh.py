"""Shared recording helpers.  Everything that judges lives in /verif/specs; this file
only drives the public interface of the library and writes down what it observed."""
import json, os, random, signal, sys, warnings
import numpy as np
warnings.simplefilter('ignore')
np.seterr(all='ignore')

SCALE = 10 ** 12
LIM = 10 ** 9


def fx(x):
    """A float as six base-10^4 limbs (twelve decimals); non-finite values as 1-tuples."""
    try:
        if isinstance(x, (np.ndarray,)):
            if x.size != 1:
                return [4]
            x = x.reshape(-1)[0]
        if isinstance(x, (complex, np.complexfloating)):
            if x.imag != 0:
                return [4]
            x = x.real
        x = float(x)
    except Exception:
        return [4]
    if x != x:
        return [1]
    if x == float('inf'):
        return [2]
    if x == -float('inf'):
        return [3]
    if abs(x) > LIM:
        return [4]
    n, d = x.as_integer_ratio()
    v = (2 * n * SCALE + d) // (2 * d)
    out = []
    for _ in range(5):
        out.append(int(v % 10000))
        v //= 10000
    out.append(int(v))
    return out


def vec(a):
    try:
        return [fx(v) for v in np.asarray(a).reshape(-1)]
    except Exception:
        return [[4]]


def mat(a):
    """rows of a 2-d array"""
    try:
        a = np.asarray(a)
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a.reshape(1, -1)
        elif a.ndim > 2:
            a = a.reshape(a.shape[0], -1)
        return [[fx(v) for v in row] for row in a]
    except Exception:
        return [[[4]]]


def cols(a):
    """columns of a 2-d array"""
    a = np.asarray(a)
    return [[fx(v) for v in c] for c in a.reshape(a.shape[0], -1).T]


def ints(a):
    out = []
    for v in np.asarray(a).reshape(-1):
        try:
            f = float(v)
            out.append(int(f) if f == int(f) and abs(f) < 2 ** 31 - 1 else -2147483647)
        except Exception:
            out.append(-2147483647)
    return out


def shape(a):
    try:
        return [int(v) for v in np.shape(a)]
    except Exception:
        return [-1]


def codes(s):
    return [ord(ch) for ch in s]


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)

TAGS = ['wrongInput', 'wrongSizes', 'degenerateEllipsoid', 'wrongDim', 'wrong_input', 'wrongState', 'noConfRepoMgr']


def call(f, *a, **k):
    """(error class, value): '' when the call returned; the tag of a library error;
    'crash:<type>' for anything else."""
    limit = k.pop('_limit', 60)
    signal.alarm(limit)
    try:
        r = f(*a, **k)
        return '', r
    except Timeout:
        return 'crash:timeout', None
    except ValueError as e:
        s = str(e)
        for t in TAGS:
            if t in s:
                return 'lib:' + t, None
        return 'crash:ValueError', None
    except Exception as e:
        return 'crash:' + type(e).__name__, None
    except SystemExit:
        return 'crash:SystemExit', None
    finally:
        signal.alarm(0)


class Rec:
    def __init__(self, path, seed, shard, nshards, tier):
        self.f = open(path, 'w')
        self.n = 0
        self.seed, self.shard, self.nshards, self.tier = seed, shard, nshards, tier
        self.rng = np.random.RandomState((seed * 1000003 + shard * 7919 + 17) % (2 ** 32))
        self.py = random.Random(seed * 1000003 + shard * 7919 + 17)
        self.k = 0

    def mine(self):
        """round-robin distribution of enumerated cases over the shards"""
        self.k += 1
        return self.k % self.nshards == self.shard

    def count(self, quick, thorough):
        """number of random cases of this shard"""
        tot = quick if self.tier == 'quick' else thorough
        return tot // self.nshards + (1 if tot % self.nshards > self.shard else 0)

    def ev(self, **k):
        self.f.write(json.dumps(k, separators=(',', ':')) + '\n')
        self.n += 1

    def close(self):
        self.f.close()


# ---------------------------------------------------------------- generators

def dec(x, digits=3):
    return np.round(x, digits)


def rand_orth(rng, n):
    q, r = np.linalg.qr(rng.randn(n, n))
    return q * np.sign(np.diag(r))


def rand_spd(rng, n, lo=0.2, hi=4.0, whole=True):
    """well-conditioned random symmetric matrix"""
    k = rng.randint(0, 5) if whole else rng.choice([0, 2, 3])
    if k == 0:
        q = np.diag(dec(rng.uniform(lo, hi, n), 2))
    elif k == 1:
        a = rng.randint(-3, 4, (n, n)).astype(float)
        q = a @ a.T + np.eye(n)
    else:
        u = rand_orth(rng, n)
        q = u @ np.diag(rng.uniform(lo, hi, n)) @ u.T
        q = dec(0.5 * (q + q.T), 4)
    return q


def rand_psd(rng, n, rank, lo=0.2, hi=4.0):
    """random positive semidefinite matrix of the given rank, exactly symmetric"""
    if rng.rand() < 0.4:
        d = np.zeros(n)
        d[rng.permutation(n)[:rank]] = dec(rng.uniform(lo, hi, rank), 2)
        return np.diag(d)
    while True:
        a = rng.randint(-2, 3, (n, rank)).astype(float)
        if rank == 0 or np.linalg.matrix_rank(a) == rank:
            return a @ a.T


def rand_vec(rng, n, s=2.0):
    if rng.rand() < 0.3:
        return rng.randint(-3, 4, n).astype(float)
    return dec(rng.uniform(-s, s, n), 3)


def rand_dir(rng, n):
    while True:
        v = rand_vec(rng, n)
        if np.linalg.norm(v) > 0.3:
            return v


def layout(rng, a):
    """the same numbers under a different memory layout or integer type"""
    a = np.asarray(a)
    k = rng.randint(0, 5)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1 and a.ndim >= 1:
        b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == 2 and a.size and np.all(np.abs(a) < 1e9) and np.all(a == np.round(a)):
        return a.astype(int)
    return a
