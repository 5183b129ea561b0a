"""Functions run both by CPython and by the interpreter (see selftest.py). Arguments: a, b vectors of 3; m, k matrices 4x3;
i, j small integers; x, y numbers; f 4 booleans; n vector of 4 integers."""
import math
from collections import defaultdict

import numpy as np


def vec_ops(a, b, x):
    return a + b * x - b / 2.0, np.cross(a, b), np.dot(a, b), -a, 1.0 - a, a @ b


def norms(a, m):
    return np.linalg.norm(a), np.linalg.norm(m, axis=1)


def slices(m, i):
    return m[1:], m[:, 1], m[::-1], m[i], m[-1], m[1:3, :2], m[i, 2], m[..., 0]


def stores(m, a, i):
    c = m.copy()
    c[0] = a
    c[1:3] = 0.0
    c[i, 2] = 7.0
    c[:, 0] += 1.0
    c[3] *= 2.0
    return c, m


def views(m):
    c = m.copy()
    v = c[1]
    v[0] = 5.0
    w = c[2].copy()
    w[0] = 9.0
    return c, v, w


def fancy(m, n, f):
    return m[n], m[np.array([0, 2])], m[f]


def masks(m, a):
    c = a.copy()
    c[c < 0] = 0.0
    return (a > 0), (m > 0).all(), (m > 100).any(), np.all(a == a), np.any(m < -1.0), c, ~(a > 0), (a > 0) & (a < 1), (a > 0) | (a < -1)


def reductions(m, a):
    return m.sum(), m.sum(axis=0), m.min(), m.max(axis=0), a.mean(), np.sum(m, axis=1), np.max(a), np.min(m, axis=0), np.mean(m, axis=0), m.min(axis=1)


def building(m, a, b):
    return np.vstack((a, b)), np.vstack((m, a)), np.concatenate((m, m)), np.hstack((a, b)), np.array([a, b]), np.array([[1, 2], [3, 4]]), np.zeros((2, 3)), np.ones(2), np.full((2,), 3.5), np.zeros_like(m), np.eye(3), np.roll(a, 1), np.roll(a, -2), np.roll(m, 1, axis=0)


def shapes(m, a):
    return m.shape, len(m), m.ndim, m.size, m.T, m.flatten(), m.reshape((2, 6)), m.reshape((-1, 3)), a.reshape((1, 3)), m.ravel(), np.transpose(m)


def close(a, b, x, y):
    return np.isclose(a, b), np.allclose(a, a), np.allclose(a, a + 1e-3), np.isclose(x, y), np.isclose(x, x + 1e-9), np.allclose(a, b, atol=100.0), np.array_equal(a, b), np.array_equal(a, a.copy())


def rounding(a, x):
    return np.floor(a), np.ceil(a), math.floor(x), math.ceil(x), int(x), np.abs(a), abs(x), np.floor(x / 0.25), a.astype(np.int32)


def choose(a, b, x):
    return np.where(a > b, a, b), np.maximum(a, b), np.minimum(a, 0.0), np.clip(a, -1.0, 1.0), max(x, 1.0), min(a[0], a[1], a[2])


def nans(a, i):
    v = np.array([np.nan, 1.0, 2.0])
    w = a.copy()
    if i == 1:
        w[0] = np.nan
    return np.isnan(v), np.isnan(w).any(), np.isnan(a).any(), np.allclose(w, w), np.isfinite(a), np.nan == np.nan, w[0] < 1.0, w[0] != w[0], np.inf > a[0]


def ranges(i, j):
    return np.arange(i, i + j + 1), np.arange(4), np.linspace(0.0, 1.0, 5), list(range(j, -1, -1)), list(range(0, 10, 3))


def roots(x, y):
    return np.sqrt(x * x + y * y), math.sqrt(abs(x)), (x * x) ** 0.5, x**2, abs(x) ** 1.5 if False else x**3


def ints(i, j):
    return i // 3, i % 3, -i // 3, -i % 3, i / 4, divmod(i + 7, 3), i**2, i - 5 < j, -7 // 2, -7 % 3, i == j, (i + j) % 4


def loop_break(m, x):
    s, c = 0.0, 0
    for r in m:
        if r[0] > x:
            break
        s += r[1]
        c += 1
    else:
        s = -1.0
    return s, c


def loop_while(i):
    n, c = i + 11, 0
    while n != 1:
        n = n // 2 if n % 2 == 0 else 3 * n + 1
        c += 1
        if c > 40:
            break
    return n, c


def nested(m, x):
    out = []
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            if m[i, j] < x:
                continue
            out.append((i, j, m[i, j]))
    return out


def lists(i, j):
    l = [i, j, 3]
    l.append(4)
    l.extend([5, 6])
    l.insert(1, 9)
    p = l.pop()
    q = l.pop(0)
    l[0] += 1
    l2 = l[::-1] + [0] * 2
    l.remove(3)
    return l, p, q, l2, l.index(4), 4 in l, 77 in l, sorted(l2), sorted(l2, reverse=True), len(l), sum(l), l[-2:], l.count(5)


def dicts(i, x):
    d = {"a": 1, "b": x}
    d["c"] = i
    d.update({"b": 2 * x, "z": 0})
    q = d.pop("a")
    g = d.get("nope", 5), d.get("c")
    del d["z"]
    dd = defaultdict(list)
    for k in ("u", "v", "u"):
        dd[k].append(len(dd[k]))
    return list(d), list(d.values()), list(d.items()), q, g, "b" in d, "a" in d, dict(dd), d.setdefault("w", 4), {k: v for k, v in d.items() if k != "b"}


def sets(i, j):
    s = {i, j, 1}
    s.add(9)
    t = set([1, 9])
    return len(s), 9 in s, i in s, sorted(s | t), sorted(s & t), sorted(s - t), t <= s, len(set([i, i, j]))


def texts(i, j):
    s = "b/z/w"
    return s.split("/"), "/".join(["x", "y"]), s + "!", f"{s}-{'q'}", s.startswith("b/"), s.endswith("w"), s.replace("/", "."), "z" in s, s[2:], len(s), s.upper(), " a ".strip(), s.rsplit("/", 1), s.partition("/"), "%d" % 3 if False else "n"


def errors(i, a):
    out = []
    for k in (0, 1, 2, 3):
        try:
            if k == 0:
                raise ValueError("v")
            if k == 1:
                out.append({"a": 1}["b"])
            if k == 2:
                out.append([1, 2][5])
            if k == 3:
                assert i > 100, "small"
            out.append("none")
        except ValueError:
            out.append("value")
        except (KeyError, IndexError) as e:
            out.append("lookup")
        except AssertionError:
            out.append("assert")
        finally:
            out.append(k)
    return out


def raises_index(m, i):
    return m[i + 10]


def raises_zero(i, j):
    return i // (j - j)


def raises_unpack(i):
    a, b = [1, 2, 3]
    return a


def closures(x, i):
    def add(y, z=1.0, *r, **kw):
        return x + y + z + sum(r) + kw.get("q", 0)

    g = lambda t, k=i: t * k
    return add(1.0), add(1.0, 2.0), add(1, 2, 3, 4), add(z=3.0, y=1.0, q=5), g(3), [g(t) for t in range(3)], list(map(g, [1, 2])), list(filter(lambda t: t > 1, [1, 2, 3]))


def unpacking(m, i):
    p, *q = [1, 2, 3, i]
    (u, v), w = (1, 2), 3
    r0, r1, r2 = m[0]
    u, v = v, u
    return p, q, u, v, w, r0, r1, r2, [*q, 5], {**{"a": 1}, "b": 2}


def chains(x, y, i):
    return 0 < i < 3, x < y <= 100.0, (x > 0 and y) if False else True, not x > y, (i or 5), (None or i), x if x > y else y, i is None, (i, 1) < (i, 2), [1, 2] == [1, 2], (1, 2) != (1, 3)


def gens(m, n):
    return [r[0] + 1.0 for r in m if r[1] > 0.0], sum([1 for q in n if q > 1]), any(q == 2 for q in n), all(q >= 0 for q in n), [(p, q) for p in range(2) for q in range(p + 1)], list(zip([1, 2], [3, 4])), list(enumerate(["a", "b"])), list(reversed([1, 2])), max([3, 1, 2]), min((5, 4)), {q: q + 1 for q in range(2)}


class Base:
    kind = "base"

    def __init__(self, v):
        self._v = v
        self.items = []

    @property
    def v(self):
        return self._v

    @v.setter
    def v(self, w):
        self._v = w * 2

    def total(self):
        return self.v + len(self.items)

    @staticmethod
    def st(q):
        return q + 1

    @classmethod
    def make(cls, q):
        return cls(q)

    def __len__(self):
        return 3

    def __getitem__(self, k):
        return self._v + k

    def __eq__(self, o):
        return self._v == o._v

    def __add__(self, o):
        return Base(self._v + o._v)


class Sub(Base):
    kind = "sub"

    def __init__(self, v):
        super().__init__(v)
        self.extra = 1

    def total(self):
        return super().total() + self.extra


def objects(x):
    b, s = Base(x), Sub(x)
    b.v = x
    s.items.append(4)
    return b.v, s.total(), b.total(), Base.st(2), Sub.make(3).kind, len(s), s[2], b == s, (b + s).v, isinstance(s, Base), isinstance(b, Sub), hasattr(b, "extra"), getattr(s, "extra")


def aliasing(a, i):
    l = [[0, 0]] * 2
    l[0][1] = i
    k = l
    k = k + [1]
    t = a
    t = t + 1.0
    return l, k, a, t


def augmented(a, i):
    b = a.copy()
    c = b
    c += 1.0
    d = b
    d = d - 1.0
    return b, c, d


def rotations(x, a):
    c, s = np.cos(x), np.sin(x)
    return c * c + s * s, np.array([[c, -s], [s, c]]) @ np.array([[c, s], [-s, c]])


def axes(m):
    return (m > 0).all(axis=1), (m > 0).any(axis=0), np.all(m > -1000.0, axis=0), np.any(m > 0, axis=1), np.hstack((m, m)), np.sign(m[0])
