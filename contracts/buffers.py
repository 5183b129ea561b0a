"""Cyclic buffer (building3d/types/cyclic_buffer.py)."""
import numpy as np

from pyvc.contract import Contract

M = "building3d.types.cyclic_buffer"


def count(S, head, tail, n):
    return S.ite(S.le(tail, head), head - tail, head - tail + n)


def pos(S, tail, i, n):
    return S.ite(S.lt_int(tail + i, n) if hasattr(S, "lt_int") else tail + i < n, tail + i, tail + i - n)


def state(S):
    n = S.int("n", lo=1)
    w = S.int("w", lo=1)
    return n, w


def cb_inputs(S):
    n, w = state(S)
    return dict(buffer=S.arr("buffer", (n, w)), head=S.int("head"), tail=S.int("tail"), element=S.arr("element", (w,)), buffer_size=n)


def cb_bounded(n):
    return lambda S: dict(buffer=S.arr("buffer", (n, 2)), head=S.int("head"), tail=S.int("tail"), element=S.arr("element", (2,)), buffer_size=n)


def cb_pre(S, a):
    n = a["buffer_size"]
    yield "head in range", S.And(S.le(0, a["head"]), a["head"] < n)
    yield "tail in range", S.And(S.le(0, a["tail"]), a["tail"] < n)


def cb_post(S, a, r, old):
    n = old["buffer_size"]
    buf, head, tail = S.at(r, 0), S.at(r, 1), S.at(r, 2)
    c0 = count(S, old["head"], old["tail"], n)
    yield "indices stay in range", S.And(S.le(0, head), head < n, S.le(0, tail), tail < n)
    c1 = count(S, head, tail, n)
    yield "the buffer keeps the newest n-1 elements", S.eq(c1, S.min(c0 + 1, n - 1))
    drop = c0 + 1 - c1
    w = S.shape(old["element"])[0]
    yield "older elements stay in order", S.forall(
        c1 - 1,
        lambda i: S.forall(
            w, lambda j: S.eq(S.el(buf, pos(S, tail, i, n), j), S.el(old["buffer"], pos(S, old["tail"], i + drop, n), j))
        ),
    )
    yield "the new element is the last one", S.Implies(
        c1 > 0, lambda: S.forall(w, lambda j: S.eq(S.el(buf, pos(S, tail, c1 - 1, n), j), S.el(old["element"], j)))
    )


def cb_gen(rng, i):
    n = rng.choice([1, 2, 3, 4, 7])
    return dict(
        buffer=np.array([[rng.random() for _ in range(2)] for _ in range(n)]),
        head=rng.randrange(n),
        tail=rng.randrange(n),
        element=np.array([rng.random(), rng.random()]),
        buffer_size=n,
    )


Contract(
    "cyclic_buf", f"{M}:cyclic_buf", ["P21"],
    inputs=cb_inputs, bounded=[(f"n={n}", cb_bounded(n)) for n in (1, 2, 3)],
    pre=cb_pre, post=cb_post, gen=cb_gen, modifies=["buffer"],
)


def cc_inputs(S):
    n, w = state(S)
    return dict(buffer=S.arr("buffer", (n, w)), head=S.int("head"), tail=S.int("tail"))


def cc_pre(S, a):
    n = S.shape(a["buffer"])[0]
    yield "head in range", S.And(S.le(0, a["head"]), a["head"] < n)
    yield "tail in range", S.And(S.le(0, a["tail"]), a["tail"] < n)


def cc_post(S, a, r, old):
    n, w = S.shape(old["buffer"])
    c = count(S, old["head"], old["tail"], n)
    yield "length is the number of stored elements", S.And(S.eq(S.shape(r)[0], c), S.eq(S.shape(r)[1], w))
    yield "elements come oldest first", S.forall(
        c, lambda i: S.forall(w, lambda j: S.eq(S.el(r, i, j), S.el(old["buffer"], pos(S, old["tail"], i, n), j)))
    )


def cc_gen(rng, i):
    d = cb_gen(rng, i)
    return {k: d[k] for k in ("buffer", "head", "tail")}


Contract(
    "convert_to_contiguous", f"{M}:convert_to_contiguous", ["P21"],
    inputs=cc_inputs,
    bounded=[(f"n={n}", (lambda n: lambda S: dict(buffer=S.arr("buffer", (n, 2)), head=S.int("head"), tail=S.int("tail")))(n)) for n in (1, 2, 3)],
    pre=cc_pre, post=cc_post, gen=cc_gen,
)


# any history of insertions: induction step over the number m of insertions so far
def hist_inputs(S):
    d = cb_inputs(S)
    d["m"] = S.int("m", lo=0)
    d["history"] = S.arr("history", (S.int("hlen"), S.shape(d["element"])[0]))
    return d


def hist_inv(S, buf, head, tail, n, m, hist, w):
    c = count(S, head, tail, n)
    yield "number of stored elements", S.eq(c, S.min(m, n - 1))
    yield "stored elements are the newest of the history, in order", S.forall(
        m, lambda k: S.forall(w, lambda j: S.eq(S.el(hist, k, j), S.el(buf, pos(S, tail, k - (m - c), n), j))), lo=m - c
    )


def hist_pre(S, a):
    yield from cb_pre(S, a)
    w = S.shape(a["element"])[0]
    yield "history long enough", a["m"] + 1 <= S.shape(a["history"])[0]
    yield from hist_inv(S, a["buffer"], a["head"], a["tail"], a["buffer_size"], a["m"], a["history"], w)
    yield "element is the next of the history", S.forall(w, lambda j: S.eq(S.el(a["element"], j), S.el(a["history"], a["m"], j)))


def hist_post(S, a, r, old):
    buf, head, tail = S.at(r, 0), S.at(r, 1), S.at(r, 2)
    w = S.shape(old["element"])[0]
    yield from hist_inv(S, buf, head, tail, old["buffer_size"], old["m"] + 1, old["history"], w)


def hist_invoke(S, I, a):
    return I.call_fq(f"{M}:cyclic_buf", [a["buffer"], a["head"], a["tail"], a["element"], a["buffer_size"]])


def hist_real(a):
    from building3d.types.cyclic_buffer import cyclic_buf

    return cyclic_buf(a["buffer"], a["head"], a["tail"], a["element"], a["buffer_size"])


def hist_gen(rng, i):
    """state reached by really inserting m elements"""
    from building3d.types.cyclic_buffer import cyclic_buf

    n = rng.choice([1, 2, 3, 4, 7])
    m = rng.randrange(0, 3 * n + 1)
    hist = np.array([[float(k), rng.random()] for k in range(m + 1)])
    buf, h, t = np.zeros((n, 2)), 0, 0
    for k in range(m):
        buf, h, t = cyclic_buf(buf, h, t, hist[k], n)
    return dict(buffer=buf, head=h, tail=t, element=hist[m].copy(), buffer_size=n, m=m, history=hist)


Contract(
    "cyclic_buf_history", None, ["P21"],
    inputs=hist_inputs, pre=hist_pre, post=hist_post, gen=hist_gen, invoke=hist_invoke, real=hist_real,
    modifies=["buffer"], functions=[f"{M}:cyclic_buf"],
)


# any history ending in a read-out, on the real code and on bounded symbolic histories
def seq_real(a):
    from building3d.types.cyclic_buffer import convert_to_contiguous, cyclic_buf

    n = a["n"]
    buf, h, t = np.zeros((n,) + a["items"].shape[1:]), 0, 0
    for x in a["items"]:
        buf, h, t = cyclic_buf(buf, h, t, x, n)
    return convert_to_contiguous(buf, h, t)


def seq_invoke(S, I, a):
    n = a["n"]
    from pyvc import npmodel as npm

    buf, h, t = npm.full((n, 2), 0.0), 0, 0
    for k in range(a["items"].shape[0]):
        buf, h, t = I.call_fq(f"{M}:cyclic_buf", [buf, h, t, npm.getitem(a["items"], k), n])
    return I.call_fq(f"{M}:convert_to_contiguous", [buf, h, t])


def seq_post(S, a, r, old):
    m = S.shape(old["items"])[0]
    c = min(m, old["n"] - 1)
    yield "read-out length", S.eq(S.shape(r)[0], c)
    for i in range(c):
        for j in range(2):
            yield f"read-out is the newest elements oldest first", S.eq(S.el(r, i, j), S.el(old["items"], m - c + i, j))


def seq_gen(rng, i):
    n = rng.choice([1, 2, 3, 4, 6])
    m = rng.randrange(0, 3 * n + 2)
    return dict(n=n, items=np.array([[float(k), rng.random()] for k in range(m)]).reshape(m, 2))


Contract(
    "cyclic_buf_readout", None, ["P21"],
    bounded=[(f"n={n}, {m} insertions", (lambda n, m: lambda S: dict(n=n, items=S.arr("items", (m, 2))))(n, m)) for n in (1, 2, 3, 4) for m in (0, 1, 2, 3, 5, 9)],
    pre=None, post=seq_post, gen=seq_gen, invoke=seq_invoke, real=seq_real,
    functions=[f"{M}:cyclic_buf", f"{M}:convert_to_contiguous"],
)
