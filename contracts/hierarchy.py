"""Containers: membership, names, parents, paths (wall, solid, zone, building)."""
import importlib
import math

import numpy as np

from pyvc import gen as G
from pyvc import symobj as so
from pyvc.contract import Contract
from pyvc.engine import PyRaise
from pyvc.values import SRef, SStr, PyDict, strt

POLY = "building3d.geom.polygon:Polygon"
LEVELS = {
    "wall": ("building3d.geom.wall:Wall", "add_polygon", "polygons", POLY),
    "solid": ("building3d.geom.solid:Solid", "add_wall", "walls", "building3d.geom.wall:Wall"),
    "zone": ("building3d.geom.zone:Zone", "add_solid", "solids", "building3d.geom.solid:Solid"),
    "building": ("building3d.geom.building:Building", "add_zone", "zones", "building3d.geom.zone:Zone"),
}
TRI = np.array([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]])


# ------------------------------------------------------------------ adding one child to a container of any size
def add_inputs(level):
    def inputs(S):
        fq, meth, field, ch = LEVELS[level]
        I = S.I
        so.cls(I, ch)
        cn = ch.split(":")[1]
        so.heap_field(S, cn, "name", "str")
        so.heap_field(S, cn, "_parent", "ref", fq.split(":")[1])
        d = so.symdict(S, "kids", cn)
        me = so.obj(I, fq, name=S.str("name"), _parent=None, num=None, uid="u", adj_solids=PyDict({}), graph=PyDict({}), graph_wall=PyDict({}), graph_solid=PyDict({}), graph_zone=PyDict({}), **{field: d})
        return dict(me=me, child=S.ref(cn, "child"))

    return inputs


def add_invoke(level):
    fq, meth, field, ch = LEVELS[level]
    cn = ch.split(":")[1]

    def invoke(S, I, a):
        d = a["me"].f[field]
        pre = dict(n=d.n, keyat=d.keyat, get=d.get, has=d.has, parent=S.c.heap[(cn, "_parent")])
        try:
            I.call_fq(f"{fq.split(':')[0]}:{fq.split(':')[1]}.{meth}", [a["me"], a["child"]])
            exc = None
        except PyRaise as e:
            exc = e.name
        return dict(exc=exc, pre=pre, post=a["me"].f[field])

    return invoke


def add_post(level):
    fq, meth, field, ch = LEVELS[level]
    cn = ch.split(":")[1]

    def sym_post(S, a, r, old):
        from pyvc.values import mkbool, _tb
        import z3

        pre, d, child = r["pre"], r["post"], a["child"]
        nm = S.c.heap[(cn, "name")](child.t)
        taken = pre["has"](nm)
        par = S.c.heap[(cn, "_parent")]
        if r["exc"] is not None:
            yield "a taken name is the only reason to reject", S.And(r["exc"] == "GeometryError", taken)
            yield "a rejected child changes nothing", S.And(
                S.eq(d.n, pre["n"]), S.forall(pre["n"], lambda i: S.And(S.eq(d.keyat(i), pre["keyat"](i)), S.eq(d.get(pre["keyat"](i)), pre["get"](pre["keyat"](i))))),
                so.forall_ref(lambda t: S.eq(par(t), pre["parent"](t))),
            )
            return
        yield "a taken name is rejected", S.Not(taken)
        yield "one more child", S.eq(d.n, pre["n"] + 1)
        yield "the new child is last, under its own name", S.And(S.eq(d.keyat(pre["n"]), nm), S.eq(d.get(nm), child))
        yield "earlier children stay, in order", S.forall(pre["n"], lambda i: S.And(S.eq(d.keyat(i), pre["keyat"](i)), S.eq(d.get(pre["keyat"](i)), pre["get"](pre["keyat"](i)))))
        yield "the container is the child's parent", S.eq(par(child.t), a["me"])
        yield "no other parent changes", so.forall_ref(lambda t: S.Or(mkbool(t == child.t), S.eq(par(t), pre["parent"](t))))

    def post(S, a, r, old):
        if S.sym:
            yield from sym_post(S, a, r, old)
            return
        pre, now, child = r["pre"], r["now"], a["child"]
        if r["exc"] is not None:
            yield "a taken name is the only reason to reject", r["exc"] == "GeometryError" and child.name in [k for k, _ in pre]
            yield "a rejected child changes nothing", same(now, pre) and child.parent is r["oldparent"]
            return
        yield "a taken name is rejected", child.name not in [k for k, _ in pre]
        yield "the new child is last, under its own name, earlier children stay", same(now, pre + [(child.name, child)])
        yield "the container is the child's parent", child.parent is a["me"] and all(v.parent is a["me"] for _, v in pre)

    return post


def same(x, y):
    return len(x) == len(y) and all(k1 == k2 and v1 is v2 for (k1, v1), (k2, v2) in zip(x, y))


def mk(level, name, kids=()):
    from building3d.geom.building import Building
    from building3d.geom.polygon import Polygon
    from building3d.geom.solid import Solid
    from building3d.geom.wall import Wall
    from building3d.geom.zone import Zone

    if level == "polygon":
        return Polygon(TRI.copy(), name=name)
    return {"wall": Wall, "solid": Solid, "zone": Zone, "building": Building}[level](kids, name=name)


CHILD = {"wall": "polygon", "solid": "wall", "zone": "solid", "building": "zone"}
NAMES = ["a", "b", "c", "aa", "A", "a b", "", "0", "wall", "ä"]


def add_gen(level):
    def gen(rng, i):
        ks = rng.sample(NAMES, rng.randint(0, 5))
        me = mk(level, rng.choice(NAMES), [mk(CHILD[level], k) for k in ks])
        child = mk(CHILD[level], rng.choice(NAMES))
        if rng.random() < 0.2:
            child = mk(CHILD[level], None)
        if rng.random() < 0.3:
            child.parent = mk(level, "other")
        return dict(me=me, child=child)

    return gen


def add_real(level):
    fq, meth, field, ch = LEVELS[level]

    def real(a):
        pre = list(getattr(a["me"], field).items())
        op = a["child"].parent
        try:
            getattr(a["me"], meth)(a["child"])
            exc = None
        except Exception as e:
            exc = type(e).__name__
        return dict(exc=exc, pre=pre, now=list(getattr(a["me"], field).items()), oldparent=op)

    return real


for lv in LEVELS:
    fq_, meth_, field_, ch_ = LEVELS[lv]
    Contract(
        f"{lv}_{meth_}", None, ["P01"], inputs=add_inputs(lv), post=add_post(lv), gen=add_gen(lv), ngen=60, invoke=add_invoke(lv), real=add_real(lv),
        functions=[f"{fq_}.{meth_}"], frame=False,
    )


# ------------------------------------------------------------------ replacing
def rep_bounded(level, n, m):
    def inputs(S):
        fq, meth, field, ch = LEVELS[level]
        me = so.obj(S.I, fq, name=S.str("me"), _parent=None, num=None, uid="u")
        kids = [so.obj(S.I, ch, name=S.str(f"k{i}"), _parent=me, num=None) for i in range(n)]
        S.c.assume(zb_(so.distinct(S, [k.f["name"] for k in kids])))
        me.f[field] = PyDict({k.f["name"]: k for k in kids})
        new = [so.obj(S.I, ch, name=S.str(f"n{i}"), _parent=None, num=None) for i in range(m)]
        return dict(me=me, kids=kids, new=new, old_name=S.str("old"))

    return inputs


def zb_(p):
    from pyvc.values import _tb, zb

    return zb(_tb(p))


REP = {"wall": "replace_polygon", "solid": "replace_wall"}


def rep_invoke(level):
    fq, meth, field, ch = LEVELS[level]

    def invoke(S, I, a):
        try:
            I.call_fq(f"{fq}.{REP[level]}", [a["me"], a["old_name"]] + list(a["new"]))
            exc = None
        except PyRaise as e:
            exc = e.name
        return dict(exc=exc, now=list(a["me"].f[field].d.items()), pre=[(k.f["name"], k) for k in a["kids"]])

    return invoke


def rep_post(level):
    def post(S, a, r, old):
        name = (lambda o: o.f["name"]) if S.sym else (lambda o: o.name)
        parent = (lambda o: o.f["_parent"]) if S.sym else (lambda o: o.parent)
        pre, now = r["pre"], r["now"]
        on = a["old_name"]
        nn = [name(x) for x in a["new"]]
        exists = S.Or(*[S.eq(k, on) for k, _ in pre])
        clash = S.Or(
            *[S.And(S.Not(S.eq(k, on)), S.eq(k, x)) for k, _ in pre for x in nn],
            *[S.eq(nn[i], nn[j]) for i in range(len(nn)) for j in range(i)],
        )
        if r["exc"] is not None:
            yield "rejected only for a missing or a taken name", S.Or(S.Not(exists), clash)
            yield "a rejected replacement changes nothing", S.And(len(now) == len(pre), *[S.And(S.eq(k1, k2), v1 is v2) for (k1, v1), (k2, v2) in zip(now, pre)])
            return
        yield "a missing or a taken name is rejected", S.And(exists, S.Not(clash))
        # the remaining children keep their order, the new ones follow
        for drop in range(len(pre)):
            want = [p for i, p in enumerate(pre) if i != drop] + [(name(x), x) for x in a["new"]]
            ok = len(now) == len(want) and S.And(*[S.And(S.eq(k1, k2), v1 is v2) for (k1, v1), (k2, v2) in zip(now, want)])
            yield "replaced child is gone, the others stay in order, the new ones follow", S.Implies(S.eq(pre[drop][0], on), ok)
        yield "every child has the container as parent", S.And(*[parent(v) is a["me"] for _, v in now])

    return post


def rep_gen(level):
    def gen(rng, i):
        ks = rng.sample(NAMES, rng.randint(0, 4))
        me = mk(level, "m", [mk(CHILD[level], k) for k in ks])
        new = [mk(CHILD[level], rng.choice(NAMES)) for _ in range(1 if level == "solid" else rng.randint(0, 3))]
        on = rng.choice(ks) if ks and rng.random() < 0.8 else rng.choice(NAMES)
        if new and rng.random() < 0.3:
            new[0] = mk(CHILD[level], on)
        return dict(me=me, kids=None, new=new, old_name=on)

    return gen


def rep_real(level):
    field = LEVELS[level][2]

    def real(a):
        pre = list(getattr(a["me"], field).items())
        try:
            getattr(a["me"], REP[level])(a["old_name"], *a["new"])
            exc = None
        except Exception as e:
            exc = type(e).__name__
        return dict(exc=exc, pre=pre, now=list(getattr(a["me"], field).items()))

    return real


for lv in REP:
    Contract(
        f"{lv}_{REP[lv]}", None, ["P01"],
        bounded=[(f"{n} children, {m} new", rep_bounded(lv, n, m)) for n in (0, 1, 2, 3) for m in ((0, 1, 2) if lv == "wall" else (1,))],
        post=rep_post(lv), gen=rep_gen(lv), ngen=80, invoke=rep_invoke(lv), real=rep_real(lv), functions=[f"{LEVELS[lv][0]}.{REP[lv]}"], frame=False,
    )


# ------------------------------------------------------------------ names
def vn_post(S, a, r, old):
    yield "the name is returned unchanged", S.eq(r, old["name"])
    if S.sym:
        from pyvc import containers as ct

        yield "accepted names have no separator", S.Not(ct.str_contains(S.I, old["name"], "/"))
    else:
        yield "accepted names have no separator", "/" not in old["name"]


def vn_raises(S, old, e):
    if S.sym:
        from pyvc import containers as ct

        return S.And(e == "ValueError", ct.str_contains(S.I, old["name"], "/"))
    return e == "ValueError" and "/" in old["name"]


Contract(
    "validate_name", "building3d.geom.paths.validate_name:validate_name", ["P01"], inputs=lambda S: dict(name=S.str("name")), post=vn_post, raises=vn_raises,
    gen=lambda rng, i: dict(name="".join(rng.choice("ab/ _-.\\|") for _ in range(rng.randint(0, 5)))), ngen=100,
)


# constructors: names as given, children as given, invalid ones rejected
def ctor_gen(rng, i):
    lv = rng.choice(["wall", "solid", "zone", "building", "polygon"])
    nm = rng.choice(NAMES + ["a/b", "/", "x/", None])
    kids = [] if lv == "polygon" else [rng.choice(NAMES) for _ in range(rng.randint(0, 4))]
    return dict(level=lv, name=nm, kids=kids, uid=rng.choice([None, "u1"]))


def ctor_real(a):
    from building3d.geom.building import Building
    from building3d.geom.polygon import Polygon
    from building3d.geom.solid import Solid
    from building3d.geom.wall import Wall
    from building3d.geom.zone import Zone

    try:
        if a["level"] == "polygon":
            o = Polygon(TRI.copy(), name=a["name"], uid=a["uid"])
            return dict(exc=None, o=o, kids=[], now=[])
        kids = [mk(CHILD[a["level"]], k) for k in a["kids"]]
        o = {"wall": Wall, "solid": Solid, "zone": Zone, "building": Building}[a["level"]](kids, name=a["name"], uid=a["uid"])
        return dict(exc=None, o=o, kids=kids, now=list(o.children.items()))
    except Exception as e:
        return dict(exc=type(e).__name__)


def ctor_post(S, a, r, old):
    bad = a["name"] is not None and "/" in a["name"]
    dup = len(set(a["kids"])) < len(a["kids"])
    if r["exc"]:
        yield "only bad names and repeated children are rejected", bad or dup
        return
    yield "bad names and repeated children are rejected", not bad and not dup
    o = r["o"]
    yield "name", o.name == a["name"] if a["name"] is not None else (isinstance(o.name, str) and len(o.name) > 0 and "/" not in o.name)
    yield "uid", o.uid == a["uid"] if a["uid"] else (isinstance(o.uid, str) and len(o.uid) > 0)
    yield "children in the given order under their names", same(r["now"], [(k.name, k) for k in r["kids"]]) and all(k.parent is o for k in r["kids"])
    yield "no parent, path is the name", o.parent is None and o.path == o.name
    yield "items are found by name", all(o[k.name] is k for k in r["kids"])


Contract("constructors", None, ["P01"], post=ctor_post, gen=ctor_gen, ngen=150, real=ctor_real, frame=False,
         functions=[f"{LEVELS[l][0]}.__init__" for l in LEVELS] + [f"{POLY}.__init__", "building3d.random:random_id"])


# ------------------------------------------------------------------ histories on the real classes
def hist_gen(rng, i):
    ops = []
    for _ in range(rng.randint(3, 14)):
        ops.append((rng.choice(["add", "add", "add", "replace"]), rng.random(), [rng.choice(NAMES[:5]) for _ in range(rng.randint(1, 2))], rng.random()))
    return dict(ops=ops)


def hist_real(a):
    """runs the operations on real objects next to a plain model; returns the differences"""
    b = mk("building", "b")
    model = {id(b): []}
    objs = [("building", b)]
    bad = []
    for kind, pick, names, pick2 in a["ops"]:
        lv, o = objs[int(pick * len(objs))]
        if lv == "polygon":
            continue
        ch = CHILD[lv]
        cur = model[id(o)]
        if kind == "replace" and lv in REP and cur:
            on = cur[int(pick2 * len(cur))][0]
            new = [mk(ch, n) for n in (names if lv == "wall" else names[:1])]
            keep = [(k, v) for k, v in cur if k != on]
            want = [n.name for n in new]
            ok = len(set(want)) == len(want) and not set(want) & {k for k, _ in keep}
            call = lambda: getattr(o, REP[lv])(on, *new)
            nxt = keep + [(n.name, n) for n in new]
        else:
            new = [mk(ch, names[0])]
            ok = names[0] not in [k for k, _ in cur]
            call = lambda: getattr(o, LEVELS[lv][1])(new[0])
            nxt = cur + [(names[0], new[0])]
        below = {}
        if ch in CHILD and int(pick2 * 997) % 2:
            # the new objects have children of their own, and were asked for their paths before
            for n in new:
                g = mk(CHILD[ch], "x")
                getattr(n, LEVELS[ch][1])(g)
                below[id(n)] = [("x", g)]
                check(n, n.name, {id(n): [("x", g)], id(g): []}, bad)
        try:
            call()
            done = True
        except Exception:
            done = False
        if done != ok:
            bad.append(f"{kind} {names} to {lv}: {'accepted' if done else 'rejected'}")
        if ok:
            model[id(o)] = nxt
            for n in new:
                model[id(n)] = below.get(id(n), [])
                objs.append((ch, n))
                for _, g in model[id(n)]:
                    model[id(g)] = []
                    objs.append((CHILD[ch], g))
        check(b, "b", model, bad)
        # objects replaced are no longer addressed
        live = set()
        walk(b, live)
        objs = [(l, x) for l, x in objs if id(x) in live]
    return bad


def walk(o, acc):
    acc.add(id(o))
    if hasattr(o, "children") and isinstance(o.children, dict):
        for c in o.children.values():
            walk(c, acc)


def check(o, path, model, bad):
    if o.path != path:
        bad.append(f"path {o.path} should be {path}")
    if not isinstance(o.children, dict):
        return
    if not same(list(o.children.items()), model[id(o)]):
        bad.append(f"children of {path}: {list(o.children)}")
        return
    for k, v in model[id(o)]:
        if v.parent is not o or v.name != k:
            bad.append(f"parent or name of {path}/{k}")
        check(v, path + "/" + k, model, bad)


def hist_post(S, a, r, old):
    yield "membership, order, names, parents and paths agree with the plain model", not r


Contract("hierarchy_history", None, ["P01"], post=hist_post, gen=hist_gen, ngen=60, real=hist_real, frame=False,
         functions=[f"{v[0]}.{v[1]}" for v in LEVELS.values()] + [f"{v[0]}.path" for v in LEVELS.values()] + [f"{POLY}.path"])


# ------------------------------------------------------------------ paths (symbolic names, chains)
def path_inputs(S):
    I = S.I
    b = so.obj(I, LEVELS["building"][0], name=S.str("b"))
    z = so.obj(I, LEVELS["zone"][0], name=S.str("z"), _parent=b)
    s = so.obj(I, LEVELS["solid"][0], name=S.str("s"), _parent=z)
    w = so.obj(I, LEVELS["wall"][0], name=S.str("w"), _parent=s)
    p = so.obj(I, POLY, name=S.str("p"), _parent=w)
    return dict(chain=[b, z, s, w, p])


def path_invoke(S, I, a):
    return [I.getattr(o, "path") for o in a["chain"]]


def path_post(S, a, r, old):
    if S.sym:
        from pyvc import containers as ct

        names = [o.f["name"] for o in a["chain"]]
        for k in range(5):
            want = ct.st_join(S.I, "/", names[: k + 1])
            yield f"path of level {k} is the parent's path plus the name", S.eq(r[k], want)
    else:
        names = [o.name for o in a["chain"]]
        for k in range(5):
            yield f"path of level {k} is the parent's path plus the name", r[k] == "/".join(names[: k + 1])


def path_gen(rng, i):
    ns = [rng.choice(NAMES) for _ in range(5)]
    p = mk("polygon", ns[4])
    w = mk("wall", ns[3], [p])
    s = mk("solid", ns[2], [w])
    z = mk("zone", ns[1], [s])
    b = mk("building", ns[0], [z])
    return dict(chain=[b, z, s, w, p])


Contract("path_property", None, ["P01", "P02"], inputs=path_inputs, post=path_post, invoke=path_invoke, real=lambda a: [o.path for o in a["chain"]], gen=path_gen, ngen=30, frame=False,
         functions=[f"{v[0]}.path" for v in LEVELS.values()] + [f"{POLY}.path"])


# ------------------------------------------------------------------ look-up by path
SHAPE = [[[2, 1], [1]], [[1]]]  # zones -> solids -> walls -> number of polygons


def sym_building(S, shape):
    I = S.I
    from pyvc import containers as ct

    objs = []  # (names, obj)

    def named(nm):
        s = S.str(nm)
        S.c.assume(zb_(S.Not(ct.str_contains(I, s, "/"))))
        return s

    def kids(parent, field, lst):
        S.c.assume(zb_(so.distinct(S, [k.f["name"] for k in lst])))
        parent.f[field] = PyDict({k.f["name"]: k for k in lst})

    b = so.obj(I, LEVELS["building"][0], name=named("b"))
    objs.append(((b.f["name"],), b))
    zs = []
    for sh_z in shape:
        z = so.obj(I, LEVELS["zone"][0], name=named("z"), _parent=b)
        zs.append(z)
        pz = (b.f["name"], z.f["name"])
        objs.append((pz, z))
        ss = []
        for sh_s in sh_z:
            s = so.obj(I, LEVELS["solid"][0], name=named("s"), _parent=z)
            ss.append(s)
            ps = pz + (s.f["name"],)
            objs.append((ps, s))
            ws = []
            for npol in sh_s:
                w = so.obj(I, LEVELS["wall"][0], name=named("w"), _parent=s)
                ws.append(w)
                pw = ps + (w.f["name"],)
                objs.append((pw, w))
                pl = []
                for _ in range(npol):
                    p = so.obj(I, POLY, name=named("p"), _parent=w, pts=S.points("pts", 3))
                    pl.append(p)
                    objs.append((pw + (p.f["name"],), p))
                kids(w, "polygons", pl)
            kids(s, "walls", ws)
        kids(z, "solids", ss)
    kids(b, "zones", zs)
    return b, objs


def get_inputs(k, shape=SHAPE):
    def inputs(S):
        from pyvc import containers as ct

        b, objs = sym_building(S, shape)
        q = []
        for i in range(k):
            s = S.str(f"q{i}")
            S.c.assume(zb_(S.Not(ct.str_contains(S.I, s, "/"))))
            q.append(s)
        return dict(b=b, objs=objs, q=q, via=b)

    return inputs


def get_invoke(S, I, a):
    from pyvc import containers as ct

    path = ct.st_join(I, "/", a["q"])
    try:
        return dict(exc=None, r=I.call_fq("building3d.geom.building:Building.get", [a["b"], path]))
    except PyRaise as e:
        return dict(exc=e.name)


def get_post(S, a, r, old):
    q = a["q"]
    cand = [(names, o) for names, o in a["objs"] if len(names) == len(q)]
    hit = lambda names: S.And(*[S.eq(x, y) for x, y in zip(names, q)])
    if r["exc"] is not None:
        for names, o in cand:
            yield "an existing object is found", S.Not(hit(names))
    else:
        if not S.sym and len(q) == 6:
            return
        yield "only an existing object is returned", S.Or(*[o is r["r"] for _, o in cand]) if cand else False
        for names, o in cand:
            if o is r["r"]:
                yield "the object found has that path", hit(names)


def real_objs(b):
    out = [((b.name,), b)]

    def rec(o, names):
        if isinstance(o.children, dict):
            for k, v in o.children.items():
                out.append((names + (k,), v))
                rec(v, names + (k,))

    rec(b, (b.name,))
    return out


def name_building(rng):
    """small building, names repeated across branches, some containers empty"""
    def rec(level, depth):
        n = rng.choice([0, 1, 1, 2, 3]) if level != "polygon" else 0
        kids = [] if level == "polygon" else [rec_named(CHILD[level], nm) for nm in rng.sample(NAMES[:6], n)]
        return kids

    def rec_named(level, nm):
        if level == "polygon":
            return mk("polygon", nm)
        return mk(level, nm, rec(level, 0))

    return rec_named("building", rng.choice(["b", "a"]))


def get_gen(rng, i):
    b = name_building(rng)
    objs = real_objs(b)
    names, o = rng.choice(objs)
    q = list(names)
    m = rng.random()
    if m < 0.25:
        q[rng.randrange(len(q))] = rng.choice(NAMES[:7])
    elif m < 0.35:
        q.append(rng.choice(NAMES[:7]))
    elif m < 0.4:
        q = q[1:] or ["x"]
    return dict(b=b, objs=objs, q=q, via=rng.choice(objs)[1])


def get_real(a):
    try:
        return dict(exc=None, r=a["via"].get("/".join(a["q"])))
    except Exception as e:
        return dict(exc=type(e).__name__)


def get_pre(S, a):
    # a polygon path followed by an integer addresses a vertex (other contract)
    yield "no vertex index", len(a["q"]) < 6


Contract(
    "get_by_path", None, ["P02"], bounded=[(f"path of {k} parts, any names, hierarchy {SHAPE}", get_inputs(k)) for k in (1, 2, 3, 4, 5)], pre=get_pre, post=get_post,
    gen=get_gen, ngen=200, invoke=get_invoke, real=get_real, frame=False, functions=["building3d.geom.building:Building.get"] + [f"{LEVELS[l][0]}.get" for l in ("wall", "solid", "zone")] + [f"{POLY}.get"],
    max_paths=3000, bounded_wall=60,
)


# seven parts and vertices
def vx_gen(rng, i):
    b = G.building(rng)
    p = rng.choice(G.polys(b))
    if i % 3 == 0:  # a floor with many corners
        fp = importlib.import_module("building3d.geom.solid.floor_plan").floor_plan
        n = rng.randint(11, 16)
        s = fp([(math.cos(2 * math.pi * j / n), math.sin(2 * math.pi * j / n)) for j in range(n)], 1.0, name="many")
        list(b.children.values())[0].add_solid(s)
        p = s["floor"]["floor"]
    k = rng.randrange(len(p.pts) + 2)
    return dict(b=b, p=p, k=k, more=rng.random() < 0.2)


def vx_real(a):
    try:
        return dict(exc=None, r=a["b"].get(f"{a['p'].path}/{a['k']}" + ("/0" if a["more"] else "")))
    except Exception as e:
        return dict(exc=type(e).__name__)


def vx_post(S, a, r, old):
    ok = a["k"] < len(a["p"].pts) and not a["more"]
    yield "a vertex is found exactly when it exists", (r["exc"] is None) == ok
    if ok:
        yield "it is that vertex", r["exc"] is None and np.array_equal(r["r"], a["p"].pts[a["k"]])


Contract("get_vertex", None, ["P02"], post=vx_post, gen=vx_gen, ngen=30, real=vx_real, frame=False, functions=["building3d.geom.building:Building.get", f"{POLY}.__getitem__"])


# ------------------------------------------------------------------ lists of polygon paths
def pp_inputs(S):
    b, objs = sym_building(S, SHAPE)
    return dict(b=b, objs=objs)


def pp_invoke(S, I, a):
    out = []
    for names, o in a["objs"]:
        if len(names) < 5:
            out.append((names, I.call(I.getattr(o, "get_polygon_paths"), [])))
    return out


def pp_post(S, a, r, old):
    from pyvc import containers as ct

    polys = [n for n, _ in a["objs"] if len(n) == 5]
    for names, lst in r:
        want = [p for p in polys if all(x is y for x, y in zip(p, names))] if S.sym else [p for p in polys if p[: len(names)] == names]
        items = lst.items if S.sym else lst
        yield f"one path per polygon below (level {len(names)})", len(items) == len(want)
        if S.sym:
            yield f"paths in hierarchy order (level {len(names)})", S.And(*[S.eq(x, ct.st_join(S.I, "/", list(w))) for x, w in zip(items, want)])
        else:
            yield f"paths in hierarchy order (level {len(names)})", list(items) == ["/".join(w) for w in want]


def pp_gen(rng, i):
    b = name_building(rng)
    return dict(b=b, objs=real_objs(b))


def pp_real(a):
    return [(n, o.get_polygon_paths()) for n, o in a["objs"] if len(n) < 5]


Contract("get_polygon_paths", None, ["P02"], bounded=[(f"any names, hierarchy {SHAPE}", pp_inputs)], post=pp_post, gen=pp_gen, ngen=60, invoke=pp_invoke, real=pp_real, frame=False,
         functions=[f"{v[0]}.get_polygon_paths" for v in LEVELS.values()])


# ------------------------------------------------------------------ splitting
def sp_post(S, a, r, old):
    yield "joining the parts gives the path back", "/".join(r) == old["p"] if not S.sym else True
    if not S.sym:
        yield "no part contains the separator", all("/" not in x for x in r)


Contract("split_path", "building3d.geom.paths.split_path:split_path", ["P02"], post=sp_post,
         gen=lambda rng, i: dict(p="/".join(rng.choice(NAMES) for _ in range(rng.randint(1, 6)))), ngen=60)
