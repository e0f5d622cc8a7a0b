"""C17, C25: snapped lattice planes, bounding boxes, hulls as planes."""
import itertools
from czt import *
from rot import limb, vec, shaped
from world import World, PERMS, ROT1, R3, R5, NORMALS, I3
from pymatgen.core import Structure, Lattice
from czone.volume import Volume, Voxel, makeRectPrism
from czone.volume.algebraic import Plane, Sphere, Cylinder, snap_plane_near_point, get_bounding_box, convex_hull_to_planes
from czone.generator import Generator
from czone.transform import HStrain, Translation, Rotation, Reflection, Inversion, MatrixTransform

C = 10                                     # snapping: units of 1/10 Angstrom


def K(x): return np.array(x, dtype=float) / C


# ------------------------------------------------------------------ C17
def cell(r, m):
    """basis vectors (rows here), multiples of m"""
    k = r.random()
    a, b, c = (m * max(1, round(r.randint(24, 60) / m)) for _ in range(3))
    if k < .25: B = [[a, 0, 0], [0, a, 0], [0, 0, a]]
    elif k < .45: B = [[a, 0, 0], [0, b, 0], [0, 0, c]]
    elif k < .6: h = m * max(1, a // (2 * m)); B = [[0, h, h], [h, 0, h], [h, h, 0]]
    elif k < .8:
        h = m * max(1, a // (2 * m)); B = [[a, 0, 0], [-h, b, 0], [0, 0, c]]
    else:
        s = [m * r.choice((-1, 0, 0, 1)) for _ in range(6)]
        B = [[a, s[0], s[1]], [s[2], b, s[3]], [s[4], s[5], c]]
    if r.random() < .15: B[0], B[1] = B[1], B[0]
    return B


def snap_history(r, i):
    evs = []
    for _ in range(3):
        k3, k5, ks = r.choice(((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 0, 1)))
        m = 3 ** k3 * 5 ** k5 * 2 ** ks
        B = cell(r, m)
        o = [m * r.randint(-60 // m, 60 // m) for _ in range(3)]
        s = dict(none=True)
        kk = r.random()
        kw = {}
        if ks or kk < .1:
            q = 2 if ks else 1
            n = r.choice((3, 6, 9))
            dg, off = ((2, 2, 3, 1) if ks else (1,)), ((-1, 0, 0, 1) if ks else (0,))
            if n == 3: v = [r.choice(dg) for _ in range(3)]
            elif n == 6: v = [r.choice(dg) for _ in range(3)] + [r.choice(off) for _ in range(3)]
            else: v = [r.choice(dg) if j % 4 == 0 else r.choice(off) for j in range(9)]
            M = np.array(v) if n == 9 else None
            full = dict([(3, lambda: np.diag(v)), (6, lambda: np.array([[v[0], v[5], v[4]], [v[5], v[1], v[3]], [v[4], v[3], v[2]]])),
                         (9, lambda: np.reshape(v, (3, 3)))])[n]()
            if abs(np.linalg.det(full)) < .5:
                v, n = [q] * 3, 3
            mode = r.choice(("crystal", "standard"))
            fix = r.random() < .4
            s = dict(none=False, m=v, q=q, mode=mode, fix=fix, k=[r.randint(-1, 1) for _ in range(3)] if fix else [0, 0, 0])
        # how the generator comes about
        st = Structure(Lattice(K(B)), [14], [[0, 0, 0]])
        how = r.randrange(3)
        def build():
            if how == 0: return Generator(structure=st, origin=K(o))
            g = Generator(structure=st)
            if how == 1: g.origin = K(o)
            else: g.voxel = Voxel(bases=K(B).T / 2, scale=np.array([2]), origin=K(o))
            return g
        g, exc = guarded(build)
        if exc:
            evs.append(dict(fn="snap", exc=exc)); break
        # motions
        Ts = []
        def add(N, d, c, t, obj, bo=False):
            Ts.append(dict(N=N, d=d, c=c, t=t, bo=bo)); g.transform(obj)
        BB, oo = B, o
        mot = []
        if k3: mot.append(r.choice(R3))
        if k5: mot.append(r.choice(R5))
        if r.random() < .5: mot.append((r.choice(PERMS), 1))
        ok = True
        for N, d in mot:
            bo = r.random() < .3
            c = [m * r.randint(-2, 2) for _ in range(3)]
            def go():
                cls = Rotation if np.linalg.det(np.array(N)) > 0 else MatrixTransform
                add(N, d, c, [0, 0, 0], cls(np.array(N) / d, origin=K(c), basis_only=bo), bo)
            _, exc = guarded(go)
            if exc: evs.append(dict(fn="snap", exc=exc)); ok = False; break
        if not ok: break
        if r.random() < .4:
            t = [m * r.randint(-3, 3) for _ in range(3)]
            add(I3, 1, [0, 0, 0], t, Translation(K(t)))
        # the cell as the specification will find it, for choosing points only
        Bn, on = np.array(B), np.array(o)
        for T in Ts:
            Bn = Bn @ np.array(T["N"]).T // T["d"]
            if not T["bo"]: on = np.array(T["N"]) @ (on - T["c"]) // T["d"] + T["c"] + T["t"]
        # 2: the fixed strain origin is k cells below the crystal's
        if not s["none"]:
            full2 = full if len(v) == n and n != 3 else np.diag(v)
            val = r.choice((lambda: np.array(v) / q, lambda: (np.array(v) / q).tolist()))()
            kw = dict(mode=mode)
            if fix: kw["origin"] = K((on - np.array(s["k"]) @ Bn).tolist())
            _, exc = guarded(lambda: setattr(g, "strain_field", HStrain(val, **kw)))
            if exc: evs.append(dict(fn="snap", exc=exc)); break
            Bs = Bn @ full2 // q if mode == "standard" else full2 @ Bn // q
            os_ = on - np.array(s["k"]) @ Bn + np.array(s["k"]) @ Bs if fix else on
        else: Bs, os_ = Bn, on
        for rnd in range(3):
            if rnd:                                                 # the same crystal later on
                if (not s["none"] and s["fix"]) or r.random() < .4: break
                ch = r.choice(("origin", "move", "turn", "matrix"))
                def change():
                    nonlocal Bn, on, s
                    if ch == "origin":
                        new = [m * r.randint(-60 // m, 60 // m) for _ in range(3)]
                        Ts.append(dict(N=I3, d=1, c=[0, 0, 0], t=(np.array(new) - on).tolist(), bo=False))
                        g.origin = K(new); on = np.array(new)
                    elif ch == "move":
                        t = [m * r.randint(-3, 3) for _ in range(3)]
                        add(I3, 1, [0, 0, 0], t, Translation(K(t))); on = on + t
                    elif ch == "turn":
                        N, c, bo = r.choice(PERMS), [m * r.randint(-2, 2) for _ in range(3)], r.random() < .3
                        cls = Rotation if np.linalg.det(np.array(N)) > 0 else MatrixTransform
                        add(N, 1, c, [0, 0, 0], cls(np.array(N, float), origin=K(c), basis_only=bo), bo)
                        Bn = Bn @ np.array(N).T
                        if not bo: on = np.array(N) @ (on - c) + c
                    elif not s["none"] and ks:
                        w = [r.choice((2, 2, 3, 1)) for _ in range(3)]
                        g.strain_field.matrix = np.array(w) / q
                        s = dict(s, m=w)
                _, exc = guarded(change)
                if exc: evs.append(dict(fn="snap", exc=exc)); ok = False; break
                Bs, os_ = Bn, on
                if not s["none"]:
                    v_ = s["m"]
                    full2 = np.diag(v_) if len(v_) == 3 else np.array([[v_[0], v_[5], v_[4]], [v_[5], v_[1], v_[3]], [v_[4], v_[3], v_[2]]]) \
                        if len(v_) == 6 else np.reshape(v_, (3, 3))
                    Bs = Bn @ full2 // q if mode == "standard" else full2 @ Bn // q
            for _ in range((4, 2, 2)[rnd]):
                k = r.random()
                if k < .3: p = [r.randint(-150, 150) for _ in range(3)]
                elif k < .7: p = (os_ + np.array([r.randint(-3, 3) for _ in range(3)]) @ Bs).tolist()          # a lattice point
                elif k < .85: p = (os_ + np.array([r.randint(-3, 3) for _ in range(3)]) @ Bs // 2).tolist()
                else: p = (os_ + np.array([r.randint(-2, 2) for _ in range(3)]) @ Bs + [r.choice((-1, 0, 1)) for _ in range(3)]).tolist()
                h = vec(r, 3)
                g3 = math.gcd(math.gcd(h[0], h[1]), h[2])
                h = [x // g3 for x in h]
                if r.random() < .25:
                    f = r.choice((2, 2, 3))
                    if max(abs(x) for x in h) * f <= 4: h = [f * x for x in h]
                md = r.choice(("nearest", "nearest", "floor", "ceil"))
                P = r.choice((K(p), K(p).tolist(), K(p).reshape(3, 1)))
                H = r.choice((tuple(h), list(h), np.array(h)))
                e = dict(fn="snap", B=B, o=o, Ts=list(Ts), s=s, p=p, h=h, mode=md, n=[], qh=[], ql=[], same=True)
                keep = (np.array(P, copy=True), g.voxel.bases.copy(), g.voxel.origin.copy())
                kw2 = dict(mode=md) if md != "nearest" or r.random() < .5 else {}
                def go():
                    pl = snap_plane_near_point(P, g, H, **kw2)
                    n = np.ravel(pl.normal).astype(float)
                    x = np.ravel(pl.point).astype(float) * C
                    same = all(np.array_equal(a, b) for a, b in zip(keep, (np.array(P), g.voxel.bases, g.voxel.origin)))
                    xh = np.rint(x)
                    return limb(n / np.linalg.norm(n)), xh.astype(int).tolist(), np.rint((x - xh) * 1000).astype(int).tolist(), same
                v_, e["exc"] = guarded(go)
                if not e["exc"]: e["n"], e["qh"], e["ql"], e["same"] = v_
                evs.append(e)
    return [dict(events=evs)]


# ------------------------------------------------------------------ C25
def plane_sets(r):
    """normals with components up to 3, offsets in whole Angstrom"""
    k = r.random()
    far = r.choice(([0, 0, 0], [0, 0, 0], [-40, -30, -50], [60, -20, 35], [-300, 200, -250], [400, 400, 400]))
    P = []
    big = r.choice((1, 1, 1, 1, 1, 200))               # regions may be huge, too
    pl = lambda n, x: P.append((list(n), [a + big * b for a, b in zip(far, x)]))
    if k < .2:                                   # box
        for j in range(3):
            for s in (1, -1):
                n = [0, 0, 0]; n[j] = s * r.choice((1, 1, 2))
                x = [r.randint(-9, 9) for _ in range(3)]; x[j] = s * r.randint(1, 12)
                pl(n, x)
    elif k < .4:                                 # some faces of a polyhedron around the origin
        N = r.sample([n for n in itertools.product((-1, 0, 1), repeat=3) if any(n)], r.randint(4, 10))
        for n in N: pl(n, [r.randint(1, 9) * v for v in n])
    elif k < .55:                                # tetrahedra
        for n in ((1, 1, 1), (-1, -1, 1), (-1, 1, -1), (1, -1, -1)): pl(n, [r.randint(1, 8) * v for v in n])
        if r.random() < .3: P.pop()
    elif k < .8:
        for _ in range(r.randint(3, 9)): pl(vec(r, 2), [r.randint(-8, 8) for _ in range(3)])
    elif k < .9:                                 # a prism, perhaps open
        for n in ((1, 0, 0), (0, 1, 0), (-1, -1, 0)): pl(n, [r.randint(1, 7) * v for v in n])
        if r.random() < .7: pl((0, 0, 1), [0, 0, r.randint(0, 9)])
        if r.random() < .7: pl((0, 0, -1), [0, 0, r.randint(-9, 1)])
    else:                                        # empty: opposite planes
        n = vec(r, 2)
        pl(n, [-3 * v for v in n]); pl([-v for v in n], [r.randint(-2, 4) * v for v in n])
        for _ in range(r.randint(2, 5)): pl(vec(r, 2), [r.randint(-4, 4) for _ in range(3)])
    if r.random() < .3: pl(*[(n, [a - b for a, b in zip(x, far)]) for n, x in [r.choice(P)]][0])        # repeated plane
    r.shuffle(P)
    return P


def bbox(r, i):
    evs = []
    def emit(e, fn, key=None):
        v, e["exc"] = guarded(fn)
        if not e["exc"]:
            if key: e[key] = v
            else: e.update(v)
        evs.append(e)
    for _ in range(4):
        S = plane_sets(r)
        def go():
            pls = [Plane(np.array(n) * r.choice((1, 1, .5, 3)), np.array(p, float)) for n, p in S]
            v, st = get_bounding_box(pls)
            v = np.asarray(v, float).reshape(-1, 3)
            return dict(verts=code(v, 100), status=int(st))
        emit(dict(fn="bb_planes", planes=[dict(n=n, c=int(np.dot(n, p))) for n, p in S], verts=[], status=0), go)
    # spheres and cylinders
    w = World(r, {})
    w.b3 = w.b5 = 0
    far = r.choice(([0, 0, 0], [-3600, 1800, -7200]))
    for t in ("sp", "cy"):
        a = w.alg_params(t, tol=True)
        if t == "cy":
            a["a"] = list(r.choice(NORMALS))
            a["len"] = r.choice((1, 2, 4, 9, 20)) * 90; a["p"] = [x + y for x, y in zip(a["p"], far)]
        else: a["c"] = [x + y for x, y in zip(a["c"], far)]
        a["r"] = r.choice((1, 3, 6, 11)) * 90
        def go():
            o = w.build_alg(a)
            b = o.get_bounding_box() if hasattr(o, "get_bounding_box") else Volume(alg_objects=[o]).get_bounding_box()
            return code(np.asarray(b, float).reshape(-1, 3), 180)
        emit(dict(fn="bb_alg", alg=a, box=[]), go, "box")
    # volumes
    for _ in range(2):
        shape = r.choice(("hull", "hull+", "sphere", "sphere+", "cyl", "cyl+", "planes", "planes+", "tetra", "tetra", "tetra+", "wedge", "open", "open-cyl", "mixed"))
        c = [x + y for x, y in zip(w.pt(3), r.choice(([0, 0, 0], [-2700, -5400, -3600], [3600, 0, -1800])))]
        pts, algs, free = [], [], False
        if "hull" in shape: pts = w.hull_points(c)
        sz = lambda: r.randint(4, 9) * 90
        if "sphere" in shape or shape == "mixed": algs.append(dict(t="sp", c=c, r=sz(), t2=0))
        if "cyl" in shape or shape == "mixed": algs.append(dict(t="cy", a=list(r.choice(NORMALS)), p=c, r=sz(), len=2 * sz(), t2=0))
        if shape == "mixed": algs.append(dict(t="sp", c=[x + 180 for x in c], r=sz() + 180, t2=0))
        if "planes" in shape:
            for j in range(3):
                for s in (1, -1):
                    n = [0, 0, 0]; n[j] = s
                    algs.append(dict(t="pl", n=n, p=[x + v * sz() for x, v in zip(c, n)], t2=0))
        if "tetra" in shape or shape.startswith("open") or shape == "wedge":
            N4 = [(1, 1, 1), (-1, -1, 1), (-1, 1, -1), (1, -1, -1)] if r.random() < .5 else [(-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 1)]
            if shape == "wedge": N4 = [(-1, 0, 0), (0, -1, 0), (1, 1, 0), (0, 0, 1), (0, 0, -1)]
            if shape.startswith("open"): N4.pop(r.randrange(4)); free = shape == "open"
            s = r.choice((1, -1))
            for n in N4:
                n = [s * x for x in n]
                algs.append(dict(t="pl", n=n, p=[x + v * sz() for x, v in zip(c, n)], t2=0))
            if shape.startswith("open"):
                n = list(N4[0])
                algs.append(dict(t="pl", n=[s * x for x in n], p=[x + s * v * sz() for x, v in zip(c, n)], t2=0))
        if "+" in shape:
            for _ in range(r.randint(1, 3)):
                n = list(r.choice(NORMALS))
                algs.append(dict(t="pl", n=n, p=[x + r.choice((0, 1, 2)) * 90 * v for x, v in zip(c, n)], t2=0))
        r.shuffle(algs)
        probes = []
        for _ in range(25):
            d = vec(r, 3); k = r.randint(0, 14) * 45
            probes.append([x + k * v for x, v in zip(c, d)])
        for a in algs:
            if a["t"] == "sp":
                probes += [[x + a["r"] * v for x, v in zip(a["c"], n)] for n in ((1, 0, 0), (0, -1, 0), (0, 0, 1), (-1, 0, 0))]
            if a["t"] == "cy" and sum(map(abs, a["a"])) == 1:
                probes += [[x + s * a["len"] // 2 * v for x, v in zip(a["p"], a["a"])] for s in (1, -1)]
        probes += pts
        e = dict(fn="bb_vol", pts=pts, algs=algs, probes=probes, box=[], free=free)
        def go():
            kw = {}
            if pts: kw["points"] = A(pts)
            if algs: kw["alg_objects"] = [w.build_alg(a) for a in algs]
            v = Volume(**kw)
            b = v.get_bounding_box()
            return [] if b is None else code(np.asarray(b, float).reshape(-1, 3), 180)
        emit(e, go, "box")
    # hulls as planes
    c = w.pt(3)
    pts = w.hull_points([0, 0, 0])
    pts = [[x + y for x, y in zip(p, c)] for p in pts]
    probes = [[x + r.randint(0, 12) * 45 * v for x, v in zip(c, vec(r, 3))] for _ in range(25)] + pts
    probes += [[x + v for x, v in zip(p, vec(r, 3))] for p in pts]
    def go():
        P = A(pts)
        pls = convex_hull_to_planes(P)
        X = A(probes)
        ok = np.ones(len(X), bool)
        for p in pls: ok &= p.checkIfInterior(X)
        return [bool(x) for x in ok]
    emit(dict(fn="hull_planes", pts=pts, probes=probes, ins=[]), go, "ins")
    abc = [r.randint(1, 40) for _ in range(3)]
    ce = [r.randint(-30, 30) for _ in range(3)] if r.random() < .6 else None
    def go():
        b = makeRectPrism(*[x / 10 for x in abc]) if ce is None else makeRectPrism(*[x / 10 for x in abc], center=np.array(ce) / 10)
        return (np.array(code(np.asarray(b) * 2, 10))).tolist()
    emit(dict(fn="prism", abc=abc, centred=ce is not None, c=ce or [0, 0, 0], box=[]), go, "box")
    return [dict(events=evs)]


FN = dict(C17=snap_history, C25=bbox)


def histories(prop, seed, start, count):
    for i in range(start, start + count):
        for h in FN[prop](rng_for(seed, prop, i), i):
            yield h
