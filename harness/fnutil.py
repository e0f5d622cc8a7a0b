"""C12-C16: amorphous blocks and generators, voxel grids, radial
distributions, splits."""
import itertools
from czt import *
from czone.util.measure import get_voxel_grid, get_sdist_fun, calc_rdf
from czone.util.misc import get_N_splits
from czone.generator.amorphous_algorithms import gen_p_substrate, gen_p_substrate_batched
from czone.generator import AmorphousGenerator
from czone.volume import Volume
from czone.volume.algebraic import Plane, Sphere
from czone.transform import Translation, Rotation, Reflection, Inversion, MultiTransform

TIER = os.environ.get("VERIF_TIER", "quick")
PERS = list(itertools.product((False, True), repeat=3))


def ints(x):
    return [int(v) for v in x]


# ------------------------------------------------------------------ voxel grids
def vox_cases():
    """every grid up to 5^3 voxels (6^3 thorough), then odd shapes"""
    n = 5 if TIER == "quick" else 7
    dims = list(itertools.product(range(1, n + 1), repeat=3))
    dims += [(9, 1, 1), (1, 9, 1), (1, 1, 9), (8, 2, 3), (2, 8, 3), (3, 2, 8), (7, 6, 2), (10, 3, 1), (4, 9, 5), (12, 11, 13), (17, 3, 16)]
    return [(d, p) for d in dims for p in PERS]


def voxgrid(r, i):
    cases = vox_cases()
    dim, per = cases[i % len(cases)]
    arg = [dim, list(dim), np.array(dim)][i % 3]
    e = dict(fn="voxgrid", dim=list(dim), per=list(per), res=[])
    v, e["exc"] = guarded(lambda: get_voxel_grid(arg, *per))
    if not e["exc"]: e["res"] = [sorted(ints(x)) for x in v]
    return [dict(events=[e])]


# ------------------------------------------------------------------ RDF
def wdist2(p, q, L, per):
    s = 0
    for k in range(3):
        d = abs(p[k] - q[k])
        if per[k]: d = min(d, L[k] - d)
        s += d * d
    return s


def rdf(r, i):
    per = list(r.choice(PERS))
    ext = [r.choice((10, 30, 60, 120, 200)) for _ in range(3)]
    n = r.randint(2, 22) if i % 40 else r.randint(120, 160)
    P = []
    for _ in range(400):
        p = [r.randint(0, e) for e in ext]
        if r.random() < .3 and P:                      # neighbours at or near a bin edge
            q = r.choice(P); p = [max(0, min(e, x + r.choice((-4, -3, 0, 0, 2, 5)))) for x, e in zip(q, ext)]
        Q = P + [p]
        L = [max(x[k] for x in Q) - min(x[k] for x in Q) for k in range(3)]
        if all(wdist2(a, b, L, per) >= 9 for a, b in itertools.combinations(Q, 2)): P = Q
        if len(P) >= n: break
    if len(P) < 2: P = [[0, 0, 0], [7, 3, 5], [3, 9, 2]]
    L = [max(x[k] for x in P) - min(x[k] for x in P) for k in range(3)]
    if any(wdist2(a, b, L, per) < 9 for a, b in itertools.combinations(P, 2)): return []
    if sum(1 for x in L if x) < 1: return []
    bins = r.choice((10, 20, 50, r.randint(10, 60), r.randint(10, 60)))
    evs = []
    for k in range(3):
        Q = list(P)
        if k: r.shuffle(Q)
        X = np.array(Q, dtype=float) / 20
        if k == 2: X = X + np.array([r.uniform(-50, 50) for _ in range(3)])
        keep = X.copy()
        e = dict(fn="rdf", pts=Q, per=per, bins=bins, res=[], same=True, frac=0)
        v, e["exc"] = guarded(lambda: calc_rdf(X, bins / 10, *per))
        if not e["exc"]:
            v = np.asarray(v, dtype=float)
            e["res"] = [int(round(x)) for x in v]
            e["frac"] = int(np.sum(np.abs(v - np.rint(v)) > 1e-9))
            e["same"] = bool(np.array_equal(X, keep))
        if k == 2:      # shifted by reals: pairs on a bin edge are decided by rounding
            pass
        evs.append(e)
    # the distance function on its own
    dims = [x if x else 10 for x in L]
    A_ = [[r.randint(0, d) for d in dims] for _ in range(r.randint(1, 5))]
    B_ = [[r.randint(0, d) for d in dims] for _ in range(r.randint(1, 5))]
    e = dict(fn="sdist", A=A_, B=B_, dims=dims, per=per, res=[])
    dv = [np.array(dims) / 20, list(np.array(dims) / 20), tuple(np.array(dims) / 20)][i % 3]
    def go():
        f = get_sdist_fun(dv, *per) if any(per) or i % 2 else get_sdist_fun()
        return f((np.array(A_) / 20)[:, :, None], (np.array(B_) / 20).T[None, :, :])
    v, e["exc"] = guarded(go)
    if not e["exc"]:
        e["res"] = code(np.reshape(v, (len(A_), len(B_))), 400)
    evs.append(e)
    return [dict(events=evs)]


# ------------------------------------------------------------------ splits
SETS = [(1, 1, 5), (1, 3, 9), (2, 1, 6), (2, 2, 9), (2, 2, 10), (2, 3, 13), (3, 1, 7), (3, 2, 11), (3, 2, 12), (4, 1, 7),
        (4, 2, 13), (2, 4, 15), (3, 3, 15), (5, 1, 8), (4, 2, 14), (1, 2, 5), (2, 1, 4), (3, 1, 5), (3, 4, 19)]


def splits(r, i):
    evs = []
    for _ in range(30):
        k = r.random()
        if k < .4:
            n, m, l = r.randint(0, 5), r.randint(1, 5), r.randint(1, 40)
        else:                                   # close to the limit of what is possible
            n, m = r.randint(1, 8), r.randint(1, 6)
            l = 2 * m + (n - 1) * m + 1 + r.choice((-3, -1, 0, 0, 1, 1, 2, 3, 5))
            if n > 4: l += r.randint(0, 2 * n)
        seed = r.randint(0, 10**6)
        seeded = r.random() < .8
        e = dict(fn="splits", n=n, m=m, l=l, seeded=seeded, res=[], again=[])
        def go():
            if not seeded: return get_N_splits(n, m, l), []
            return get_N_splits(n, m, l, seed), get_N_splits(n, m, l, seed=seed)
        v, e["exc"] = guarded(go, 60)
        if not e["exc"]: e["res"], e["again"] = ints(v[0]), ints(v[1])
        evs.append(e)
    out = [dict(events=evs)]
    if i < len(SETS):
        n, m, l = SETS[i]
        e = dict(fn="splitset", n=n, m=m, l=l, res=[])
        v, e["exc"] = guarded(lambda: [tuple(ints(get_N_splits(n, m, l, s))) for s in range(3000)], 120)
        if not e["exc"]: e["res"] = [list(x) for x in sorted(set(v))]
        out.append(dict(events=[e]))
    return out


# ------------------------------------------------------------------ amorphous blocks
def block_case(r):
    """sides in 1/10, density and distance in 1/1000"""
    m = r.choice((1000, 1400, 1400, 1700, 2300))
    t = m / 100
    def side():
        k = r.random()
        if k < .25: return int(np.ceil(t * r.uniform(1, 2)))
        if k < .5: return int(np.ceil(t * r.randint(1, 4)))
        return int(t * r.uniform(1.5, 6))
    dims = [max(side(), int(np.ceil(t))) for _ in range(3)]
    rel = r.choice((.1, .2, .3, .35))
    if r.random() < .25:                               # few particles in a large block
        rel, dims = r.choice((.01, .03)), [int(t * r.uniform(5, 11)) for _ in range(3)]
    dens = max(1, int(1000 * rel / (m / 1000) ** 3))
    while dims[0] * dims[1] * dims[2] * dens > 70 * 10**6: dims[int(np.argmax(dims))] -= max(1, max(dims) // 4)
    dims = [max(d, int(np.ceil(t))) for d in dims]
    return dims, dens, m


def coords(a):
    return code(np.reshape(np.asarray(a, dtype=float), (-1, 3)), 1000)


def amorph(r, i):
    evs = []
    for _ in range(4):
        dims, dens, m = block_case(r)
        dense = r.random() < .2
        if dense:                                      # so dense that most attempts fail; may jam, then nothing is said
            t = m / 100
            dims = [int(np.ceil(t * r.uniform(3.6, 5.2))) for _ in range(3)]
            dens = int(1000 * r.choice((.5, .55, .6, .62)) / (m / 1000) ** 3)
        seed = r.randint(0, 10**6)
        algo = i % 2
        kw = {}
        if algo:
            kw = dict(voxel_scale=r.choice((1.0, 2.0, 2.0, 1.5)), batch_size=r.choice((1, 4, 16, 40, 100, 300)))
            if r.random() < .25: kw = {}
        f = gen_p_substrate_batched if algo else gen_p_substrate
        dv = r.choice((np.array(dims) / 10, list(np.array(dims) / 10)))
        keep = np.array(dv)
        e = dict(fn="amorph", dims=dims, dens=dens, m=m, algo=algo, res=[], again=[], other=[], same=True)
        run = lambda s: coords(f(dv, m / 1000, dens / 1000, seed=s, **kw))
        v, e["exc"] = guarded(lambda: (run(seed), run(seed), run(seed + 1)), 20 if dense else 45)
        if dense and e["exc"] == "TimeoutError": continue
        if not e["exc"]: e["res"], e["again"], e["other"] = v
        e["same"] = bool(np.array_equal(keep, np.array(dv)))
        evs.append(e)
        if e["exc"]: break
    return [dict(events=evs)]


# ------------------------------------------------------------------ amorphous generators
PERM = [np.array(m) for m in ([[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 0, 1], [0, -1, 0]],
                              [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]])]


def amgen(r, i):
    evs = []
    def K(x): return np.array(x, dtype=float) / 1000
    def emit(e, fn):
        v, e["exc"] = guarded(fn, 45)
        evs.append(e)
        return v
    m = r.choice((1000, 1400, 1900))
    dens = int(1000 * r.choice((.1, .2, .3)) / (m / 1000) ** 3)
    z = r.choice((6, 14, 32))
    par = dict(dens=dens, m=m, z=z)
    def mk():
        kw = dict(min_dist=m / 1000, density=dens / 1000, species=z)
        if r.random() < .5: kw["origin"] = K([100, 200, 300])
        if z == 6 and r.random() < .5: del kw["species"]           # carbon, unless told otherwise
        return AmorphousGenerator(**kw)
    g = emit(dict(fn="ag_new", **par), mk)
    if evs[-1]["exc"]: return [dict(events=evs)]
    # the region: a box, maybe cut by a sphere or an oblique plane
    c = [r.randint(-80, 80) * 100 for _ in range(3)]
    s = [r.randint(20, 75) * 100 for _ in range(3)]
    while np.prod([x / 1000 for x in s]) * dens / 1000 > 60: s = [max(1500, int(x * .8) // 100 * 100) for x in s]
    reg = dict(planes=[], spheres=[])
    lo, hi = c, [a + b for a, b in zip(c, s)]
    box = [[(lo, hi)[b][k] for k, b in enumerate(bb)] for bb in itertools.product((0, 1), repeat=3)]
    for k in range(3):
        n = [0, 0, 0]; n[k] = 1; reg["planes"].append([n, hi[k]])
        n = [0, 0, 0]; n[k] = -1; reg["planes"].append([n, -lo[k]])
    algs = []
    if r.random() < .4:
        R = max(s) // 200 * 100 + r.randint(0, 9) * 100
        q = [a + b // 200 * 100 for a, b in zip(c, s)]
        algs.append(Sphere(R / 1000, K(q))); reg["spheres"].append([q, R])
    if r.random() < .5:
        n = r.choice(([1, 1, 0], [1, -1, 1], [0, 1, -1], [-1, 0, 0]))
        q = [a + b // 200 * 100 for a, b in zip(c, s)]
        algs.append(Plane(np.array(n, float), K(q))); reg["planes"].append([n, sum(a * b for a, b in zip(n, q))])
    pts = box
    viavol = r.random() < .7
    vol = Volume(points=K(pts), alg_objects=algs or None, generator=g) if viavol else None
    own = vol.generator if viavol else g
    for _ in range(r.randint(3, 7)):
        op = r.choice(("get", "get", "get", "reuse", "tf", "tf", "set"))
        if op == "get" and viavol:
            e = dict(fn="ag_populate", pts=pts, region=reg, res=[], block=[], zs=[])
            def go():
                vol.populate_atoms()
                return vol.atoms, vol.species, vol.generator.old_result[0]
            v = emit(e, go)
            if e["exc"]: break
            e["res"], e["zs"], e["block"] = coords(v[0]), ints(np.ravel(v[1])), coords(v[2])
        elif op == "get":
            q = [[r.randint(-90, 90) * 100 for _ in range(3)]]
            q.append([a + b for a, b in zip(q[0], s)])
            if r.random() < .5: q.append([(a + b) // 200 * 100 for a, b in zip(*q)])
            r.shuffle(q)
            e = dict(fn="ag_supply", pts=q, res=[], zs=[])
            v = emit(e, lambda: g.supply_atoms(K(q)))
            if e["exc"]: break
            e["res"], e["zs"] = coords(v[0]), ints(np.ravel(v[1]))
        elif op == "reuse":
            on = r.random() < .7
            def go(): own.use_old_result = on
            emit(dict(fn="ag_reuse", on=on), go)
        elif op == "set":
            z = r.choice((6, 14, 32)); par = dict(dens=max(1, int(dens * r.choice((.5, 1)))), m=m, z=z)
            def go(): own.species = z; own.density = par["dens"] / 1000
            emit(dict(fn="ag_set", **par), go)
        else:
            lk = r.random() < .75 or not viavol
            k = r.choice(("tr", "rot", "inv", "ref"))
            o = [r.randint(-30, 30) * 100 for _ in range(3)]
            kw = {} if lk and r.random() < .5 else dict(locked=lk)
            if k == "tr": T, t = dict(N=np.eye(3, dtype=int).tolist(), d=1, c=[0, 0, 0], t=o), Translation(K(o), **kw)
            elif k == "rot":
                N = r.choice(PERM); T, t = dict(N=N.tolist(), d=1, c=o, t=[0, 0, 0]), Rotation(N, origin=K(o), **kw)
            elif k == "inv": T, t = dict(N=(-np.eye(3, dtype=int)).tolist(), d=1, c=o, t=[0, 0, 0]), Inversion(origin=K(o), **kw)
            else: T, t = dict(N=[[1, 0, 0], [0, -1, 0], [0, 0, 1]], d=1, c=o, t=[0, 0, 0]), Reflection(Plane((0, 1, 0), K(o)), **kw)
            if viavol:
                N, cc, tt = np.array(T["N"]), np.array(T["c"]), np.array(T["t"])
                mp = lambda p: ints(N @ (np.array(p) - cc) + cc + tt)
                pts = [mp(p) for p in pts]
                new = dict(planes=[], spheres=[[mp(q), R] for q, R in reg["spheres"]])
                for n, cst in reg["planes"]:
                    n2 = N @ np.array(n)
                    q = np.array(n) * cst; q2 = np.dot(n, n)      # a point of the plane, times |n|^2
                    # n.x <= cst  <=>  n2.y <= cst + n2.(cc+tt) - n.cc
                    new["planes"].append([ints(n2), int(cst + np.dot(n2, cc + tt) - np.dot(n, cc))])
                reg = new
                e = dict(fn="ag_tf", T=[T], moves=lk)
                emit(e, lambda: vol.transform(t))
            else:
                e = dict(fn="ag_tf", T=[T], moves=True)
                emit(e, lambda: g.transform(t))
            if e["exc"]: break
        if evs[-1]["exc"]: break
    return [dict(events=evs)]


FN = dict(C12=amorph, C13=amgen, C14=voxgrid, C15=rdf, C16=splits)


def histories(prop, seed, start, count):
    for i in range(start, start + count):
        for h in FN[prop](rng_for(seed, prop, i), i):
            yield h
