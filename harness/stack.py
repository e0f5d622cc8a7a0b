"""C18, C19: planar defects of fcc and wurtzite crystals."""
import itertools
from czt import *
from pymatgen.core import Structure, Lattice
from czone.volume import Volume, MultiVolume
from czone.volume.algebraic import Plane, Sphere
from czone.generator import Generator
from czone.transform import Translation, Rotation
from czone.prefab import fccMixedTwinSF, fccTwin, fccStackingFault, wurtziteStackingFault

_rng = np.random.default_rng


def seeded(seed):
    """the library draws planes from a generator without seed: give it one"""
    np.random.seed(seed)
    box = [seed]
    def make(*a, **k):
        if not [x for x in list(a) + list(k.values()) if x is not None]:
            box[0] += 1
            return _rng(box[0])
        return _rng(*a, **k)
    np.random.default_rng = make


def rotation(r):
    if r.random() < .3:
        return np.eye(3)
    q = np.array([r.gauss(0, 1) for _ in range(4)])
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def vertices(H):
    """of the half spaces w.y <= c"""
    out = []
    for a, b, c in itertools.combinations(H, 3):
        M = np.array([a["w"], b["w"], c["w"]], float)
        if abs(np.linalg.det(M)) < 1e-9: continue
        y = np.linalg.solve(M, [a["c"], b["c"], c["c"]])
        if all(np.dot(h["w"], y) <= h["c"] + 1e-6 for h in H) and not any(np.allclose(y, o, atol=1e-6) for o in out):
            out.append(y)
    return np.array(out)


def hs(w, c):
    return dict(w=[int(x) for x in w], c=int(c))


class Frame:
    """y (lattice units) <-> x (Angstrom):  x = o + M y"""
    def __init__(self, o, M):
        self.o, self.M, self.I = np.array(o, float), np.array(M, float), np.linalg.inv(M)

    def x(self, y): return np.asarray(y, float) @ self.M.T + self.o
    def y(self, x): return (np.asarray(x, float) - self.o) @ self.I.T

    def plane(self, h, r):
        w = np.array(h["w"], float)
        y = w * h["c"] / np.dot(w, w)
        n = self.I.T @ w
        return Plane(normal=n * r.choice((1.0, 2.5, 1 / np.linalg.norm(n))), point=self.x(y))


def scaled(r, st):
    """a crystal, or the same one described by a smaller structure and the scale of its voxel"""
    if r.random() < .85: return Generator(structure=st)
    s = r.choice((.5, 2.0, 1.03))
    g = Generator(structure=Structure(Lattice(st.lattice.matrix / s), [x.specie for x in st], st.frac_coords))
    g.voxel.scale = r.choice((s, np.array([s]), np.array([s] * 3)))
    return g


def placed(r, g):
    """the generator moved; returns rotation and shift of its lattice"""
    R, t = rotation(r), np.array([r.uniform(-20, 20) for _ in range(3)]) * r.choice((0, 1, 1))
    o = np.array(g.origin, float)
    if r.random() < .3:
        o = o + [r.uniform(-3, 3) for _ in range(3)]
        g.origin = o
    if not np.allclose(R, np.eye(3)):
        g.transform(Rotation(R))
        o = R @ o
    if r.random() < .8:
        g.transform(Translation(t))
        o = o + t
    return R, o


def vol_of(r, fr, H, E, S, how, g):
    pl = lambda hh: [fr.plane(h, r) for h in hh]
    kw = {}
    if r.random() < .3: kw["generator"] = g
    if r.random() < .3: kw["priority"] = r.randint(-2, 4)
    if how == "planes": return Volume(alg_objects=pl(H), **kw)
    if how == "ball": return Volume(alg_objects=[S[0]], **kw)
    pts = fr.x(vertices(E))
    alg = pl(H[len(E):]) + S
    return Volume(points=pts, alg_objects=alg, **kw) if alg else Volume(points=pts, **kw)


def state(v, g):
    s = [np.array(v.points) if v.points is not None else None, v.priority, len(v.alg_objects), id(v.generator)]
    for a in v.alg_objects:
        s += [np.array(a.point), np.array(a.normal)] if isinstance(a, Plane) else [np.array(a.center), a.radius]
    return s + [np.array(g.voxel.bases), np.array(g.voxel.origin), np.array(g.origin),
                np.array(g.coords), np.array(g.species), np.array(g.voxel.scale)]


def same(a, b):
    return all((x is None and y is None) or np.array_equal(x, y) for x, y in zip(a, b)) and len(a) == len(b)


def detour(r, pre):
    """builds of one prefab do not depend on what it was used for before"""
    what = r.choice([k for k in ("N", "min_sep", "plane", "ratio", "generator", "volume", "all") if hasattr(pre, k) or k == "all"])
    if isinstance(pre, wurtziteStackingFault) and what == "plane": what = "N"
    keep = {k: getattr(pre, k) for k in ("N", "min_sep", "plane", "ratio", "generator", "volume") if hasattr(pre, k)}
    g2 = keep["generator"].from_generator(transformation=[Translation(np.array([1.3, -2.1, .7]))])
    v2 = Volume(points=np.array(list(itertools.product((-30, 33), repeat=3)), float))
    other = dict(N=r.choice((0, 1, 2, 3)), min_sep=r.choice((1, 2, 4)), ratio=r.choice((0.0, .5, 1.0)), generator=g2, volume=v2)
    if not isinstance(pre, wurtziteStackingFault): other["plane"] = tuple(r.choice((1, -1)) for _ in range(3))
    for k in (other if what == "all" else [what]):
        if k in keep: setattr(pre, k, other[k])
    try:
        ob = pre.build_object()
        if r.random() < .3: ob.populate_atoms()
    except Exception as x:
        if isinstance(x, TimeoutError): raise
    for k, val in keep.items():
        if k == "plane" and isinstance(pre, wurtziteStackingFault): continue
        setattr(pre, k, val)


def observe(r, e, v, g, pre, names, built):
    """atoms of the built object, in lattice units"""
    keep = state(v, g)
    def go():
        np_default = np.random.default_rng
        try:
            seeded(r.randrange(10**6))
            u = r.random()
            if u < .15: pre.build_object()
            elif u < .5: detour(r, pre)
            if r.random() < .5: ob, d = pre.build_object(return_defect_types=True)
            else:
                s = r.randrange(10**6)
                seeded(s); ob = pre.build_object()
                seeded(s); d = pre.build_object(return_defect_types=True)[1]
            ob.populate_atoms()
        finally:
            np.random.default_rng = np_default
        at, sp = ob.atoms, ob.species
        at, sp = np.array(at, float).reshape(-1, 3).copy(), [int(z) for z in np.ravel(sp)]
        ok = same(keep, state(v, g))
        if r.random() < .4:
            ob.transform(Translation(np.array([1.0, 2.0, 3.0])))
            ok = ok and same(keep, state(v, g))
        return built(at, sp, d, ok)
    _, e["exc"] = guarded(go, 60)


# ------------------------------------------------------------------ fcc
def odd(r, lo, hi):
    """an offset no site can have"""
    return 12 * r.randint(int(lo) // 12, int(hi) // 12) + r.choice((5, 6, 7))


def fcc(r, i):
    if i % 12 == 11: return ratio_case(r, i)
    a = r.choice((3.6, 3.9, 4.08, 4.05, 5.0))
    el = r.choice(("Au", "Cu", "Al", "Ag"))
    n = np.array([r.choice((1, -1)) for _ in range(3)])
    st = Structure(Lattice.cubic(a), [el] * 4, [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
    g = scaled(r, st)
    R, o = placed(r, g)
    fr = Frame(o, a / 72 * R)
    kind = r.choice(("mixed", "mixed", "twin", "sf"))
    ctr = np.array([r.randint(-150, 150) for _ in range(3)]) * r.choice((0, 1))
    n_ = [int(x) for x in n]
    how = r.choice(("prism", "prism", "prism", "planes", "box", "octa", "ball", "cut", "ballcut"))
    u, w = [n_[0], -n_[1], 0], [n_[0], n_[1], -2 * n_[2]]
    H, S, Sc = [], [], []
    def pair(d, lo, hi):
        c = int(np.dot(d, ctr))
        return [hs(d, c // 12 * 12 + odd(r, lo, hi)), hs([-x for x in d], -c // 12 * 12 + odd(r, lo, hi))]
    if how in ("prism", "planes", "cut"):
        half = 36 * r.randint(9, 15)
        H = pair(n_, half, half + 72) + pair(u, 70, 110) + pair(w, 120, 200)
        if how == "planes": r.shuffle(H)
    elif how == "box":
        for k in range(3): H += pair([int(k == j) for j in range(3)], 110, 170)
    elif how == "octa":
        c = r.randint(250, 420)
        for s in itertools.product((1, -1), repeat=2): H += pair([1, s[0], s[1]], c, c + 20)
    E = list(H)
    if how == "cut":
        for _ in range(r.randint(1, 2)):
            d = r.choice(([1, 0, 0], [0, -1, 0], [0, 0, 1], [1, 1, 0], [-1, 0, 1]))
            H = H + [hs(d, int(np.dot(d, ctr)) // 12 * 12 + odd(r, 60, 160))]
    if how in ("ball", "ballcut"):
        rad = r.randint(150, 220)
        q = 2 * rad * rad + 1
        Sc = [dict(c=[int(x) for x in ctr], q=q)]
        S = [Sphere(center=fr.x(ctr), radius=math.sqrt(q / 2) * a / 72)]
        if how == "ballcut":
            for k in range(3): H += pair([int(k == j) for j in range(3)], 80, 210)
            E = list(H)
    v = vol_of(r, fr, H, E, S, how, g)
    # how many defects fit
    if how in ("ball", "ballcut"):
        c0 = float(np.dot(n, ctr)); w0 = rad * math.sqrt(3)
    else:
        c_ = vertices(E) @ n; c0, w0 = (c_.min() + c_.max()) / 2, (c_.max() - c_.min()) / 2
    L = math.ceil((c0 + w0) / 72 + .01) - math.floor((c0 - w0) / 72 - .01) - 1      # never more than there are
    m = r.choice((3, 3, 3, 2, 4, 5, 1))
    most = max(0, (L - 2 * m - 1) // m + 1) if L - 2 * m > 0 else 0
    N = r.randint(0 if r.random() < .1 else 1, max(1, min(most, 5)))
    if N > most: m, N = 1, min(2, L - 3)
    kw = dict(N=N, min_sep=m)
    if m == 3 and r.random() < .3: kw.pop("min_sep")
    kw["plane"] = r.choice((tuple(n_), list(n_), n.copy()))
    if n_ == [1, 1, 1] and r.random() < .5: kw.pop("plane")
    cls, tw, sf = fccMixedTwinSF, True, True
    if kind == "twin": cls, sf = fccTwin, False
    elif kind == "sf": cls, tw = fccStackingFault, False
    else:
        rt = r.choice((.5, .5, .3, .7, .1, .9, .95, 0.0, 1.0))
        kw["ratio"] = rt
        sf, tw = rt > 0, rt < 1
    e = dict(fn="fcc", n=n_, H=H, E=E, S=Sc, N=N, m=max(m, 1), tw=tw, sf=sf, rtw=False, rsf=False,
             pos=[], off=0, oksp=True, same=True)
    def built(at, sp, d, ok):
        y = fr.y(at)
        e["pos"], e["off"] = snap(y, 1, .03)
        z = st[0].specie.Z
        e.update(oksp=len(sp) == len(at) and all(x == z for x in sp), same=ok, rtw=bool(d["twin"]), rsf=bool(d["stacking_fault"]))
    if r.random() < .5: pre, exc = guarded(lambda: cls(generator=g, volume=v, **kw))
    else:
        def mk():
            p = cls(**kw); p.generator = g; p.volume = v
            return p
        pre, exc = guarded(mk)
    if exc: e["exc"] = exc
    else: observe(r, e, v, g, pre, None, built)
    return [dict(events=[e], note=how)]


def ratio_case(r, i):
    a = 4.0
    st = Structure(Lattice.cubic(a), ["Au"] * 4, [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]])
    g = Generator(structure=st)
    v = Volume(points=np.array(list(itertools.product((0, 20), repeat=3)), float))
    rt, n = r.choice((5, 10, 20, 50, 80, 90, 95)), r.randint(1, 5)
    e = dict(fn="sfratio", ratio=rt, N=n, total=120, sf=0, tw=0)
    def go():
        keep = np.random.default_rng
        try:
            seeded(r.randrange(10**6))
            p = fccMixedTwinSF(generator=g, volume=v, ratio=rt / 100, N=n, min_sep=2)
            d = [p.build_object(return_defect_types=True)[1] for _ in range(120)]
            e["sf"], e["tw"] = sum(bool(x["stacking_fault"]) for x in d), sum(bool(x["twin"]) for x in d)
        finally:
            np.random.default_rng = keep
    _, e["exc"] = guarded(go, 60)
    return [dict(events=[e])]


# ------------------------------------------------------------------ wurtzite
MATS = [("Ga", "N"), ("Zn", "O"), ("Al", "N"), ("Cd", "Se"), ("Zn", "S"), ("N", "Ga")]


def wz(r, i):
    a = r.choice((3.19, 3.25, 4.3, 3.8))
    c = a * math.sqrt(8 / 3)
    uu = r.choice((75, 75, 75, 76))
    how = r.choice(("prism", "prism", "prism", "planes", "tilt", "ball", "ballcut"))
    if "ball" not in how: c *= r.choice((1, 1, .97, 1.02))
    low, up = r.choice(MATS)
    flip = r.random() < .35                       # the other setting of the cell
    zo = r.choice((0, 0, 0, 0, uu, -uu, 25, 50, 100, 30, -10))        # height of the lower atom of the first pair, 1/200 c
    lat = np.array(r.choice(((1 / 3, 2 / 3), (1 / 3, 2 / 3), (1 / 3, 2 / 3), (0, 0), (2 / 3, 1 / 3))))
    d = np.array((1 / 3, -1 / 3)) * (-1 if flip else 1)
    sites = [(low, *lat, zo / 200), (up, *lat, (zo + uu) / 200),
             (low, *(lat + d), (zo + 100) / 200), (up, *(lat + d), (zo + 100 + uu) / 200)]
    if r.random() < .3:                           # coordinates as files and arithmetic give them
        eps = r.choice((1e-17, -1e-17, 1e-13, -1e-13, 1e-10))
        sites = [(s[0], s[1], s[2] - eps, s[3] + eps) for s in sites]
    if r.random() < .5: r.shuffle(sites)
    st = Structure(Lattice.hexagonal(a, c), [s[0] for s in sites], [[x % 1 for x in s[1:]] for s in sites])
    g = scaled(r, st)
    R, o = placed(r, g)
    Bm = np.array([[a, 0, 0], [-a / 2, a * math.sqrt(3) / 2, 0], [0, 0, c]]).T
    Bm = R @ np.array(st.lattice.matrix).T
    fr = Frame(o + Bm @ np.array([*lat, zo / 200]), Bm @ np.diag([1 / 12, 1 / 12, 1 / 200]))
    ctr = np.array([r.randint(-30, 30), r.randint(-30, 30), r.randint(-500, 500)]) * r.choice((0, 1))
    H, Sc, S = [], [], []
    lat4 = lambda w, lo, hi: hs(w, (int(np.dot(w, ctr)) // 4 + r.randint(lo, hi)) * 4 + 2)
    zz = lambda s, h: hs([0, 0, s], s * (int(ctr[2]) // 100) * 100 + h * 100 + r.choice((13, 40, 55, 90) if s > 0 else (10, 45, 60, 87)))
    if how in ("prism", "planes"):
        h = r.randint(6, 10)
        H = [zz(1, h), zz(-1, h)]
        for w in ([1, 0, 0], [0, 1, 0], [1, -1, 0])[:r.choice((2, 3))]:
            H += [lat4(w, 4, 6), lat4([-x for x in w], 4, 6)]
        if how == "planes": r.shuffle(H)
    elif how == "tilt":
        h = r.randint(7, 10)
        H = [zz(1, h), zz(-1, h)]
        for w in ([10, 0, 1], [0, 10, 1], [10, -10, 1]):
            for s in (1, -1):
                q = [x * s for x in w]
                H.append(hs(q, (int(np.dot(q, ctr)) // 10 + r.randint(35, 45) + 50) * 10 + 3))
    if "ball" in how:
        rad = r.randint(600, 800)                       # half height
        q = 48 * rad * rad + 24 * rad
        Sc = [dict(c=[int(x) for x in ctr], q=q)]
        S = [Sphere(center=fr.x(ctr), radius=math.sqrt(q * a * a / 720000))]
        if how == "ballcut":
            H = [lat4(w, 5, 9) for w in ([1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0])] + [zz(1, r.randint(4, 9)), zz(-1, r.randint(4, 9))]
    E = list(H)
    v = vol_of(r, fr, H, E, S, how, g)
    zs = ([ctr[2] - rad, ctr[2] + rad] if "ball" in how else [vertices(E)[:, 2].min(), vertices(E)[:, 2].max()])
    L = int(math.floor((zs[1] - zs[0]) / 100))
    m = r.choice((6, 6, 3, 4, 5))
    most = max(0, (L - 2 * m - 1) // m + 1) if L > 2 * m else 0
    if most == 0: m = 3; most = (L - 2 * m - 1) // m + 1
    N = r.randint(1, max(1, min(most, 4)))
    kw = dict(N=N)
    if m != 6 or r.random() < .5: kw["min_sep"] = m
    e = dict(fn="wz", H=H, E=E, S=Sc, uu=uu, N=N, m=m, pos=[], off=0, oksp=True, same=True, rsf=True)
    Z = {str(x.specie): x.specie.Z for x in st}
    def built(at, sp, d, ok):
        p, e["off"] = snap(fr.y(at), 1, .03)
        e["oksp"] = len(sp) == len(at) and all(x in Z.values() for x in sp)
        e["same"] = ok
        e["rsf"] = bool(d["stacking_fault"])
        e["pos"] = [x + [0 if s == Z[low] else 1] for x, s in zip(p, sp)]
    if r.random() < .5: pre, exc = guarded(lambda: wurtziteStackingFault(generator=g, volume=v, **kw))
    else:
        def mk():
            p = wurtziteStackingFault(**kw); p.generator = g; p.volume = v
            return p
        pre, exc = guarded(mk)
    if exc: e["exc"] = exc
    else: observe(r, e, v, g, pre, None, built)
    return [dict(events=[e], note="%s flip=%s zo=%s lat=%s" % (how, flip, zo, lat.tolist()))]


def histories(prop, seed, start, count):
    for i in range(start, start + count):
        r = rng_for(seed, prop, i)
        for h in (fcc(r, i) if prop == "C18" else wz(r, i)):
            yield h
