"""Random programs over the object model, run against the real library and
recorded as histories of CZWorld (see spec/CZWorld.tla, spec/TraceWorld.tla)."""
import builtins, itertools
from pathlib import Path
from czt import *
from ase import Atoms
from ase.io import read as ase_read
from ase.data import chemical_symbols
from pymatgen.core import Structure, Lattice
from czone.generator import Generator, NullGenerator
from czone.volume import Volume, MultiVolume, makeRectPrism
from czone.volume.algebraic import Plane, Sphere, Cylinder
from czone.transform import Translation, Rotation, Reflection, Inversion, MatrixTransform, MultiTransform
from czone.molecule.molecule import Molecule
from czone.scene import Scene

I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
PERMS = []
for p in itertools.permutations(range(3)):
    for s in itertools.product((1, -1), repeat=3):
        PERMS.append([[s[i] if p[i] == j else 0 for j in range(3)] for i in range(3)])
det = lambda m: int(round(np.linalg.det(np.array(m, dtype=float))))
ROT1 = [m for m in PERMS if det(m) == 1 and m != I3]
IMP1 = [m for m in PERMS if det(m) == -1]
R3 = [([[1, -2, 2], [2, -1, -2], [2, 2, 1]], 3), ([[2, -1, 2], [2, 2, -1], [-1, 2, 2]], 3),
      ([[2, 2, -1], [-1, 2, 2], [2, -1, 2]], 3), ([[-1, 2, 2], [2, -1, 2], [2, 2, -1]], 3)]
R5 = [([[3, -4, 0], [4, 3, 0], [0, 0, 5]], 5), ([[5, 0, 0], [0, 3, -4], [0, 4, 3]], 5),
      ([[4, 0, 3], [0, 5, 0], [-3, 0, 4]], 5)]
SHEARS = [[[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[2, 0, 0], [0, 1, 0], [0, 0, 1]],
          [[1, 0, 1], [0, 1, 0], [1, 0, 2]], [[1, 0, 0], [0, -1, 0], [0, 1, 2]],
          [[1, 0, 0], [1, 1, 1], [0, 0, 1]], [[0, 1, 0], [0, 1, 1], [1, 0, 0]]]

SITE0 = [[0, 0, 0]]
FCC = [[0, 0, 0], [1, 1, 0], [1, 0, 1], [0, 1, 1]]
BCC = [[0, 0, 0], [1, 1, 1]]
OUT = [[3, 1, 0], [0, -1, 1], [-2, 0, 3]]         # sites outside of the unit cell
ELS = [6, 14, 29, 47, 79]


def cell_catalog():
    ang = 180
    c = []
    def cub(a): return [[a * ang, 0, 0], [0, a * ang, 0], [0, 0, a * ang]]
    for a in (3, 4, 5): c.append((cub(a), SITE0))
    c.append((cub(4), FCC)); c.append((cub(6), FCC)); c.append((cub(4), BCC)); c.append((cub(5), OUT))
    def rows(*r): return [[x * ang for x in v] for v in r]
    for r in (((4, 0, 0), (0, 3, 0), (0, 0, 5)), ((4, 0, 0), (2, 4, 0), (0, 0, 4)),
              ((4, 0, 0), (1, 4, 0), (1, 1, 4)), ((0, 2, 2), (2, 0, 2), (2, 2, 0)),
              ((-2, 2, 2), (2, -2, 2), (2, 2, -2)), ((4, 0, 0), (-2, 3, 0), (0, -1, 5)),
              ((0, 4, 0), (4, 0, 0), (0, 0, 4)), ((5, 1, 0), (0, 4, 1), (1, 0, 4))):
        for s in (SITE0, BCC, OUT):
            c.append((rows(*r), s))
    return c


CELLS = cell_catalog()
OCTA = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
CUBE = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [0, 1, 1], [1, 1, 1]]
NORMALS = [n for n in itertools.product((-1, 0, 1), repeat=3) if any(n)] + \
          [(1, 2, 2), (2, -1, 2), (2, 1, 0), (-1, 0, 2), (0, 3, 4)]
AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (1, 1, 0), (1, 1, 1), (1, -1, 1), (1, 2, 2), (0, 3, 4)]
AXES1 = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, -1, 0)]


class Stop(Exception):
    pass


def shift(ob, name, new, inplace):
    """ob.name = new, or ob.name += (new - ob.name) as one does with arrays"""
    old = getattr(ob, name)
    if inplace and isinstance(old, np.ndarray) and old.dtype == float and old.shape == np.shape(new) and old.flags.writeable:
        if name == "origin": ob.origin += new - old
        elif name == "center": ob.center += new - old
        elif name == "points": ob.points += new - old
        else: ob.point += new - old
    else:
        setattr(ob, name, new)


class World:
    scratch = os.getcwd()          # the shard's work folder

    def __init__(self, rng, profile):
        self.r = rng
        self.pf = profile
        self.ev = []
        self.obj = {}          # id -> python object
        self.kind = {}
        self.meta = {}         # id -> dict
        self.n = 0
        self.b3, self.b5, self.bs = 2, 1, 1
        self.pool = []
        # numbers of priorities may be of any size
        self.wide = (0, 1, 300, 300, -200, 10**9, -10**9) if rng.random() < .15 else None

    # ------------------------------------------------------------ helpers
    def newid(self, k):
        self.n += 1
        return "%s%d" % (k, self.n)

    def ids(self, *kinds):
        return [i for i in self.obj if self.kind[i] in kinds]

    def pt(self, lim=4, step=90):
        m = lim * 180 // step
        return [self.r.randint(-m, m) * step for _ in range(3)]

    def emit(self, e, fn=None, sec=20):
        v, exc = guarded(fn, sec) if fn else (None, "")
        e["exc"] = exc
        self.ev.append(e)
        if exc:
            raise Stop()
        return v

    def reg(self, id, kind, o, **meta):
        self.obj[id], self.kind[id], self.meta[id] = o, kind, meta

    def scrub(self, *arrs):
        """arrays handed to the library may be changed by their owner afterwards"""
        if self.r.random() < 0.5:
            for a in arrs:
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a += 37

    def shp(self, v):
        """vectors may be given as columns, too"""
        return v.reshape(self.r.choice(((3,), (3,), (3, 1))))

    # ------------------------------------------------------------ generators
    def mk_cell(self, k=None):
        """k: scale of the voxel, one number or one for each basis vector"""
        B, S = self.r.choice(CELLS)
        sites = [dict(f=f, z=self.r.choice(ELS)) for f in S]
        st = Structure(Lattice(A(B) if k is None else A(B) / np.reshape(k, (-1, 1))), [s["z"] for s in sites], [np.array(s["f"]) / 2 for s in sites])
        return B, sites, st

    def new_gen(self, null=0.1):
        id = self.newid("g")
        if self.r.random() < null:
            g = self.emit(dict(ev="gen", id=id, kind="null"), NullGenerator)
            self.reg(id, "null", g)
            return id
        k = self.r.choice((None, None, None, None, [2], [.5], [2, .5, 4]))
        B, sites, st = self.mk_cell(k)
        o = self.pt(3)
        org = AZ(o)
        how = self.r.randint(0, 2)
        def build():
            g = make()
            if k: g.voxel.scale = np.array(k)
            return g
        def make():
            if how == 0:
                return Generator(structure=st, origin=org)
            if how == 1:
                g = Generator(structure=st)
                g.origin = org
                return g
            g = Generator(origin=org)
            g.structure = st
            return g
        g = self.emit(dict(ev="gen", id=id, kind="crystal", o=o, B=B, D=2, sites=sites), build)
        self.scrub(org)
        self.reg(id, "gen", g)
        return id

    def a_gen(self, null=0.1):
        c = self.ids("gen", "null")
        return self.r.choice(c) if c and self.r.random() < 0.6 else self.new_gen(null)

    # ------------------------------------------------------------ surfaces
    def alg_params(self, t, c=None, size=None, tol=False):
        r = self.r
        c = c or self.pt(2)
        t2 = r.choice((0, 0, 101, 271)) if tol else 0
        if t == "cy": self.lock_rot()
        size = size or r.randint(4, 9) * 90
        if t == "sp":
            return dict(t="sp", c=c, r=size, t2=t2)
        if t == "cy":
            return dict(t="cy", a=list(r.choice(AXES if self.b3 + self.b5 == 0 and not self.used else AXES[:7])), p=c,
                        r=min(size, 540), len=2 * r.randint(3, 8) * 90, t2=t2)
        return dict(t="pl", n=list(r.choice(NORMALS)), p=c, t2=t2)

    def build_alg(self, a, scrub=True):
        kw = {} if a["t2"] == 0 else dict(tol=a["t2"] / 2 / U)
        if a["t"] == "sp":
            c = self.shp(AZ(a["c"])); o = Sphere(a["r"] / U, c, **kw); self.scrub(c)
        elif a["t"] == "cy":
            c, ax = AZ(a["p"]), np.array(a["a"], dtype=float) * self.r.choice((1, 2.5))
            o = Cylinder(ax, c, a["r"] / U, a["len"] / U, **kw); self.scrub(c, ax)
        else:
            c, n = AZ(a["p"]), np.array(a["n"], dtype=float) * self.r.choice((1, 3))
            if self.r.random() < .3: n = n.reshape(3, 1)
            if self.r.random() < .3: c = c.reshape(1, 3)
            o = Plane(n, c, **kw); self.scrub(c, n)
        return o

    def new_alg(self, a=None, tol=True):
        a = a or self.alg_params(self.r.choice(("pl", "sp", "cy", "pl")), tol=tol)
        id = self.newid("a")
        o = self.emit(dict(ev="alg", id=id, a=a), lambda: self.build_alg(a))
        self.reg(id, "alg", o, a=a)
        return id

    def lock_rot(self):
        """cylinders keep axes short: at most one rational rotation in their history"""
        if self.used:
            self.b3 = self.b5 = 0
        elif self.b3 + self.b5 > 1:
            self.b3, self.b5 = self.r.choice(((1, 0), (0, 1), (0, 0)))
    used = False

    # ------------------------------------------------------------ volumes
    def hull_points(self, c=None, big=False):
        r = self.r
        c = c or self.pt(3)
        k = r.choice(("box", "octa", "tet", "rand", "box"))
        huge = r.random() < self.pf.get("huge", 0)   # thousands of atoms
        s = [(r.randint(5, 9 if not big else 14) if not huge else r.randint(36, 50)) * 90 for _ in range(3)]
        if huge: k = "box"
        whole = r.random() < .15             # coordinates which are whole numbers of Angstrom
        if whole: c, s = [x - x % 180 for x in c], [x + x % 180 for x in s]
        if k == "box":
            P = [[c[i] + (v[i] * 2 - 1) * s[i] for i in range(3)] for v in CUBE]
        elif k == "octa":
            P = [[c[i] + v[i] * (s[i] + (360 if whole else 270)) for i in range(3)] for v in OCTA]
        elif k == "tet":
            P = [[c[i] + d * v[i] for i in range(3)] for v, d in
                 zip([(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)], [r.randint(3, 6) * 180 if whole else r.randint(6, 12) * 90] * 4)]
        else:
            P = [[c[i] + r.randint(-6, 6) * 180 for i in range(3)] for _ in range(r.randint(5, 8))]
            P += [[c[i] + v[i] * 540 for i in range(3)] for v in OCTA]
        P = [list(x) for x in dict.fromkeys(map(tuple, P))]
        r.shuffle(P)
        return P

    def enc_box(self, c, h):
        return [[c[i] + (v[i] * 2 - 1) * h for i in range(3)] for v in CUBE]

    def new_vol(self, gen=True, null=0.1, shape=None, prio=None):
        r = self.r
        shape = shape or r.choice(self.pf.get("shapes", ("hull", "hull", "sphere", "cyl", "planes", "hull+", "sphere+", "cyl+")))
        c = self.pt(3)
        algs, pts, enc = [], [], []
        if shape.startswith("hull"):
            pts = self.hull_points(c)
            if "+" in shape:
                many = r.random() < .1          # many surfaces, most of them beyond the hull
                for _ in range(r.randint(5, 9) if many else r.randint(1, 2)):
                    t = r.choice(("sp", "sp", "cy") if many else ("pl", "pl", "sp", "cy"))
                    algs.append(self.new_alg(self.alg_params(t, c=[x + r.randint(-3, 3) * 90 for x in c],
                                                             size=r.randint(*((12, 17) if many else (7, 12))) * 90, tol=True)))
        elif shape.startswith("sphere"):
            R = r.randint(5, 9) * 90
            algs.append(self.new_alg(dict(t="sp", c=c, r=R, t2=0)))
            enc = self.enc_box(c, R + 90)
            for _ in range(r.choice((0, 0, 0, 1, 2, 3))):          # others that contain most of it
                o = [x + r.randint(-2, 2) * 90 for x in c]
                q = dict(t="sp", c=o, r=R + r.randint(0, 4) * 90, t2=0) if r.random() < .7 else \
                    self.alg_params("cy", c=o, size=R + r.randint(1, 4) * 90)
                algs.append(self.new_alg(q))
            r.shuffle(algs)
        elif shape.startswith("cyl"):
            a = self.alg_params("cy", c=c)
            algs.append(self.new_alg(a))
            enc = self.enc_box(c, a["r"] + a["len"] // 2 + 90)
            for _ in range(r.choice((0, 0, 0, 0, 1, 2))):
                algs.append(self.new_alg(self.alg_params("cy", c=[x + r.randint(-2, 2) * 90 for x in c], size=r.randint(7, 12) * 90)))
        else:
            s = [r.randint(5, 8) * 90 for _ in range(3)]
            k = r.choice(("box", "octa", "prism", "tetra", "corner"))
            if k == "tetra":
                h, m = r.randint(6, 9) * 90, r.choice((1, -1))
                for n in ((1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)):
                    algs.append(self.new_alg(dict(t="pl", n=[m * x for x in n], p=[c[0] + m * n[0] * h, c[1], c[2]], t2=0)))
                enc = self.enc_box(c, h + 90)
            elif k == "corner":
                h, q = r.randint(4, 8) * 90, [r.choice((1, -1)) for _ in range(3)]
                for i in range(3):
                    n = [0, 0, 0]; n[i] = -q[i]
                    algs.append(self.new_alg(dict(t="pl", n=n, p=[c[j] - q[j] * 270 if j == i else c[j] + r.randint(-4, 4) * 90 for j in range(3)], t2=0)))
                algs.append(self.new_alg(dict(t="pl", n=q, p=[c[0] + q[0] * h, c[1], c[2]], t2=0)))
                enc = self.enc_box(c, h + 900)
            elif k == "box":
                for i in range(3):
                    for sg in (1, -1):
                        n = [0, 0, 0]; n[i] = sg
                        p = [c[j] + (sg * s[i] if j == i else r.randint(-4, 4) * 90) for j in range(3)]
                        algs.append(self.new_alg(dict(t="pl", n=n, p=p, t2=0)))
                enc = self.enc_box(c, max(s) + 90)
            elif k == "octa":
                h = r.randint(8, 12) * 90
                for n in itertools.product((1, -1), repeat=3):
                    algs.append(self.new_alg(dict(t="pl", n=list(n), p=[c[0] + n[0] * h, c[1], c[2]], t2=0)))
                enc = self.enc_box(c, h + 90)
            else:
                h = r.randint(5, 8) * 90
                for n in ((1, 1, 0), (-1, 0, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)):
                    algs.append(self.new_alg(dict(t="pl", n=list(n), p=[c[i] + n[i] * h for i in range(3)], t2=0)))
                enc = self.enc_box(c, 3 * h + 90)
            r.shuffle(algs)
        if "+" in shape and not shape.startswith("hull"):
            n = list(r.choice(NORMALS))
            algs.append(self.new_alg(dict(t="pl", n=n, p=[c[i] + n[i] * r.randint(0, 2) * 90 for i in range(3)], t2=0)))
        g = self.a_gen(null) if gen else ""
        org = self.pt(2) if g and self.kind[g] == "gen" and r.random() < 0.25 else []
        prio = r.choice(self.wide or self.pf.get("prios", (0, 0, 1, 2, -1, 5))) if prio is None else prio
        id = self.newid("v")
        P = AZ(pts) if pts else None
        late = r.random()
        tol = r.choice((8, 9, 12)) if r.random() < .25 else 10
        def build():
            kw = {} if tol == 10 else dict(tolerance=float(10.0 ** -tol))
            if org: kw["gen_origin"] = AZ(org)
            if late < 0.5:
                return Volume(points=P, alg_objects=[self.obj[a] for a in algs] or None,
                              generator=self.obj[g] if g else None, priority=prio, **kw)
            if late < 0.75:
                v = Volume(points=P)
                if tol != 10: v.tolerance = float(10.0 ** -tol)
                for a in algs: v.add_alg_object(self.obj[a])
                v.priority = prio
                if g:
                    if org: v.add_generator(self.obj[g], origin=AZ(org))
                    else: v.add_generator(self.obj[g])
                return v
            v = Volume(alg_objects=[self.obj[a] for a in algs], priority=prio, **({} if tol == 10 else dict(tolerance=float(10.0 ** -tol))))
            if pts:
                k = self.r.randint(4, len(pts))
                for k in range(4, len(pts) + 1):          # smallest full-dimensional start
                    q = A(pts[:k])
                    if np.linalg.matrix_rank(q[1:] - q[0]) == 3: break
                v.addPoints(AZ(pts[:k]))
                for p in pts[k:]:
                    v.addPoints(AZ(p))
            if g:
                v.add_generator(self.obj[g], **({"origin": AZ(org)} if org else {}))
            return v
        v = self.emit(dict(ev="vol", id=id, pts=pts, algs=algs, gen=g, org=org, prio=prio, enc=enc, tol=tol), build)
        if P is not None: self.scrub(P)
        self.reg(id, "vol", v, c=c, enc=enc, haspts=bool(pts),
                 only=(not pts), types=[self.meta[a]["a"]["t"] for a in algs])
        return id

    def new_multi(self, kids=None):
        r = self.r
        if kids is None:
            free = [i for i in self.ids("vol", "multi") if not self.meta[i].get("owned")
                    and self.gen_ok(i)]
            r.shuffle(free)
            kids = free[:r.randint(1, 3)]
            while len(kids) < 2:
                kids.append(self.new_vol())
        id = self.newid("m")
        prio = r.choice(self.wide or self.pf.get("prios", (0, 0, 1, 2, -1, 5)))
        dflt = r.random() < 0.3
        if dflt: prio = 0
        how = r.random()
        def build():
            ks = [self.obj[k] for k in kids]
            if how < 0.5:
                return MultiVolume(volumes=ks, **({} if dflt else dict(priority=prio)))
            m = MultiVolume(**({} if dflt else dict(priority=prio)))
            if how < 0.7: m.add_volume(ks)
            else:
                for k in ks: m.add_volume(k)
            return m
        m = self.emit(dict(ev="multi", id=id, kids=kids, prio=prio), build)
        self.reg(id, "multi", m, kids=list(kids))
        for k in kids: self.meta[k]["owned"] = True
        return id

    def gen_ok(self, id):
        if self.kind[id] == "vol":
            return self.obj[id].generator is not None
        if self.kind[id] == "multi":
            return all(self.gen_ok(k) for k in self.meta[id]["kids"])
        return True

    def new_mol(self):
        r = self.r
        n = r.randint(1, 6)
        seen = set()
        while len(seen) < n:
            seen.add(tuple(self.pt(4)))
        atoms = [list(p) + [r.choice(ELS)] for p in seen]
        k = r.choice(("none", "point", "idx"))
        e = dict(ev="mol", atoms=atoms, trk=False, i=1, p=[0, 0, 0], prio=0)
        kw = {}
        if k == "point":
            e["p"] = self.pt(3); kw["origin"] = AZ(e["p"])
        if k == "idx":
            i = r.randrange(n); e["trk"], e["i"] = True, i + 1
            kw["origin"] = r.choice((i, np.int64(i)))
        id = e["id"] = self.newid("o")
        P, S = AZ([a[:3] for a in atoms]), np.array([a[3] for a in atoms])
        m = self.emit(e, lambda: Molecule(S, P, **kw))
        self.scrub(P, S)
        self.reg(id, "mol", m, n=n)
        pr = r.choice(self.wide or (0, 1, 2, -1))
        self.emit(dict(ev="prio", id=id, prio=pr), lambda: setattr(m, "priority", pr))
        return id

    def mk_bounds(self):
        lo = [self.r.choice((0, 0, -900, 450)) for _ in range(3)]
        ns = [self.r.randint(2, 20) for _ in lo]
        return [lo, [x + n * 90 + (n * 7 % 41 if n % 3 == 0 else 0) for x, n in zip(lo, ns)]]     # not only round sizes

    def new_scene(self, objs):
        id = self.newid("s")
        how = self.r.random()
        b = self.mk_bounds() if how < .8 else [[0] * 3, [1800] * 3]
        B = AZ(b)
        def build():
            os_ = [self.obj[o] for o in objs]
            if how < .4: return Scene(bounds=B, objects=os_)
            if how < .5: s = Scene(); s.bounds = B.tolist()
            elif how < .8: s = Scene(bounds=B, objects=os_[0])
            else: s = Scene(objects=[])
            for o in (os_[1:] if .5 <= how < .8 else os_): s.add_object(o)
            return s
        s = self.emit(dict(ev="scene", id=id, objs=objs, b=b), build)
        self.scrub(B)
        self.reg(id, "scene", s, objs=list(objs))
        return id

    def small_scene(self):
        free = [i for i in self.ids("vol", "multi", "mol") if not self.meta[i].get("owned")]
        if free and not self.ids("scene"): self.new_scene(self.r.sample(free, min(len(free), self.r.randint(1, 2))))

    def set_bounds(self, id):
        b = self.mk_bounds()
        B = self.r.choice((AZ(b), AZ(b).tolist()))
        self.emit(dict(ev="setbounds", id=id, b=b), lambda: setattr(self.obj[id], "bounds", B))
        self.scrub(B)

    def export(self, id):
        """populate, then write and read back (or convert)"""
        r, ob, k = self.r, self.obj[id], self.kind[id]
        self.populate(id)
        last = next(x for x in reversed(self.ev) if "obs" in x)
        if not last["obs"]["atoms"] and k != "mol": return
        fmt = r.choice(SCENE_FORMATS if k == "scene" else FORMATS)
        if k == "mol" or r.random() < .2: fmt = None
        e = dict(ev="export", id=id, obs=dict(atoms=[], off=0), cell=[], rms=[], given=[], same=True)
        zs = sorted(set(a[3] for a in last["obs"]["atoms"]))
        def content():
            return (ob.all_atoms, ob.all_species) if k == "scene" else (ob.atoms, ob.species)
        keep = [np.array(x, copy=True) for x in content()]
        def go():
            if fmt is None:
                a = ob.ase_atoms
            else:
                ext, f, hascell = fmt
                path = os.path.join(self.scratch, "x%d" % r.randrange(10**9) + ext)
                kw = {} if f is None else dict(format=f)
                if "prismatic" in (f, ext[1:]) and r.random() < .4:
                    e["given"] = [[z, 20 * (i + 1)] for i, z in enumerate(zs)]
                    kw["debye_waller_factors"] = {chemical_symbols[z]: 8 * np.pi**2 * (q / 1000)**2 for z, q in e["given"]}
                ob.to_file(r.choice((str, Path))(path), **kw)
                try:
                    if "prismatic" in (f, ext[1:]):            # comment, cell, one line per atom
                        lines = open(path).read().split("\n")
                        rows = [x.split() for x in lines[2:] if len(x.split()) == 6]
                        e["rms"] = sorted(map(list, {(int(x[0]), int(round(float(x[5]) * 1000))) for x in rows}))
                        a = Atoms([int(x[0]) for x in rows], positions=[[float(q) for q in x[1:4]] for x in rows],
                                  cell=[float(q) for q in lines[1].split()])
                    else:
                        a = ase_read(path, **({} if f is None else dict(format=f)))
                finally:
                    os.remove(path)
            cell = np.asarray(a.cell)
            diag = snap(np.diag(cell))[0]
            if k == "scene" and (fmt is None or fmt[2]):
                e["cell"] = diag if np.allclose(cell, np.diag(np.diag(cell)), atol=1e-6) else [-1, -1, -1]
            ok = all(np.array_equal(p, q) for p, q in zip(keep, content()))
            return a.get_positions(), a.get_atomic_numbers(), ok
        v, e["exc"] = guarded(go, 30)
        self.ev.append(e)
        if e["exc"]: raise Stop()
        # files keep at least four decimals
        p, off = snap(np.reshape(v[0], (-1, 3)), eps=.1)
        e["obs"] = dict(atoms=[list(x) + [int(z)] for x, z in zip(p, v[1])], off=off)
        e["same"] = bool(v[2])

    # ------------------------------------------------------------ mutation
    def below(self, id):
        """volumes/molecules a transformation of id reaches"""
        if self.kind[id] == "multi":
            return [x for k in self.meta[id]["kids"] for x in self.below(k)]
        return [id]

    def mk_tf(self, rigid=True, flags=None):
        """-> (spec records, python object)"""
        r = self.r
        lk, bo = flags if flags else (True, False)
        one = lambda N, d, c, t: dict(N=N, d=d, c=c, t=t, lk=lk, bo=bo)
        kw = dict(locked=lk, basis_only=bo)
        for a, dflt in (("locked", True), ("basis_only", False)):
            if kw[a] == dflt and r.random() < .4: del kw[a]
        k = r.choice(("tr", "tr", "rot", "rot", "rot", "ref", "inv", "mat"))
        if not rigid and self.bs and r.random() < 0.6: k = "shear"
        c = [0, 0, 0] if r.random() < .3 else self.pt(2)
        okw = {} if c == [0, 0, 0] and r.random() < .7 else dict(origin=r.choice((AZ(c), list(AZ(c)))))
        late = r.random() < .2                        # parameters set, or replaced, after construction
        def flags_of(o):
            o.locked, o.basis_only = lk, bo
            return o
        def mat(cls, M):
            if late:
                o = cls(r.choice((None, np.eye(3), np.array([[0, 0, 1.], [1, 0, 0], [0, 1, 0]]))), **(dict(origin=A([90, 0, 180])) if okw and r.random() < .5 else {}))
                if okw and r.random() < .5: o.origin = okw["origin"]; o.matrix = M
                else:
                    o.matrix = M
                    if okw: o.origin = okw["origin"]
                flags_of(o)
            else: o = cls(M, **okw, **kw)
            self.scrub(M, *okw.values())
            return o
        if k == "tr":
            t = self.pt(3)
            sh = self.shp(AZ(t)) if r.random() < .6 else list(AZ(t))
            if late:
                o = flags_of(Translation(r.choice((None, A([90, 0, -90])))))
                o.shift = sh
            else: o = Translation(sh, **kw)
            self.scrub(sh)
            return [one(I3, 1, [0, 0, 0], t)], o
        if k == "rot":
            N, d = r.choice(ROT1), 1
            if r.random() < .5 and self.b3 > 0: (N, d), self.b3, self.used = r.choice(R3), self.b3 - 1, True
            elif r.random() < .4 and self.b5 > 0: (N, d), self.b5, self.used = r.choice(R5), self.b5 - 1, True
            return [one(N, d, c, [0, 0, 0])], mat(Rotation, np.array(N) / d)
        if k == "ref":
            ns = [(1, 0, 0), (0, -1, 0), (0, 0, 1), (1, 1, 0), (0, 1, -1), (-1, 0, 1)]
            n = r.choice(ns)
            if self.b3 > 0 and r.random() < .3: n, self.b3, self.used = r.choice([(1, 1, 1), (1, -1, 1)]), self.b3 - 1, True
            q = sum(x * x for x in n)
            d = 3 if q == 3 else 1
            N = [[d * (1 if i == j else 0) - d * 2 * n[i] * n[j] // q for j in range(3)] for i in range(3)]
            pl = Plane(np.array(n, float) * r.choice((1, 2)), AZ(c))
            if late:
                o = Reflection(r.choice((None, Plane(np.array(n, float), A([180, 90, 0])), Plane(-np.array(n, float), A(c)), Plane(np.array([1., -2, 1]), A(c)))))
                o.plane = pl
                return [one(N, d, c, [0, 0, 0])], flags_of(o)
            return [one(N, d, c, [0, 0, 0])], Reflection(pl, **kw)
        if k == "inv":
            return [one([[-1, 0, 0], [0, -1, 0], [0, 0, -1]], 1, c, [0, 0, 0])], Inversion(**okw, **kw)
        if k == "mat":
            N = r.choice(IMP1 + ROT1)
            return [one(N, 1, c, [0, 0, 0])], mat(MatrixTransform, np.array(N, float))
        self.bs -= 1
        N = r.choice(SHEARS)
        return [one(N, 1, c, [0, 0, 0])], mat(MatrixTransform, np.array(N, float))

    def tfs(self, target, flags=None):
        """a transformation object (possibly a sequence) fit for target"""
        r = self.r
        fl = flags or (r.choice(self.pf.get("flags", ((True, False),))))
        rigid = True
        if self.pf.get("shear") and self.kind[target] in ("gen", "vol", "multi", "alg"):
            rigid = any(t != "pl" for x in self.below(target) for t in self.meta[x].get("types", ())) \
                or (self.kind[target] == "alg" and self.meta[target]["a"]["t"] != "pl")
        if self.pool and r.random() < 0.15:
            T, o, rg, cost = r.choice(self.pool)
            if (rg or not rigid) and cost == 0: return T, o
        if r.random() < 0.3:
            T, os_ = [], []
            mixed = flags is None and self.pf.get("flags") is ALLFLAGS and r.random() < .5
            for _ in range(r.randint(2, 3)):
                a, b = self.mk_tf(rigid, fl if not mixed else r.choice(self.pf["flags"])); T += a; os_.append(b)
            if mixed:           # joint as soon as one member is, basis-only as soon as one member is
                T = [dict(t, lk=any(x["lk"] for x in T), bo=any(x["bo"] for x in T)) for t in T]
            if r.random() < .25:                      # sequences of sequences
                k = r.randint(0, len(os_) - 1)
                os_ = os_[:k] + [MultiTransform(os_[k:])]
            m = MultiTransform(os_) if r.random() < .6 else MultiTransform()
            if not m.transforms:
                for b in os_: m.add_transform(b)
            return T, m
        b0 = (self.b3, self.b5, self.bs)
        T, o = self.mk_tf(rigid, fl)
        self.pool.append((T, o, rigid, 0 if b0 == (self.b3, self.b5, self.bs) else 1))
        return T, o

    def transform(self, id):
        if self.kind[id] == "null" or self.kind[id] in ("gen", "vol", "multi", "mol", "alg"):
            pass
        T, o = self.tfs(id)
        ob = self.obj[id]
        if self.kind[id] == "alg":
            def go():
                self.obj[id] = o.applyTransformation_alg(ob)
            self.emit(dict(ev="tf", id=id, T=T), go)
        else:
            self.emit(dict(ev="tf", id=id, T=T), lambda: ob.transform(o))
        self.carry(id, T)

    def carry(self, id, T):
        for x in self.below(id):
            m = self.meta[x]
            if self.kind[x] == "alg":
                a, (l, d) = dict(m["a"]), (0, 1)
                for t in T:
                    if a["t"] == "sp": a["c"] = self.mapped(t, a["c"])
                    else: a["p"] = self.mapped(t, a["p"])
                    if a["t"] == "pl":
                        cof = np.rint(np.linalg.inv(np.array(t["N"], float)).T * np.linalg.det(np.array(t["N"], float))**2)
                        a["n"] = [int(v) for v in cof @ np.array(a["n"])]
                m["a"] = a
            for t in T:
                if "c" in m: m["c"] = self.mapped(t, m["c"])

    def mapped(self, t, x):
        y = np.array(t["N"], float) @ (np.array(x, float) - t["c"]) / t["d"] + t["c"] + t["t"]
        return [float(v) for v in y]

    def copy(self, id):
        r = self.r
        k = self.kind[id]
        Ts, os_ = [], []
        if r.random() < 0.6:
            for _ in range(r.randint(1, 2)):
                T, o = self.tfs(id); Ts += T; os_.append(o)
        kw = dict(transformation=os_) if os_ or r.random() < .3 else {}
        e = dict(ev="copy", id=id, T=Ts, gen="", setprio=False, prio=0, newpts=[], org=[], setalgs=False, algs=[], tol=0)
        if k in ("vol", "multi") and r.random() < .4:
            e["gen"] = self.a_gen(); kw["generator"] = self.obj[e["gen"]]
        if k in ("vol", "multi") and r.random() < .4:
            e["setprio"], e["prio"] = True, r.choice((0, 3, -2)); kw["priority"] = e["prio"]
        if k == "vol" and self.meta[id]["haspts"] and r.random() < .25:
            e["newpts"] = self.hull_points(); kw["points"] = AZ(e["newpts"])
        if k in ("vol", "multi") and r.random() < .15 and \
                (self.kind[e["gen"]] == "gen" if e["gen"] else all(
                    self.obj[i].generator is not None and not isinstance(self.obj[i].generator, NullGenerator) for i in self.below(id))):
            e["org"] = self.pt(2); kw["gen_origin"] = AZ(e["org"])
        if k in ("vol", "multi") and r.random() < .15:
            e["tol"] = r.choice((7, 9, 11)); kw["tolerance"] = float(10.0 ** -e["tol"])
        if k == "vol" and self.meta[id]["haspts"] and r.random() < .2:
            c = snap(np.mean(self.obj[id].points, axis=0))[0]
            e["setalgs"] = True
            e["algs"] = [self.new_alg(self.alg_params(r.choice(("pl", "sp", "cy")), c=[int(round(x / 90)) * 90 for x in c],
                                                      size=r.randint(7, 12) * 90, tol=True)) for _ in range(r.randint(0, 2))]
            kw["alg_objects"] = [self.obj[a] for a in e["algs"]]
        pairs = []
        def walk(i):
            n = self.newid({"vol": "v", "multi": "m", "mol": "o", "gen": "g", "null": "g", "alg": "a"}[self.kind[i]])
            pairs.append([i, n])
            for q in self.meta[i].get("kids", ()) if self.kind[i] == "multi" else (): walk(q)
            return n
        # the order of members is the library's current one
        if k == "multi": self.sync(id)
        root = walk(id)
        e["map"], e["root"] = pairs, root
        ob = self.obj[id]
        fn = {"vol": lambda: ob.from_volume(**kw), "multi": lambda: ob.from_volume(**kw),
              "mol": lambda: ob.from_molecule(**kw), "gen": lambda: ob.from_generator(**kw),
              "null": lambda: ob.from_generator(**kw), "alg": lambda: ob.from_alg_object(**kw)}[k]
        new = self.emit(e, fn)
        mp = dict((a, b) for a, b in pairs)
        def put(i, o):
            m = dict(self.meta[i])
            m["owned"] = i != id
            if self.kind[i] == "multi":
                m["kids"] = [mp[q] for q in m["kids"]]
                vs = list(o.volumes)
                if len(vs) != len(m["kids"]): vs += [None] * 9
                for q, v in zip(self.meta[i]["kids"], vs): put(q, v)
            if "types" in m: m["types"] = [self.meta[a]["a"]["t"] for a in e["algs"]] if e["setalgs"] else list(m["types"])
            self.reg(mp[i], self.kind[i], o, **m)
        put(id, new)
        self.carry(root, Ts)
        return root

    def sync(self, id):
        if self.kind[id] == "multi":
            bid = builtins.id
            by = {bid(self.obj[k]): k for k in self.meta[id]["kids"]}
            self.meta[id]["kids"] = [by[bid(v)] for v in self.obj[id].volumes if bid(v) in by]
            for k in self.meta[id]["kids"]: self.sync(k)

    def set_prio(self, id):
        p = self.r.choice(self.wide or self.pf.get("prios", (0, 0, 1, 2, -1, 5, 7)))
        self.emit(dict(ev="prio", id=id, prio=p), lambda: setattr(self.obj[id], "priority", p))

    def set_tol(self, id):
        t = self.r.choice((7, 8, 9, 11))
        self.emit(dict(ev="settol", id=id, tol=t), lambda: setattr(self.obj[id], "tolerance", float(10.0 ** -t)))

    def set_org(self, id):
        o = self.pt(3); a = AZ(o)
        ob = self.obj[id].generator if self.kind[id] == "vol" else self.obj[id]
        inplace = self.r.random() < .4
        self.emit(dict(ev="setorg", id=id, o=o), lambda: shift(ob, "origin", a, inplace))
        self.scrub(a)

    def set_struct(self, id):
        B, sites, st = self.mk_cell()
        self.emit(dict(ev="setstruct", id=id, B=B, D=2, sites=sites), lambda: setattr(self.obj[id], "structure", st))

    def add_alg(self, id):
        m = self.meta[id]
        pop = self.obj[id].generator is not None
        c = m["c"]
        def keeps(al):        # the volume's centre stays inside: its region does not become empty
            return sum(n * (x - q) for n, x, q in zip(al["n"], c, al["p"])) <= -90
        def plane():
            al = self.alg_params("pl", self.pt(3))
            if not keeps(al): al["n"] = [-x for x in al["n"]]
            if not keeps(al): al["p"] = [int(round(x / 90)) * 90 + 2 * n * 90 for x, n in zip(c, al["n"])]
            return al
        cand = [a for a in self.ids("alg") if not (pop and m["only"] and
                (self.meta[a]["a"]["t"] != "pl" or self.meta[a]["a"]["t2"] or not keeps(self.meta[a]["a"])))]
        if m["only"] and pop:
            a = self.r.choice(cand) if cand and self.r.random() < .4 else self.new_alg(plane())
        else:
            a = self.r.choice(cand) if cand and self.r.random() < .4 else self.new_alg()
        self.emit(dict(ev="addalg", id=id, a=a), lambda: self.obj[id].add_alg_object(self.obj[a]))
        m["types"].append(self.meta[a]["a"]["t"])

    def set_alg(self, id):
        """change parameters of a surface, free or owned by a volume"""
        r = self.r
        if self.kind[id] == "vol":
            v = self.obj[id]
            if not v.alg_objects or (self.meta[id]["only"] and v.generator is not None): return
            i = r.randrange(len(v.alg_objects))
            ob = v.alg_objects[i]
        else:
            i, ob = 0, self.obj[id]
        inplace = r.random() < .4
        if isinstance(ob, Sphere):
            a = self.alg_params("sp", tol=True)
            def go(): ob.radius = a["r"] / U; shift(ob, "center", AZ(a["c"]), inplace)
        elif isinstance(ob, Cylinder):
            a = self.alg_params("cy", tol=True)
            def go(): ob.radius = a["r"] / U; ob.length = a["len"] / U; shift(ob, "point", AZ(a["p"]), inplace); ob.axis = np.array(a["a"])
        else:
            a = self.alg_params("pl", tol=True)
            def go(): ob.normal = np.array(a["n"]); shift(ob, "point", AZ(a["p"]), inplace)
        def go2():
            go(); ob.tol = a["t2"] / 2 / U if a["t2"] else 1e-5
        self.emit(dict(ev="setalg", id=id, i=i + 1, a=a), go2)
        if self.kind[id] != "vol": self.meta[id]["a"] = a

    def add_pts(self, id):
        m = self.meta[id]
        if not m["haspts"]: return
        n = self.r.randint(1, 3)
        pts = [self.pt(5) for _ in range(n)]
        p = AZ(pts)
        if n == 1 and self.r.random() < .6: p = p[0]
        self.emit(dict(ev="addpts", id=id, pts=pts), lambda: self.obj[id].addPoints(p))
        self.scrub(p)

    def set_pts(self, id):
        if not self.meta[id]["haspts"]: return
        pts = self.hull_points(); p = AZ(pts)
        self.emit(dict(ev="setpts", id=id, pts=pts), lambda: setattr(self.obj[id], "points", p))
        self.scrub(p)

    def move_pts(self, id):
        """points moved by hand, in place"""
        if not self.meta[id]["haspts"]: return
        ob, d = self.obj[id], [self.r.randint(-3, 3) * 90 for _ in range(3)]
        pts = [[x + y for x, y in zip(p, d)] for p in snap(ob.points)[0]]
        self.emit(dict(ev="setpts", id=id, pts=pts), lambda: shift(ob, "points", A(pts), True))

    def add_gen(self, id):
        g = self.a_gen()
        org = self.pt(2) if self.kind[g] == "gen" and self.r.random() < .3 else []
        self.emit(dict(ev="addgen", id=id, gen=g, org=org),
                  lambda: self.obj[id].add_generator(self.obj[g], **({"origin": AZ(org)} if org else {})))

    def madd(self, id):
        free = [i for i in self.ids("vol", "multi") if not self.meta[i].get("owned") and self.gen_ok(i) and i != id
                and not self.reaches(i, id)]
        k = self.r.choice(free) if free and self.r.random() < .5 else self.new_vol()
        one = self.r.random() < .5
        self.emit(dict(ev="madd", id=id, kids=[k]),
                  lambda: self.obj[id].add_volume(self.obj[k] if one else [self.obj[k]]))
        self.meta[id]["kids"].append(k)
        self.meta[k]["owned"] = True

    def reaches(self, i, j):
        return i == j or (self.kind[i] == "multi" and any(self.reaches(k, j) for k in self.meta[i]["kids"]))

    def sadd(self, id):
        free = [i for i in self.ids("vol", "multi", "mol") if i not in self.meta[id]["objs"] and self.gen_ok(i)]
        o = self.r.choice(free) if free and self.r.random() < .6 else self.new_vol()
        self.emit(dict(ev="sadd", id=id, o=o), lambda: self.obj[id].add_object(self.obj[o]))
        self.meta[id]["objs"].append(o)

    # ------------------------------------------------------------ observation
    def log_atoms(self, atoms, species):
        pos, off = snap(np.reshape(atoms, (-1, 3)))
        z = np.asarray(species, dtype=float)
        zi = np.rint(z).astype(int).tolist()
        off += int(np.sum(np.abs(z - np.rint(z)) > 1e-9))
        if len(zi) != len(pos): off += 1
        return dict(atoms=[p + [q] for p, q in zip(pos, zi)], off=off)

    def populate(self, id):
        ob, k = self.obj[id], self.kind[id]
        def go():
            if k == "scene":
                ob.populate(); return ob.all_atoms, ob.all_species
            ob.populate_atoms()
            return ob.atoms, ob.species
        e = dict(ev="populate", id=id, obs=dict(atoms=[], off=0))
        v, exc = guarded(go, 30)
        e["exc"] = exc
        self.ev.append(e)
        if exc: raise Stop()
        e["obs"] = self.log_atoms(*v)
        if k == "scene": self.parts(id)

    def parts(self, id):
        """what each object of a populated scene has contributed"""
        ob = self.obj[id]
        names = {builtins.id(o): i for i, o in self.obj.items()}
        v, exc = guarded(lambda: [(names[builtins.id(x)], snap(ob.species_from_object(i))) for i, x in enumerate(ob.objects)])
        self.ev.append(dict(ev="parts", id=id, exc=exc, parts=[dict(o=o, pos=p, off=off) for o, (p, off) in v or []]))
        if exc: raise Stop()

    def probe_points(self, id, n):
        """integer points near the region: its vertices, edges, surfaces, and points just off them"""
        r = self.r
        out = []
        vols = [self.obj[x] for x in self.below(id)] if self.kind[id] in ("vol", "multi") else []
        surf = [self.obj[id]] if self.kind[id] == "alg" else []
        base = []
        for v in vols:
            if v.points is not None:
                P = snap(v.points)[0]
                base += r.sample(P, min(4, len(P)))
                for _ in range(4):
                    a, b, c = (r.choice(P) for _ in range(3))
                    base.append([(x + y) // 2 for x, y in zip(a, b)])
                    base.append([(x + y + z) // 3 for x, y, z in zip(a, b, c)])
            surf += list(v.alg_objects)
        for s in surf:
            if isinstance(s, Sphere):
                c, R = snap(s.center)[0], int(round(s.radius * U))
                for d in r.sample(OCTA + [[2, 1, 2], [1, 2, -2]], 3):
                    q = int(round(np.linalg.norm(d)))
                    base.append([c[i] + d[i] * R // q for i in range(3)])
            elif isinstance(s, Cylinder):
                c, R, L = snap(s.point)[0], int(round(s.radius * U)), int(round(s.length * U)) // 2
                ax = s.axis
                base.append(snap(A(c) + ax * L / U)[0]); base.append(snap(A(c) - ax * L / U)[0])
                pv = np.cross(ax, [1, 0, 0] if abs(ax[0]) < .9 else [0, 1, 0]); pv /= np.linalg.norm(pv)
                for sg in (1, -1):
                    base.append([int(round(c[i] + sg * pv[i] * R)) for i in range(3)])
                    base.append([int(round(c[i] + sg * pv[i] * R + ax[i] * L)) for i in range(3)])
            else:
                c, nn = snap(s.point)[0], s.normal
                u = np.cross(nn, [1, 0, 0] if abs(nn[0]) < .9 else [0, 1, 0])
                w = np.cross(nn, u)
                q = A(c) + r.uniform(-4, 4) * u + r.uniform(-4, 4) * w
                base += [c, [int(round(x)) for x in q * U]]
        for _ in range(n):
            k = r.random()
            if base and k < 0.35: out.append(list(r.choice(base)))
            elif base and k < 0.7:
                b = r.choice(base); out.append([x + r.choice((-2, -1, 0, 1, 2, 17, -17)) for x in b])
            elif base and k < 0.8:
                a, b = r.choice(base), r.choice(base); out.append([(x + y) // 2 for x, y in zip(a, b)])
            elif k < 0.95: out.append([r.randint(-1300, 1300) for _ in range(3)])
            else: out.append(self.pt(5))
        return [[max(-4000, min(4000, x)) for x in p] for p in out]

    def probe(self, id, n=24):
        pts = self.probe_points(id, n)
        how = self.r.random()
        ob = self.obj[id]
        def go():
            P = A(pts)
            if .6 <= how < .66:                      # among many other points, and many times
                n, m = len(pts), 9000 // len(pts)
                v = np.ravel(ob.checkIfInterior(np.vstack([P] * m)))
                return [v[i + n * self.r.choice((0, m // 2, m - 1))] for i in range(n)]
            if self.kind[id] == "alg" or how < .6: return ob.checkIfInterior(P)
            if how < .8: return np.concatenate([ob.checkIfInterior(AZ(p)) for p in pts])
            return np.concatenate([ob.checkIfInterior(P[:5]), ob.checkIfInterior(P[5:])])
        e = dict(ev="probe", id=id, pts=pts, res=[])
        v, exc = guarded(go)
        e["exc"] = exc
        self.ev.append(e)
        if exc: raise Stop()
        e["res"] = [int(bool(x)) for x in np.ravel(v)]

    def supply(self, id):
        pts = self.hull_points(c=self.pt(6))
        if self.r.random() < .2:       # degenerate: a segment or a single point
            pts = pts[:self.r.randint(1, 2)]
        g = self.obj[id]
        P = A(pts); keep = P.copy()
        e = dict(ev="supply", id=id, pts=pts, obs=dict(atoms=[], off=0))
        v, exc = guarded(lambda: g.supply_atoms(P))
        e["exc"] = exc or ("" if np.array_equal(P, keep) else "InputModified")
        self.ev.append(e)
        if e["exc"]: raise Stop()
        e["obs"] = self.log_atoms(*v)

    def log_alg(self, o):
        if isinstance(o, Plane):
            p, off = snap(o.point); return dict(t="pl", n=code(o.normal, 10000), p=p, off=off)
        if isinstance(o, Sphere):
            c, off = snap(o.center); rr, of2 = snap(o.radius); return dict(t="sp", c=c, r=rr, off=off + of2)
        p, off = snap(o.point); rr, o2 = snap(o.radius); L, o3 = snap(o.length)
        return dict(t="cy", a=code(o.axis, 10000), p=p, r=rr, len=L, off=off + o2 + o3)

    def log_gen(self, g):
        if g is None: return dict(k="none", off=0, o=[], B=[])
        if isinstance(g, NullGenerator): return dict(k="null", off=0, o=[], B=[])
        o, a = snap(g.origin); B, b = snap(np.array(g.voxel.sbases).T)
        return dict(k="crystal", off=a + b, o=o, B=B)

    def log_obj(self, id):
        k, ob = self.kind[id], self.obj[id]
        nog = dict(k="none", off=0, o=[], B=[])
        if k == "vol":
            pts, off = snap(ob.points) if ob.points is not None else ([], 0)
            return dict(id=id, off=off, prio=int(ob.priority), pts=pts, tol=int(round(-np.log10(ob.tolerance))),
                        algs=[self.log_alg(a) for a in ob.alg_objects], gen=self.log_gen(ob.generator))
        if k == "alg":
            return dict(id=id, a=self.log_alg(ob))
        if k in ("gen", "null"):
            return dict(id=id, gen=self.log_gen(ob))
        if k == "mol":
            d = self.log_atoms(ob.atoms, ob.species)
            og, oo = snap(ob.origin)
            return dict(id=id, prio=int(ob.priority), atoms=d["atoms"], off=d["off"], org=og, ooff=oo)
        bid = builtins.id
        names = {bid(o): i for i, o in self.obj.items()}
        if k == "multi":
            return dict(id=id, prio=int(ob.priority), kids=[names.get(bid(v), "?") for v in ob.volumes])
        return dict(id=id, b=snap(ob.bounds)[0], objs=[names.get(bid(v), "?") for v in (ob.objects or [])])

    def audit(self):
        v, exc = guarded(lambda: [self.log_obj(i) for i in self.obj])
        self.ev.append(dict(ev="audit", exc=exc, objs=v or []))
        if exc: raise Stop()

    # ------------------------------------------------------------ programs
    def step(self, op):
        r = self.r
        def pick(*k, f=None):
            c = [i for i in self.ids(*k) if f is None or f(i)]
            return r.choice(c) if c else None
        popable = lambda i: self.gen_ok(i) and (self.kind[i] != "vol" or True)
        m = {
            "gen": lambda: self.new_gen(), "vol": lambda: self.new_vol(gen=self.pf.get("gen", True)),
            "multi": self.new_multi, "mol": self.new_mol, "alg": self.new_alg, "scene": self.small_scene,
        }
        if op in m: m[op](); return
        tgt = {"tf": ("vol", "multi", "mol", "gen", "alg", "null"), "tfv": ("vol", "multi", "mol"), "tfg": ("gen", "null", "alg"),
               "copy": ("vol", "multi", "mol", "gen", "null", "alg"),
               "prio": ("vol", "multi", "mol"), "settol": ("vol",), "setorg": ("gen",), "setorgv": ("vol",), "setstruct": ("gen",),
               "addalg": ("vol",), "setalg": ("alg",), "setalgv": ("vol",), "addpts": ("vol",), "setpts": ("vol",), "movepts": ("vol",),
               "addgen": ("vol",), "madd": ("multi",), "sadd": ("scene",), "populate": ("vol", "multi", "mol", "scene"),
               "export": ("scene", "scene", "vol", "multi", "mol"), "exports": ("scene",), "setbounds": ("scene",),
               "popscene": ("scene",), "popmulti": ("multi",), "probe": ("vol", "multi", "alg"), "probem": ("multi",),
               "supply": ("gen", "gen", "gen", "null")}[op]
        f = None
        if op in ("populate", "export"): f = self.gen_ok
        if op == "popmulti": f = self.gen_ok
        if op == "setorgv": f = lambda i: isinstance(self.obj[i].generator, Generator)
        if op == "addgen": f = lambda i: True
        id = pick(*tgt, f=f)
        if id is None: return
        {"tf": self.transform, "tfv": self.transform, "tfg": self.transform, "copy": self.copy, "prio": self.set_prio, "settol": self.set_tol,
         "setorg": self.set_org, "setorgv": self.set_org, "setstruct": self.set_struct, "addalg": self.add_alg,
         "setalg": self.set_alg, "setalgv": self.set_alg, "addpts": self.add_pts, "setpts": self.set_pts, "movepts": self.move_pts,
         "addgen": self.add_gen, "madd": self.madd, "sadd": self.sadd, "populate": self.populate,
         "popscene": self.populate, "popmulti": self.populate, "export": self.export, "exports": self.export, "setbounds": self.set_bounds, "probe": self.probe, "probem": self.probe,
         "supply": self.supply}[op](id)

    def run(self):
        pf, r = self.pf, self.r
        try:
            for op in pf.get("setup", ()): self.step(op)
            if pf.get("scene"):
                crowd = pf.get("crowd") and r.random() < .08          # many levels
                wide, levels = self.wide, r.sample(range(-4, 12), 8)
                for _ in range(r.randint(7, 8) if crowd else r.randint(*pf["scene"])):
                    if crowd: self.wide = (levels.pop(),)
                    self.step(r.choice(("vol", "vol", "vol", "vol", "mol") if crowd else pf.get("parts", ("vol", "vol", "vol", "multi", "mol"))))
                self.wide = wide
                free = [i for i in self.ids("vol", "multi", "mol") if not self.meta[i].get("owned")]
                if len(free) < 2: self.step("vol"); free = [i for i in self.ids("vol", "multi", "mol") if not self.meta[i].get("owned")]
                r.shuffle(free)
                self.new_scene(free[:max(2, len(free) - r.randint(0, 1))])
                self.step("popscene")
            self.audit()
            ops = [o for o, w in pf["ops"].items() for _ in range(w)]
            for _ in range(r.randint(*pf["len"])):
                op = r.choice(ops)
                n0 = len(self.ev)
                self.step(op)
                if len(self.ev) > n0: self.audit()
            for op in pf.get("final", ()): self.step(op)
            self.audit()
        except Stop:
            pass
        return dict(events=self.ev)


# file name, format, does the format keep the cell
SCENE_FORMATS = [(".xyz", None, 1), (".extxyz", None, 1), (".dat", "extxyz", 1), (".dat", "xyz", 0), (".vasp", None, 1), (".poscar", "vasp", 1),
                 (".json", None, 1), (".traj", None, 1), (".xsf", None, 0), (".gen", None, 0), (".in", "aims", 0),
                 (".prismatic", None, 1), (".xyz", "prismatic", 1), (".txt", "prismatic", 1)]
FORMATS = [(".xyz", None, 1), (".extxyz", None, 1), (".dat", "extxyz", 1), (".dat", "xyz", 0), (".json", None, 1), (".traj", None, 1),
           (".xsf", None, 0), (".gen", None, 0), (".in", "aims", 0)]
ALLFLAGS = ((True, False), (True, False), (True, True), (False, False), (False, True))
PROFILES = {
    "C01": dict(huge=.001, scene=(2, 4), crowd=True, ops=dict(popscene=4, prio=4, tfv=3, sadd=2, setorgv=1, madd=1, addpts=1, addgen=1),
                len=(3, 6), final=("popscene",), prios=(0, 0, 1, 1, 2, -1, -3, 5, 10)),
    "C02": dict(huge=.001, setup=("vol", "vol", "multi", "vol", "multi", "popmulti", "probem"),
                ops=dict(popmulti=3, probem=3, tfv=3, madd=2, prio=3, copy=2, multi=1),
                len=(3, 6), final=("popmulti", "probem"), prios=(0, 0, 1, 1, -2, 4)),
    "C03": dict(setup=("vol", "probe"), gen=False,
                ops=dict(probe=5, addpts=3, setpts=2, addalg=3, setalg=1, setalgv=3, tf=2, vol=1, alg=1),
                len=(5, 9), final=("probe", "probe")),
    "C04": dict(huge=.004, setup=("vol", "populate"), ops=dict(populate=4, vol=2, tfv=2, setorgv=2, addgen=2, addpts=1, setpts=1, addalg=1),
                len=(3, 6), final=("populate",), ),
    "C05": dict(huge=.003, setup=("gen", "supply"), ops=dict(supply=5, gen=1, tfg=2, setorg=2, setstruct=2, copy=1), len=(3, 6),
                final=("supply",), shear=True),
    "C06": dict(setup=("vol", "vol", "mol", "multi", "probe"),
                ops=dict(tfv=6, probe=3, populate=3, copy=1, vol=1), len=(4, 7), final=("probe", "populate")),
    "C07": dict(setup=("gen", "vol", "vol", "multi"), flags=ALLFLAGS, shear=True,
                ops=dict(tf=6, tfg=2, probe=2, populate=2, supply=1, copy=1), len=(4, 7), final=("populate", "probe")),
    "C22": dict(scene=(1, 3), parts=("vol", "vol", "multi", "mol"),
                ops=dict(exports=6, export=3, setbounds=2, tfv=1, prio=1, sadd=1, addgen=1), len=(4, 7), final=("exports", "exports")),
    "C08": dict(setup=("gen", "alg", "vol", "mol", "vol", "multi"), flags=ALLFLAGS,
                ops=dict(copy=7, tf=3, setorg=2, setorgv=2, setalg=2, setalgv=1, addalg=2, addpts=2, setpts=1, movepts=1, prio=2, settol=1, addgen=2,
                         populate=2, probe=2, setstruct=1, vol=1, scene=1, setbounds=1), len=(6, 10), final=("copy", "populate", "probe")),
}


def histories(prop, seed, start, count):
    for i in range(start, start + count):
        yield World(rng_for(seed, prop, i), PROFILES[prop]).run()


if __name__ == "__main__":
    import json
    prop, n = sys.argv[1], int(sys.argv[2])
    for h in histories(prop, int(os.environ.get("VERIF_SEED", "1")), 0, n):
        print(json.dumps(h))
