"""C01, C02: scenes and multi-volumes of objects whose atoms lie anywhere:
amorphous blocks, strained crystals, crystals with post-transforms, molecules."""
from czt import *
from pymatgen.core import Structure, Lattice
from czone.generator import AmorphousGenerator, Generator, NullGenerator
from czone.volume import Volume, MultiVolume
from czone.volume.algebraic import Plane, Sphere
from czone.molecule import Molecule
from czone.scene import Scene
from czone.transform import Translation, Rotation, MatrixTransform, HStrain, IStrain, ChemicalSubstitution, ArbitraryPostTransform, PostSequence

I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
ROT = [[[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 0, 1], [0, -1, 0]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[-1, 0, 0], [0, 1, 0], [0, 0, -1]]]
IMP = [[[1, 0, 0], [0, -1, 0], [0, 0, 1]], [[0, 1, 0], [1, 0, 0], [0, 0, 1]]]
NORM = [(1, 0, 0), (0, -1, 0), (0, 0, 1), (1, 1, 0), (0, -1, 1), (1, 1, 1), (-1, 2, 0)]


def K(x): return np.array(x, dtype=float) / 1000


class Run:
    def __init__(self, r, prop):
        self.r, self.prop, self.ev, self.o, self.rec, self.n = r, prop, [], {}, {}, 0

    def emit(self, e, fn):
        v, e["exc"] = guarded(fn, 45)
        self.ev.append(e)
        return v

    def id(self): self.n += 1; return "x%d" % self.n
    def pt(self, m=3): return [self.r.randint(-m * 10, m * 10) * 100 for _ in range(3)]
    def prio(self): return self.r.choice((0, 0, 1, 1, 2, -1, 4))

    def gen(self, fill):
        r = self.r
        if r.random() < fill:
            g = AmorphousGenerator(min_dist=r.choice((1.4, 2.0)), density=r.choice((.02, .05, .08)), species=r.choice((6, 14, 32)))
            g.use_old_result = r.random() < .4
            return g
        a = r.choice((3.1, 3.7, 4.05))
        n = r.choice((1, 2))
        g = Generator(structure=Structure(Lattice.orthorhombic(a, a, r.choice((a, 3.3))), r.sample([13, 29, 47, 79], n), [[.1, .2, .3], [.6, .6, .8]][:n]), origin=K(self.pt()))
        k = r.random()
        if k < .35: g.strain_field = HStrain([r.choice((.97, 1.02, 1.05)) for _ in range(3)])
        elif k < .5: g.strain_field = IStrain(lambda x, basis=None: x + .15 * np.sin(x[:, [1, 2, 0]]), mode="standard")
        if r.random() < .4:
            g.post_transform = r.choice((ChemicalSubstitution([13, 29, 47, 79], [47, 79, 13, 29], .5),
                                         ArbitraryPostTransform(lambda p, s: (p + .3, s)),
                                         PostSequence([ArbitraryPostTransform(lambda p, s: (p * 1.01, s)), ChemicalSubstitution([29, 79], [5, 7], 1.0)])))
        return g

    def vol(self, c=None):
        r = self.r
        id = self.id()
        c = c or self.pt()
        h = [r.randint(20, 45) * 100 for _ in range(3)]
        lo, hi = [a - b for a, b in zip(c, h)], [a + b for a, b in zip(c, h)]
        pts = [[(lo, hi)[(i >> k) & 1][k] for k in range(3)] for i in range(8)]
        planes = [[[s if j == k else 0 for j in range(3)], hi if s > 0 else lo] for k in range(3) for s in (1, -1)]
        spheres = []
        if r.random() < .3: spheres.append([[x + r.randint(-8, 8) * 100 for x in c], r.randint(25, 50) * 100])
        for _ in range(r.choice((0, 0, 1, 2))):
            n = r.choice(NORM)
            planes.append([list(n), [x + v * r.randint(0, 15) * 100 for x, v in zip(c, n)]])
        prio = self.prio()
        def build():
            algs = [Sphere(s[1] / 1000, K(s[0])) for s in spheres] + [Plane(np.array(p[0], float), K(p[1])) for p in planes[6:]]
            v = Volume(points=K(pts), alg_objects=algs, generator=self.gen(.5) if r.random() < .93 else NullGenerator())
            v.priority = prio
            return v
        rec = dict(k="vol", prio=prio, reg=dict(planes=planes, spheres=spheres))
        self.o[id] = self.emit(dict(fn="fs_obj", id=id, o=rec), build)
        return id

    def mol(self):
        r = self.r
        id, n = self.id(), r.randint(1, 6)
        at = [self.pt(5) + [r.choice((1, 8, 6))] for _ in range(n)]
        prio = self.prio()
        def build():
            m = Molecule([a[3] for a in at], K([a[:3] for a in at]), **({} if r.random() < .5 else dict(origin=0)))
            m.priority = prio
            return m
        self.o[id] = self.emit(dict(fn="fs_obj", id=id, o=dict(k="mol", prio=prio, atoms=at)), build)
        return id

    def multi(self, depth=1):
        r = self.r
        c = self.pt(2)
        kids = [self.vol([x + r.randint(-15, 15) * 100 for x in c]) for _ in range(r.choice((1, 2, 2, 3, 4, 5)))]
        if depth and r.random() < .4: kids.insert(r.randrange(len(kids) + 1), self.multi(0))
        id, prio = self.id(), self.prio()
        if any(self.o.get(k) is None for k in kids): return None
        self.o[id] = self.emit(dict(fn="fs_obj", id=id, o=dict(k="multi", prio=prio, kids=kids)),
                               lambda: MultiVolume(volumes=[self.o[k] for k in kids], priority=prio))
        self.rec[id] = list(kids)
        return id

    def below(self, ids):
        out = []
        for x in ids: out += [x] + self.below(self.rec.get(x, []))
        return out

    def atoms(self, p, z): return [[int(round(v * 1000)) for v in q] + [int(s)] for q, s in zip(np.reshape(p, (-1, 3)), np.ravel(z))] + \
        ([] if len(p) == len(z) else [[0, 0, 0, -1]])

    def pop(self):
        r = self.r
        e = dict(fn="fs_pop", ids=list(self.ids), own=[], res=[])
        def go():
            if self.top is None:                                   # a multi-volume by itself
                x = self.o[self.mv]; x.populate_atoms(); res = x.atoms, x.species
            else: self.top.populate(); res = self.top.all_atoms, self.top.all_species
            ids = self.ids if self.top is not None else [self.mv]
            return [dict(id=k, atoms=self.atoms(self.o[k].atoms, self.o[k].species)) for k in self.below(ids)], self.atoms(*res)
        v = self.emit(e, go)
        if not e["exc"]: e["own"], e["res"] = v

    def tf(self):
        r = self.r
        N = r.choice([I3] * 4 + ROT + IMP)
        c, t = self.pt(2), self.pt(2)
        if N == I3: T = dict(N=I3, d=1, c=[0, 0, 0], t=t); tr = Translation(K(t))
        else:
            T = dict(N=N, d=1, c=c, t=[0, 0, 0])
            tr = (Rotation if np.linalg.det(np.array(N)) > 0 else MatrixTransform)(np.array(N, float), origin=K(c))
        return T, tr

    def run(self):
        r = self.r
        if self.prop == "C02" and r.random() < .5:
            self.mv, self.top = self.multi(), None
            if self.mv is None or self.o[self.mv] is None: return
            self.ids = self.rec[self.mv]
        else:
            ids = []
            for _ in range(r.choice((2, 3, 3, 4))):
                k = r.random()
                ids.append(self.mol() if k < .15 else self.multi() if k < (.7 if self.prop == "C02" else .35) else self.vol())
            if any(self.o.get(k) is None for k in ids): return
            self.ids = ids
            sc = Scene(bounds=K([[-9000] * 3, [9000] * 3])); self.top = sc
            for k in ids: sc.add_object(self.o[k])
        self.pop()
        for _ in range(r.randint(1, 3)):
            for _ in range(r.randint(1, 3)):
                every = self.below(self.ids if self.top is not None else [self.mv])
                k = r.choice(every)
                q = r.random()
                if q < .55:
                    T, tr = self.tf()
                    self.emit(dict(fn="fs_tf", id=k, T=T), lambda: self.o[k].transform(tr))
                elif q < .9:
                    p = self.prio()
                    self.emit(dict(fn="fs_prio", id=k, prio=p), lambda: setattr(self.o[k], "priority", p))
                elif k in self.rec:
                    v = self.vol()
                    if self.o[v] is None: return
                    self.emit(dict(fn="fs_add", id=k, kid=v), lambda: self.o[k].add_volume(self.o[v]))
                    self.rec[k].append(v)
                    if self.top is None and k == self.mv: self.ids = self.rec[k]
                if self.ev[-1]["exc"]: return
            self.ids = list(self.ids)
            self.pop()
            if self.ev[-1]["exc"]: return


def histories(prop, seed, start, count):
    for i in range(start, start + count):
        u = Run(rng_for(seed, prop, i), prop)
        np.random.seed(u.r.randrange(10**6))
        u.run()
        yield dict(events=u.ev)
