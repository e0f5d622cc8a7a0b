"""C24: invalid requests at any point of a history.  Objects of the object
model (CZWorld) are asked for things outside of their domain - the
specification's step for that is "raises, nothing changes" - and go on being
used; stand-alone objects are described by their coded attributes before and
after.  Valid values at the edge of the domains must be accepted."""
from world import *
from czone.volume import Voxel, makeRectPrism
from czone.generator import AmorphousGenerator
from czone.transform import HStrain, IStrain, ChemicalSubstitution, PostSequence, rot_zxz
from czone.volume.algebraic import snap_plane_near_point, get_bounding_box
from czone.prefab import fccMixedTwinSF, wurtziteStackingFault, SimpleGrainBoundary
from czone.prefab.wulff import WulffSingle

PROFILES["C24"] = dict(setup=("vol", "mol", "alg", "gen", "vol", "multi"), scene=(0, 1),
                       ops=dict(bad=9, badfree=4, edge=3, tf=1, copy=1, populate=2, probe=2, prio=1, addpts=1, setalgv=1, addgen=1),
                       len=(6, 10), final=("bad", "populate", "probe"))

z3 = lambda *a: np.array(a, float)
GOODPTS = makeRectPrism(4, 4, 4)


class Reject(World):
    def step(self, op):
        if op == "bad": return self.bad()
        if op == "badfree": return self.bad_free()
        if op == "edge": return self.edge()
        return super().step(op)

    # a request on an object of the heap; the audit that follows compares everything
    def refuse(self, id, what, fn):
        # what the heap's records do not say
        o = self.obj[id]
        def more():
            k = self.kind[id]
            if k == "mol": return code(np.ravel(o.orientation), 10000) + [int(o.print_warnings)]
            if k == "alg": return code([o.tol], 10**7)
            if k == "vol": return code([o.tolerance * 1e9] + [a.tol for a in o.alg_objects], 10**7)
            if k == "gen": return [int(o.strain_field is None), int(o.post_transform is None), len(o.species)] + \
                code(np.ravel(o.lattice.matrix), 1000)
            return []
        b, e0 = guarded(more)
        _, exc = guarded(fn)
        a, e1 = guarded(more)
        if e0 or e1: b, a = [1], [2]
        self.ev.append(dict(ev="reject", id=id, what=what, exc=exc, b=b, a=a))
        self.audit()

    def bad(self):
        r = self.r
        ids = [i for i in self.obj if self.kind[i] != "null"]
        if not ids: return
        id = r.choice(ids)
        o, k = self.obj[id], self.kind[id]
        f = float(r.randint(-4, 4))
        P = lambda n, d=3: np.array([[float(r.randint(-9, 9)) for _ in range(d)] for _ in range(n)])
        notf = r.choice((5, None, "rotate", np.eye(3), [1, 2, 3], Sphere(2.0, z3(0, 0, 0))))
        prios = [("priority", (lambda v: lambda: setattr(o, "priority", v))(v)) for v in (1.5, "2", None, 2.0, [1])]
        tf = [("transform", lambda: o.transform(notf))]
        C = []
        if k == "vol":
            C = prios + tf + [
                ("alg", lambda: o.add_alg_object(r.choice((5, None, np.eye(3), self.r.choice((o, "plane")))))),
                ("generator", lambda: o.add_generator(r.choice((5, "crystal", None, np.eye(3), Generator)))),
                ("addpoints", lambda: o.addPoints(P(r.randint(2, 5), r.choice((2, 4))))),
                ("addpoints", lambda: o.addPoints(P(6).reshape(2, 3, 3))),
                ("addpoints", lambda: o.addPoints(P(1, 2)[0])),
                ("points", lambda: setattr(o, "points", P(5, r.choice((2, 4))))),
                ("points", lambda: setattr(o, "points", P(r.randint(1, 3)))),
                ("points", lambda: setattr(o, "points", P(8).reshape(2, 4, 3))),
                ("points", lambda: setattr(o, "points", P(6) * z3(*r.choice(((1, 1, 0), (0, 1, 1), (1, 0, 1))))))  ,
                ("interior", lambda: o.checkIfInterior(P(4, r.choice((2, 4))))),
                ("interior", lambda: o.checkIfInterior(P(6).reshape(2, 3, 3))),
                ("copy", lambda: o.from_volume(priority=r.choice((1.5, "x")))),
                ("copy", lambda: o.from_volume(generator=5)),
                ("copy", lambda: o.from_volume(transformation=[notf])),
                ("copy", lambda: o.from_volume(points=P(5, 2))),
                ("tolerance", lambda: setattr(o, "tolerance", r.choice(("x", None, [1.])))),
            ]
            if not self.meta[id]["haspts"]:
                C += [("addpoints", lambda: o.addPoints(P(r.randint(1, 3)))),
                      ("addpoints", lambda: o.addPoints(P(5) * z3(1, 1, 0)))] * 2
            if isinstance(o.generator, Generator): C += self.bad_gen(o.generator)
            for a in o.alg_objects: C += self.bad_alg(a)
        elif k == "multi":
            v = r.choice(list(o.volumes))
            C = prios + tf + [
                ("add", lambda: o.add_volume(r.choice((5, None, "v", np.eye(3))))),
                ("add", lambda: o.add_volume([v, 5])), ("add", lambda: o.add_volume([None])),
                ("add", lambda: o.add_volume(r.choice(([Plane(z3(0, 0, 1), z3(0, 0, 0))], Molecule([6], [[0., 0, 0]]))))),
                ("interior", lambda: o.checkIfInterior(P(4, 2))),
            ]
        elif k == "mol":
            n = o.atoms.shape[0]
            C = [p for p in prios] + tf + [
                ("positions", lambda: o.update_positions(P(n + r.choice((1, 2))))),
                ("positions", lambda: o.update_positions(P(max(0, n - 1)))),
                ("species", lambda: o.update_species([6] * (n + 1))),
                ("atoms", lambda: o.set_atoms([6] * (n + 1), P(n))),
                ("atoms", lambda: o.set_atoms([6] * n, P(n + 1))),
                ("origin", lambda: o.set_origin(idx=n + r.randint(0, 3))),
                ("origin", lambda: o.set_origin(idx=-n - r.randint(1, 3))),
                ("origin", lambda: o.set_origin(idx=r.choice((.5, "0")))),
                ("origin", lambda: o.set_origin(point=P(1, r.choice((2, 4)))[0])),
                ("origin", lambda: o.set_origin(point=P(2))),
                ("remove", lambda: o.remove_atoms([n + r.randint(0, 3)])),
                ("remove", lambda: o.remove_atoms([0], new_origin_idx=n + 1)),
                ("remove", lambda: o.remove_atoms([0], new_origin_idx=r.choice((.5, "0")))),
                ("remove", lambda: o.remove_atoms([0], new_origin_idx=0)),
                ("orientation", lambda: setattr(o, "orientation", r.choice((np.eye(3) * 2, np.eye(2), -np.eye(3), np.array([[1., 1, 0], [0, 1, 0], [0, 0, 1]]))))),
                ("warnings", lambda: setattr(o, "print_warnings", r.choice((1, "yes", None)))),
            ]
        elif k == "gen":
            C = self.bad_gen(o) + tf
        elif k == "alg":
            C = self.bad_alg(o)
        elif k == "scene":
            C = [("bounds", lambda: setattr(o, "bounds", r.choice((P(3), P(2, 2), P(1)[0], [1., 2])))),
                 ("add", lambda: o.add_object(r.choice((5, None, np.eye(3), "v", Sphere(2., z3(0, 0, 0)), Generator, NullGenerator()))))]
        what, fn = r.choice(C)
        self.refuse(id, k + "." + what, fn)

    def bad_gen(self, g):
        r = self.r
        return [("origin", lambda: setattr(g, "origin", np.zeros(r.choice(((2,), (4,), (1, 3), (3, 3)))))),
                ("structure", lambda: setattr(g, "structure", r.choice((5, None, "Au", np.eye(3), Lattice(np.eye(3)))))),
                ("voxel", lambda: setattr(g, "voxel", r.choice((5, None, np.eye(3))))),
                ("strain", lambda: setattr(g, "strain_field", r.choice((5, np.eye(3), np.eye(3) * 1.01)))),
                ("post", lambda: setattr(g, "post_transform", r.choice((5, lambda p, s: (p, s), HStrain(z3(1, 1, 1)))))),
                ("transform", lambda: g.transform(r.choice((5, np.eye(3), None)))),
                ("bases", lambda: setattr(g.voxel, "bases", self.bad_bases()))]

    def bad_bases(self):
        """columns: two parallel ones, three in one plane, a zero one, or a wrong shape"""
        r = self.r
        def vec():
            while True:
                v = z3(*(r.randint(-4, 4) for _ in range(3)))
                if v.any(): return v
        a, b = vec(), vec()
        k = r.choice(("par", "par", "plane", "zero", "shape"))
        if k == "shape": return r.choice((np.eye(2), np.ones((3, 2)), np.eye(4), z3(1, 2, 3)))
        c = {"par": a * r.choice((1, -1, 2, .5)), "plane": a * r.choice((1, -1, 2)) + b * r.choice((1, -2)), "zero": a * 0}[k]
        m = [a, b, c]
        r.shuffle(m)
        return np.array(m).T

    def bad_alg(self, a):
        r = self.r
        neg = lambda: r.choice((0.0, -1.0, -1e-3, 0, -5))
        C = [("tol", lambda: setattr(a, "tol", neg()))]
        wrong = lambda: r.choice((z3(1, 2), z3(1, 2, 3, 4), np.ones((3, 2)), np.eye(3)))
        if isinstance(a, Sphere):
            C += [("radius", lambda: setattr(a, "radius", neg())), ("center", lambda: setattr(a, "center", wrong())),
                  ("radius", lambda: setattr(a, "radius", float("nan")))]
        elif isinstance(a, Plane):
            C += [("normal", lambda: setattr(a, "normal", r.choice((z3(0, 0, 0), wrong(), np.zeros((3, 1)))))),
                  ("point", lambda: setattr(a, "point", wrong()))]
        else:
            C += [("axis", lambda: setattr(a, "axis", r.choice((z3(0, 0, 0), wrong())))), ("point", lambda: setattr(a, "point", wrong())),
                  ("radius", lambda: setattr(a, "radius", neg())), ("length", lambda: setattr(a, "length", neg()))]
        return C

    # -------------------------------------------------- objects of their own
    def bad_free(self):
        r = self.r
        c = lambda *xs: [int(q) for x in xs for q in np.ravel(code(np.array(x, dtype=float), 10000))]
        st = Structure(Lattice(np.eye(3) * 4.0), ["Au"], [[0, 0, 0]])
        rot, no = np.array(r.choice(ROT1), float), z3(0, 0, 0)
        sh = lambda: r.choice((np.eye(2), np.ones((2, 3)), z3(1, 0, 0), np.ones((3, 4))))
        wrong = lambda: r.choice((z3(1, 2), z3(1, 2, 3, 4), np.eye(3), []))
        notrot = lambda: r.choice((np.array([[1., 1, 0], [0, 1, 0], [0, 0, 1]]), np.diag([1., 1, -1]), 2 * np.eye(3), np.zeros((3, 3)),
                                   np.diag([2., .5, 1]), rot * 1.01, -rot, rot + np.diag([1e-3, 0, 0]), sh()))
        neg = lambda: r.choice((0.0, -1.0, -1e-3, 0, -7))
        bl = lambda: r.choice((1, 0, "True", None, [True]))
        pl = Plane(z3(0, 1, 1), z3(1, 2, 3))
        T = Translation(z3(1, 2, 3)); R = Rotation(rot, origin=z3(1, 2, 3)); M = MatrixTransform(rot * 2, origin=z3(3, 2, 1))
        F = Reflection(Plane(z3(0, 1, 1), z3(1, 2, 3))); MT = MultiTransform([T, R])
        tat = lambda: c(T.shift, R.matrix, R.origin, M.matrix, M.origin, F.matrix, F.origin, F.plane.normal, len(MT.transforms),
                        [int(x.locked) for x in (T, R, M, F)], [int(x.basis_only) for x in (T, R, M, F)])
        V = Voxel(bases=rot * 3 + np.diag([0, 0, 1.]), origin=z3(1, 2, 3), scale=np.array([2.0]))
        vat = lambda: c(V.bases, V.origin, V.scale, V.sbases)
        am = AmorphousGenerator(origin=z3(1, 2, 3), min_dist=1.2, density=.05, species=14)
        aat = lambda: c(am.origin, am.min_dist, am.density, am.species)
        H = HStrain(z3(1.01, 1, .99), mode="standard")
        ist = IStrain(fun=lambda x: x + 1, mode="standard")
        sat = lambda: c(H.matrix, H.origin, len(H.mode), ist.origin, len(ist.mode), ist.apply_strain(np.ones((2, 3))))
        PS = PostSequence([ChemicalSubstitution([1], [2], .5)])
        gf = Generator(structure=st)
        gv = Volume(points=GOODPTS, generator=gf)
        fc = fccMixedTwinSF(generator=gf, volume=gv, ratio=.25, N=2, min_sep=4)
        wz = wurtziteStackingFault(generator=gf, volume=gv, N=2, min_sep=4)
        gb = SimpleGrainBoundary(z3(0, 0, 1), 0, z2=z3(1, 1, 1), plane=pl, volume=gv, generator=gf)
        pat = lambda: c(fc.ratio, fc.N, fc.min_sep, fc.generator is gf, fc.volume is gv, wz.N, wz.min_sep, wz.generator is gf, wz.volume is gv, gb.z1, gb.z2)
        none = lambda: []
        wu = WulffSingle(gf, {(1, 1, 1): 1.0, (1, 0, 0): 1.1}, 200)
        wat = lambda: c(wu.generator is gf, wu.natoms, [list(k) + [v] for k, v in sorted(wu.surface_energies.items())],
                        len(wu.get_construction().alg_objects))
        ng = NullGenerator()
        bt = lambda: [r.choice((5, None, rot, pl))]
        cp = Molecule([6, 8], [[1., 2, 3], [4., 5, 6]], origin=1)
        sc = Scene(bounds=np.array([[0., 0, 0], [9, 9, 9]]), objects=[cp]); sc.populate()
        cat = {
            "transform": (tat, [
                lambda: setattr(T, "shift", wrong()), lambda: Translation(wrong()),
                lambda: setattr(R, "matrix", notrot()), lambda: setattr(R, "matrix", notrot()), lambda: Rotation(notrot()), lambda: Rotation(notrot()),
                lambda: setattr(R, "origin", wrong()), lambda: Rotation(rot, origin=wrong()),
                lambda: setattr(M, "matrix", sh()), lambda: MatrixTransform(sh()), lambda: setattr(M, "origin", wrong()),
                lambda: setattr(F, "plane", r.choice((5, None, z3(0, 0, 1), Sphere(1., no)))), lambda: Reflection(5),
                lambda: setattr(r.choice((T, R, M, F)), "locked", bl()), lambda: setattr(r.choice((T, R, M, F)), "basis_only", bl()),
                lambda: Translation(z3(1, 2, 3), locked=bl()), lambda: Rotation(rot, basis_only=bl()),
                lambda: MT.add_transform(r.choice((5, rot, None))), lambda: MT.add_transform([T, rot]), lambda: MultiTransform([5]),
                lambda: MultiTransform(5)]),
            "wulff": (wat, [
                lambda: setattr(wu, "generator", r.choice((5, None, ng, am, st))), lambda: setattr(wu, "natoms", r.choice(("many", None, [1, 2]))),
                lambda: setattr(wu, "surface_energies", r.choice(({"111": 1.0}, {(1, 1, 1): "x"}, {(1, 1, 1): 1.0, (1, 0, 0): None}, {111: 1.0}, 5))),
                lambda: WulffSingle(ng, {(1, 1, 1): 1.0}), lambda: WulffSingle(gf, {(1, 1, 1): "x"}), lambda: WulffSingle(gf, {(1, 1, 1): 1.0}, "x")]),
            "copies": (lambda: c(gf.origin, gf.voxel.bases, gv.points, cp.atoms, cp.species, cp.origin, pl.normal, pl.point, aat(), sc.all_atoms, len(sc.objects)), [
                lambda: gf.from_generator(transformation=bt()), lambda: am.from_generator(transformation=bt()),
                lambda: ng.from_generator(transformation=bt()), lambda: ng.transform(bt()[0]),
                lambda: gv.from_volume(alg_objects=[r.choice((5, gv, rot))]), lambda: gv.from_volume(transformation=[T] + bt()), lambda: gv.from_volume(generator=st),
                lambda: MultiVolume([gv]).from_volume(transformation=[T] + bt()), lambda: MultiVolume([gv]).from_volume(generator=5),
                lambda: cp.from_molecule(transformation=[T] + bt()), lambda: pl.from_alg_object(transformation=bt()),
                lambda: sc.species_from_object(r.randint(1, 4)), lambda: sc.add_object(ng), lambda: MultiVolume([MultiVolume([gv])]).transform(bt()[0])]),
            "voxel": (vat, [
                lambda: setattr(V, "bases", self.bad_bases()), lambda: setattr(V, "bases", self.bad_bases()), lambda: Voxel(bases=self.bad_bases()),
                lambda: setattr(V, "origin", r.choice((z3(1, 2), np.eye(3), np.zeros((1, 3))))), lambda: Voxel(origin=np.zeros(2)),
                lambda: setattr(V, "scale", r.choice((z3(1, 2), np.ones((2, 2)), z3(1, 2, 3, 4))))]),
            "amorphous": (aat, [
                lambda: setattr(am, "min_dist", neg()), lambda: setattr(am, "density", neg()), lambda: setattr(am, "origin", wrong()),
                lambda: AmorphousGenerator(min_dist=neg()), lambda: AmorphousGenerator(density=neg()), lambda: AmorphousGenerator(origin=wrong()),
                lambda: am.transform(r.choice((5, None, rot)))]),
            "strain": (sat, [
                lambda: setattr(H, "matrix", r.choice((z3(1, 2), z3(1, 2, 3, 4), np.ones((2, 3, 3)), np.eye(4), 5.0))),
                lambda: HStrain(z3(1, 2)), lambda: setattr(H, "mode", r.choice(("cristal", None, 3, ""))), lambda: HStrain(mode="x"),
                lambda: setattr(H, "origin", r.choice((np.zeros(2), np.zeros((3, 1)), np.zeros((2, 3))))), lambda: HStrain(origin=np.zeros(2)),
                lambda: setattr(ist, "mode", "x"), lambda: setattr(ist, "strain_fun", lambda x: x[:, :2]),
                lambda: setattr(ist, "strain_fun", lambda x: x[:7]), lambda: IStrain(fun=lambda x: x.T, mode="standard"),
                lambda: setattr(ist, "fun_kwargs", r.choice((5, None, [1])))]),
            "post": (lambda: [len(PS._transforms)] if hasattr(PS, "_transforms") else [], [
                lambda: ChemicalSubstitution([1, 2], [3], .5), lambda: PS.add_transform(5), lambda: PS.add_transform([PS, lambda p, s: (p, s)]),
                lambda: PostSequence([5])]),
            "prefab": (pat, [
                lambda: setattr(fc, "ratio", r.choice((-.1, 1.1, 2))), lambda: fccMixedTwinSF(ratio=r.choice((-1, 1.5))),
                lambda: setattr(r.choice((fc, wz)), "min_sep", r.choice((1.5, "3", None))), lambda: setattr(r.choice((fc, wz)), "N", r.choice((None, "two", [1]))),
                lambda: setattr(r.choice((fc, wz)), "generator", r.choice((5, None, NullGenerator(), am))),
                lambda: setattr(r.choice((fc, wz)), "volume", r.choice((5, None, pl))),
                lambda: setattr(gb, "z1", r.choice((z3(1, 2), np.eye(3)))), lambda: setattr(gb, "z2", r.choice((z3(1, 2), np.eye(3))))]),
            "construct": (none, [
                lambda: Volume(points=np.zeros(r.choice(((5, 2), (6,), (2, 4, 3))))), lambda: Volume(points=GOODPTS[:r.randint(1, 3)]),
                lambda: Volume(points=GOODPTS * z3(1, 1, 0)), lambda: Volume(points=GOODPTS, priority=r.choice((1.5, "1", None))),
                lambda: Volume(alg_objects=[r.choice((5, None, gv))]), lambda: Volume(points=GOODPTS, generator=r.choice((5, st))),
                lambda: MultiVolume([gv, 5]), lambda: MultiVolume([gv], priority=1.5), lambda: MultiVolume(5),
                lambda: Molecule([6, 6], [[0., 0, 0]]), lambda: Molecule([6], [[0., 0, 0]], origin=z3(1, 2)), lambda: Molecule([6], [[0., 0, 0]], origin=3),
                lambda: Molecule([6], [[0., 0, 0]], orientation=2 * np.eye(3)), lambda: Molecule.from_ase_atoms(5), lambda: Molecule.from_pmg_molecule(5),
                lambda: Scene(bounds=np.zeros(r.choice(((3, 3), (2, 2), (6,))))), lambda: Scene(objects=[gv, 5]), lambda: Scene(objects=5),
                lambda: Sphere(neg(), no), lambda: Sphere(1., wrong()), lambda: Sphere(1., no, tol=neg()),
                lambda: Plane(no, no), lambda: Plane(wrong(), no), lambda: Plane(z3(0, 0, 1), wrong()), lambda: Plane(z3(0, 0, 1), no, tol=neg()),
                lambda: Cylinder(no, no, 1., 1.), lambda: Cylinder(z3(0, 0, 1), wrong(), 1., 1.), lambda: Cylinder(z3(0, 0, 1), no, neg(), 1.),
                lambda: Cylinder(z3(0, 0, 1), no, 1., neg()), lambda: Cylinder(z3(0, 0, 1), no, 1., 1., tol=neg()),
                lambda: Generator(structure=r.choice((5, "Au"))), lambda: Generator(structure=st, origin=np.zeros(2)),
                lambda: Generator(structure=st, strain_field=5), lambda: get_bounding_box([pl, 5]),
                lambda: rot_zxz(0.1, .2, .3, convention="other"), lambda: snap_plane_near_point(no, gf, (1, 0, 0), mode="other")]),
        }
        name = r.choice(("transform", "transform", "wulff", "copies", "copies", "voxel", "amorphous", "strain", "post", "prefab", "construct", "construct", "construct"))
        at, fns = cat[name]
        b, e0 = guarded(at)
        k = r.randrange(len(fns))
        _, exc = guarded(fns[k])
        a, e1 = guarded(at)
        if e0 or e1: b, a = [1], [2]
        self.ev.append(dict(ev="reject", id="", what="%s.%d" % (name, k), exc=exc, b=b, a=a))

    # -------------------------------------------------- edges of the domains
    def edge(self):
        r = self.r
        c = lambda *xs: [int(q) for x in xs for q in np.ravel(code(np.array(x, dtype=float), 10000))]
        st = Structure(Lattice(np.eye(3) * 4.0), ["Au"], [[0, 0, 0]])
        tet = z3(0, 0, 0), z3(4, 0, 0), z3(0, 4, 0), z3(0, 0, 4)
        tiny = r.choice((1e-4, 1e-3, 1e-6))
        def vol_pts():
            v = Volume(points=np.array(tet)); return c(len(v.points), v.checkIfInterior(z3(1, 1, 1)), v.checkIfInterior(z3(2, 2, 2)))
        def vol_add():
            v = Volume(); v.addPoints(np.array(tet)); v.addPoints(z3(4, 4, 4)); return c(len(v.points), v.checkIfInterior(z3(2, 2, 2)))
        def vol_set():
            v = Volume(points=np.array(tet)); v.points = np.array(tet) + 9; return c(v.points[0], v.checkIfInterior(z3(10, 10, 10)), v.checkIfInterior(z3(1, 1, 1)))
        def prio():
            v, p = Volume(points=GOODPTS), r.choice((0, -3, 10**6)); v.priority = p; return c(v.priority - p)
        def mprio():
            m, p = Molecule([6], [[0., 0, 0]]), r.choice((0, -3, np.int64(4))); m.priority = p; return c(m.priority - p)
        def mol1():
            m = Molecule([6], [[1., 2, 3]], origin=0); return c(m.atoms, m.origin, m.species)
        def molneg():
            m = Molecule([6, 8], [[1., 2, 3], [4., 5, 6]], origin=-1); return c(m.origin)
        def sph():
            s = Sphere(tiny, [1, 2, 3], tol=1e-9); return c(s.radius / tiny, s.center, s.checkIfInterior(np.array([[1., 2, 3], [2., 2, 3]])))
        def sphtol():
            s = Sphere(1.0, z3(0, 0, 0)); s.tol = 1; return c(s.tol, s.checkIfInterior(np.array([[1.5, 0, 0], [2.5, 0, 0]])))
        def cyl():
            s = Cylinder([0, 0, -5], [[1, 2, 3]], tiny, tiny); return c(s.radius / tiny, s.length / tiny, s.axis, s.point)
        def plane():
            s = Plane([[0], [0], [tiny]], [[1, 2, 3]]); return c(s.normal, s.point)
        def rot():
            return c(Rotation(np.eye(3)).matrix, Rotation(np.array(ROT1[3], float)).applyTransformation(np.eye(3)) - np.array(ROT1[3]).T)
        def rottol():
            return c(Rotation(np.eye(3) * (1 + 1e-8)).matrix)
        def tr():
            return c(Translation([0, 0, 0]).applyTransformation(np.eye(3)), Translation((1, 2, 3)).shift)
        def vox():
            return c(Voxel(bases=[[1, .999, 0], [0, .001, 0], [0, 0, 1]]).bases, Voxel(bases=-np.eye(3)).sbases, Voxel(scale=[1, 2, 3]).scale)
        def am():
            g = AmorphousGenerator(min_dist=tiny, density=tiny, origin=[1, 2, 3]); return c(g.min_dist / tiny, g.density / tiny, g.origin)
        def fcc():
            f = fccMixedTwinSF(ratio=0.0); a = f.ratio; f.ratio = 1.0; f.min_sep = 1; f.N = 1.0; return c(a, f.ratio, f.min_sep, f.N)
        def sub():
            s = ChemicalSubstitution([1], [2], 0.0); a = s.apply_function(np.zeros((3, 3)), np.array([1, 1, 3]))[1]
            s = ChemicalSubstitution([1], [2], 1.0); return c(a, s.apply_function(np.zeros((3, 3)), np.array([1, 1, 3]))[1])
        def scene():
            s = Scene(bounds=[[0, 0, 0], [1, 2, 3]], objects=[]); s.add_object(Volume(points=GOODPTS, generator=NullGenerator()))
            s.populate(); return c(s.bounds, len(s.objects), len(s.all_atoms))
        def strain():
            return c(HStrain([1, 1, 1]).matrix, HStrain([[1, 2, 3], [0, 1, 0], [0, 0, 1]]).matrix, HStrain([1, 2, 3, 4, 5, 6]).matrix)
        def multi():
            m = MultiVolume([Volume(points=GOODPTS, generator=Generator(structure=st))]); m.populate_atoms(); return c(len(m.atoms), m.priority)
        def oneprobe():
            v = Volume(points=GOODPTS); return c(v.checkIfInterior(z3(1, 1, 1)).shape, v.checkIfInterior(np.zeros((0, 3))).shape)
        E = [(vol_pts, (4, 1, 0)), (vol_add, (5, 1)), (vol_set, (9, 9, 9, 1, 0)), (prio, (0,)), (mprio, (0,)), (mol1, (1, 2, 3, 1, 2, 3, 6)),
             (molneg, (4, 5, 6)), (sph, (1, 1, 2, 3, 1, 0)), (sphtol, (1, 1, 0)), (cyl, (1, 1, 0, 0, -1, 1, 2, 3)), (plane, (0, 0, 1, 1, 2, 3)),
             (rot, (np.eye(3), np.zeros((3, 3)))), (rottol, (np.eye(3),)), (tr, (np.eye(3), 1, 2, 3)),
             (vox, ([[1, .999, 0], [0, .001, 0], [0, 0, 1]], -np.eye(3), 1, 2, 3)), (am, (1, 1, 1, 2, 3)), (fcc, (0, 1, 1, 1)),
             (sub, (1, 1, 3, 2, 2, 3)), (scene, (0, 0, 0, 1, 2, 3, 1, 0)),
             (strain, (np.eye(3), 1, 2, 3, 0, 1, 0, 0, 0, 1, 1, 6, 5, 6, 2, 4, 5, 4, 3)), (multi, (8, 0)), (oneprobe, (1, 0))]
        f, want = r.choice(E)
        got, exc = guarded(f)
        self.ev.append(dict(ev="accept", id="", what=f.__name__, exc=exc, b=c(*want), a=got or []))


def histories(prop, seed, start, count):
    for i in range(start, start + count):
        yield Reject(rng_for(seed, prop, i), PROFILES[prop]).run()
