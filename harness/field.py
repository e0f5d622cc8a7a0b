"""C10, C11: strain fields and post-transforms of generators."""
from czt import *
from world import World, CELLS, ELS, PERMS, I3
from pymatgen.core import Structure, Lattice
from czone.generator import Generator
from czone.volume import Volume
from czone.transform import HStrain, IStrain, MatrixTransform, Translation, Rotation
from czone.transform.post import ChemicalSubstitution, ArbitraryPostTransform, PostSequence

DIAG = [c for c in CELLS if all(c[0][i][j] == 0 for i in range(3) for j in range(3) if i != j)]


# user functions: coordinates in, coordinates out
def quad(x, a=0, basis=None, b=0):
    y = np.array(x); y[:, 0] += a / 10 * x[:, 1] ** 2 + b
    return y
def const(x, a=0, c=(0, 0, 0), basis=None, b=0):
    return x + b + a / 10 * np.array(c)
def constb(x, a=0, c=(0, 0, 0), basis=None, b=0):
    # c is a combination of basis vectors, turned into coordinates with the basis handed over
    return x + b + a / 10 * (np.linalg.inv(basis) @ (basis @ np.array(c, float)))
def consti(x, a=0, c=(0, 0, 0), basis=None, b=0):
    x += b + a / 10 * np.array(c)
    return x
def cyc(x, basis=None):
    return x[:, [1, 2, 0]]


class Fn:
    """a user function with state of its own"""
    def __init__(self, f): self.f = f
    def __call__(self, x, **kw): return self.f(x, **kw)


class Run:
    def __init__(self, r, prop):
        self.r, self.prop, self.ev = r, prop, []
        self.w = World(r, {})

    def emit(self, e, fn):
        v, e["exc"] = guarded(fn)
        self.ev.append(e)
        return v

    def strain(self):
        r = self.r
        mode = r.choice(("crystal", "crystal", "standard"))
        fix = r.random() < .4
        o = self.w.pt(2)
        if r.random() < .2: o = [0, 0, 0]              # a fixed origin at the coordinate origin
        kw = dict(mode=mode) if mode == "standard" or r.random() < .5 else {}
        if fix: kw["origin"] = r.choice((A(o), list(A(o))))
        elif r.random() < .3: kw["origin"] = "generator"
        setter = fix and r.random() < .3              # the fixed origin is set afterwards
        def settle(x):
            if setter:
                X = A(o)
                x.origin, x.origin_type = X, "global"
                self.scrub(X)
            return x
        if setter: del kw["origin"]
        if r.random() < .6:
            q = 10
            n = r.choice((3, 6, 9))
            off = (-1, 0, 0, 1, 2)
            dg = (9, 10, 11, 12)
            if n == 3: v = [r.choice(dg) for _ in range(3)]
            elif n == 6: v = [r.choice(dg) for _ in range(3)] + [r.choice(off) for _ in range(3)]
            else: v = [r.choice(dg) if i % 4 == 0 else r.choice(off) for i in range(9)]
            if r.random() < .12: v = {3: [10] * 3, 6: [10] * 3 + [0] * 3, 9: [10, 0, 0, 0, 10, 0, 0, 0, 10]}[n]
            M = np.array(v) / q
            if n == 9 and r.random() < .6: M = M.reshape(3, 3)
            arg = r.choice((M, M.tolist()))
            late = r.random() < .3
            how = r.random()
            def build():
                h = HStrain(**kw) if late else HStrain(arg, **kw) if how < .5 else HStrain(matrix=arg, **kw)
                if late: h.matrix = arg
                self.scrub(arg, kw.get("origin"))
                return settle(h)
            return dict(k="h", vals=v, q=q, mode=mode, fix=fix, o=o), build
        f = r.choice(("quad", "const", "const", "cyc"))
        if f == "quad" and mode == "crystal" and not self.diag: f = "const"
        a = r.choice((-2, -1, 1, 3))
        c = [r.randint(-2, 2) for _ in range(3)]
        fun = dict(quad=quad, const=const, cyc=cyc)[f]
        if f == "const" and mode == "crystal" and r.random() < .5: fun = constb
        if f == "const" and r.random() < .3: fun = consti
        fk = dict(quad=dict(a=a), const=dict(a=a, c=c), cyc={})[f]
        how, stale = r.random(), r.random() < .5
        if self.prop == "C08" and r.random() < .5: fun = Fn(fun)
        def build():
            if how < .6 or f == "cyc": s = IStrain(fun, **kw, **fk)
            else:
                s = IStrain(fun=fun, **kw, **(dict(fk, b=3) if stale else {}))     # arguments, replaced below
                s.fun_kwargs = dict(fk)
            self.scrub(fun, kw.get("origin"))
            return settle(s)
        return dict(k="i", f=f, a=a, c=c, mode=mode, fix=fix, o=o), build

    def scrub(self, *xs):
        """what was handed over may be changed by its owner afterwards"""
        if self.prop != "C08": return
        for x in xs:
            if isinstance(x, np.ndarray): x += 3
            elif isinstance(x, Fn): x.f = lambda y, **kw: np.array(y) * 2

    def spoil(self, g):
        """changes a generator in every way"""
        r = self.r
        ways = ["origin", "bases", "in place", "structure", "tf"]
        if g.strain_field is not None: ways += ["strain"] * 4
        if g.post_transform is not None: ways += ["post"] * 4
        ways += ["new strain", "new post"]
        for k in r.sample(ways, 3):
            if k == "origin": g.origin = A(self.w.pt(2))
            elif k == "bases": g.voxel.bases = np.array(g.voxel.bases) * 2
            elif k == "in place":
                if g.voxel.bases.flags.writeable: g.voxel.bases[:] = np.eye(3)
                if g.voxel.origin.flags.writeable: g.voxel.origin[:] = 1
            elif k == "structure": g.structure = Structure(Lattice.cubic(3), ["Pb"], [[0, 0, 0]])
            elif k == "tf": g.transform(MatrixTransform(np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]]), origin=A(self.w.pt(1))))
            elif k == "new strain": g.strain_field = HStrain([2, 2, 2])
            elif k == "new post": g.post_transform = ArbitraryPostTransform(lambda p, s: (p + 1, s))
            elif k == "strain":
                s = g.strain_field
                w = r.choice(("origin", "mode", "own", "own"))
                if w == "origin": s.origin, s.origin_type = np.array([1., 2, 3]), "global"
                elif w == "mode": s.mode = "standard" if s.mode == "crystal" else "crystal"
                elif isinstance(s, HStrain):
                    if r.random() < .5: s.matrix = [2, 3, 4]
                    else: s.matrix[:] = 2 * np.eye(3)
                else:
                    if s.fun_kwargs and r.random() < .5: s.fun_kwargs.update(a=7)
                    elif isinstance(s.strain_fun, Fn): s.strain_fun.f = lambda y, **kw: np.array(y) * 2
                    else: s.strain_fun = lambda y, **kw: np.array(y) * 2
            elif k == "post":
                q = g.post_transform
                if isinstance(q, PostSequence): q.add_transform(ArbitraryPostTransform(lambda p, s: (p + 1, s)))
                elif isinstance(q, ChemicalSubstitution):
                    q.frac = 1.0 - q.frac; q.target[:] = q.target[::-1]
                else: q.fun = lambda p, s: (p - 1, s + 1)

    def copy(self, g):
        """a copy and its original, one of which is changed: the other one goes on"""
        r = self.r
        how = r.choice(("from", "from", "volume", "volume", "volcopy"))
        swap = r.random() < .5
        def go():
            if how == "from": h = g.from_generator()
            else:
                v = Volume(points=A([[0, 0, 0], [900, 0, 0], [0, 900, 0], [0, 0, 900]]), generator=g)
                h = v.generator
                if how == "volcopy": h = v.from_volume().generator
            a, b = (h, g) if swap else (g, h)
            self.spoil(b)
            return a
        return self.emit(dict(fn="f_copy"), go)

    def post(self):
        r = self.r
        out, objs = [], []
        n = r.choice((1, 1, 2, 3, 4))
        for _ in range(n):
            k = r.choice(("sub", "sub", "shift", "plus", "neg"))
            if k == "sub":
                t = r.sample(ELS, r.randint(1, 3)); s = [r.choice(ELS + [1, 8]) for _ in t]
                if r.random() < .3: s = t[1:] + t[:1]
                al = r.random() < .8
                out.append(dict(k="sub", t=t, s=s, all=al)); objs.append(ChemicalSubstitution(list(t), list(s), 1.0 if al else 0.0))
            elif k == "shift":
                v = self.w.pt(1); out.append(dict(k="shift", v=v))
                objs.append(ArbitraryPostTransform(lambda p, s, v=v: (p + A(v), s)))
            elif k == "neg":
                out.append(dict(k="neg")); objs.append(ArbitraryPostTransform(lambda p, s: (p * np.array([-1, 1, 1]), s)))
            else:
                out.append(dict(k="plus", v=1)); objs.append(ArbitraryPostTransform(lambda p, s: (p, s + 1)))
        def build():
            if n == 1 and r.random() < .5: return objs[0]
            how = r.random()
            if how < .4: return PostSequence(objs)
            if how < .7 and n > 1: return PostSequence([PostSequence(objs[:1]), PostSequence(objs[1:])])
            s = PostSequence(objs[:1])
            for o in objs[1:]: s.add_transform(o)
            return s
        return out, build

    def program(self):
        r = self.r
        self.diag = r.random() < .3
        B, S = r.choice(DIAG if self.diag else CELLS)
        sites = [dict(f=f, z=r.choice(ELS)) for f in S]
        scl = r.choice((None, None, None, [2], [2, .5, 4]))
        st = Structure(Lattice(A(B) if scl is None else A(B) / np.reshape(scl, (-1, 1))), [s["z"] for s in sites], [np.array(s["f"]) / 2 for s in sites])
        o = self.w.pt(2)
        cell = dict(B=B, D=2, sites=sites)
        sp, sb = self.strain()
        atinit = r.random() < .3 and self.prop == "C10"
        def mk(strain=True):
            g = Generator(structure=st, origin=A(o), **(dict(strain_field=sb()) if atinit and strain else {}))
            if scl: g.voxel.scale = np.array(scl)
            return g
        g = self.emit(dict(fn="f_gen", o=o, **cell), mk)
        if self.ev[-1]["exc"]: return
        if atinit: self.emit(dict(fn="f_strain", s=sp), lambda: None)
        self.twin = mk(False)
        def set_strain():
            if self.ev[-1]["fn"] == "f_gen" and atinit: return
            sp, sb = self.strain()
            def go(): g.strain_field = sb()
            self.emit(dict(fn="f_strain", s=sp), go)
        def set_post():
            ps, pb = self.post()
            def go(): g.post_transform = pb()
            self.emit(dict(fn="f_post", post=ps), go)
        if not atinit and (self.prop == "C10" or r.random() < (.75 if self.prop == "C08" else .4)): set_strain()
        if self.ev[-1]["exc"]: return
        if self.prop == "C11" or r.random() < (.5 if self.prop == "C08" else .15): set_post()
        if self.ev[-1]["exc"]: return
        for _ in range(r.randint(2, 5)):
            k = r.choice(("sup", "sup", "vol", "org", "tf", "chg", "app") if self.prop != "C08" else ("sup", "vol", "copy", "copy", "copy", "tf", "chg", "app"))
            if k == "org":
                q = self.w.pt(2)
                def go(): g.origin = A(q); self.twin.origin = A(q)
                self.emit(dict(fn="f_org", o=q), go)
            elif k == "tf":
                N = r.choice([m for m in PERMS if m != I3]) if not self.diag else I3
                c = self.w.pt(1); bo = r.random() < .3
                if self.diag:
                    t = self.w.pt(2); T = dict(N=I3, d=1, c=[0, 0, 0], t=t, lk=True, bo=bo); tr = Translation(A(t), basis_only=bo)
                else:
                    T = dict(N=N, d=1, c=c, t=[0, 0, 0], lk=True, bo=bo); tr = MatrixTransform(np.array(N, float), origin=A(c), basis_only=bo)
                def go(): g.transform(tr); self.twin.transform(tr)
                self.emit(dict(fn="f_tf", T=T), go)
            elif k == "copy":
                g = self.copy(g)
            elif k == "app":
                if g.strain_field is not None or g.post_transform is not None: self.apply(g)
            elif k == "chg":
                (set_strain if self.prop == "C10" or r.random() < .4 else set_post)()
            else:
                self.observe(g, k)
            if self.ev[-1]["exc"]: return
        self.observe(g, "sup")
        if not self.ev[-1]["exc"]: self.observe(g, "vol")

    def atoms(self, v):
        p, z = v
        p = np.reshape(np.asarray(p, float), (-1, 3))
        z = np.ravel(z)
        return [a + [int(round(b))] for a, b in zip(code(p, U), z)] + ([] if len(p) == len(z) else [[0, 0, 0, -1]])

    def observe(self, g, k):
        r = self.r
        c = self.w.pt(2)
        h = r.randint(1, 2) * 180 + 37 if k == "sup" else r.randint(2, 4) * 180 + 37
        lo, hi = [x - h for x in c], [x + h for x in c]
        box = A([[(lo, hi)[(i >> k_) & 1][k_] for k_ in range(3)] for i in range(8)])
        if k == "sup":
            e = dict(fn="f_supply", plain=[], obs=[], same=True)
            b0 = (g.origin.copy(), g.voxel.bases.copy())
            v = self.emit(e, lambda: (self.twin.supply_atoms(box), g.supply_atoms(box)))
            e["same"] = bool(np.array_equal(b0[0], g.origin) and np.array_equal(b0[1], g.voxel.bases))
        else:
            e = dict(fn="f_vol", plain=[], obs=[], lo=lo, hi=hi)
            def go():
                vol = Volume(points=box, generator=g)
                vol.populate_atoms()
                return self.twin.supply_atoms(vol.get_bounding_box()), (vol.atoms, vol.species)
            v = self.emit(e, go)
        if not e["exc"]: e["plain"], e["obs"] = self.atoms(v[0]), self.atoms(v[1])

    def apply(self, g):
        """the field or the post-transform, given points of the caller's own"""
        r = self.r
        s, q = g.strain_field, g.post_transform
        post = s is None or (q is not None and r.random() < .4)
        n = r.choice((1, 1, 3, 7))
        xs = [self.w.pt(3) + [r.choice(ELS)] for _ in range(n)]
        X, Z = A([x[:3] for x in xs]), np.array([x[3] for x in xs])
        X0, Z0 = X.copy(), Z.copy()
        b0 = (g.origin.copy(), g.voxel.bases.copy())
        e = dict(fn="f_app", post=post, xs=xs, obs=[], again=[], same=True)
        def one():
            if post: return q.apply_function(X, Z)
            s.scrape_params(g)
            return s.apply_strain(X), Z
        def go():
            a = self.atoms(one())
            return a, self.atoms(one())
        v = self.emit(e, go)
        if e["exc"]: return
        e["obs"], e["again"] = v
        e["same"] = bool(np.array_equal(X, X0) and np.array_equal(Z, Z0) and np.array_equal(b0[0], g.origin) and np.array_equal(b0[1], g.voxel.bases))

    def substitution(self):
        r = self.r
        rs = np.random.RandomState(r.randint(0, 10**6))
        for _ in range(3):
            n = r.choice((0, 1, 7, 200, 800))
            zs = rs.choice(ELS, n)
            t = r.sample(ELS, r.randint(1, 3)); s = [r.choice(ELS + [1, 8]) for _ in t]
            if r.random() < .4: s = t[1:] + t[:1]
            f = r.choice((0, 1000, 100, 250, 500, 750, 900))
            seed = r.randint(0, 10**6)
            P = rs.uniform(-5, 5, (n, 3))
            z, p = zs.copy(), P.copy()
            c = ChemicalSubstitution(t, s, f / 1000)
            if r.random() < .3: c = PostSequence([c])
            e = dict(fn="f_sub", zs=[int(x) for x in zs], t=t, s=s, f=f, out=[], again=[], same=True, pos=True)
            v = self.emit(e, lambda: (c.apply_function(p, z, seed=seed), c.apply_function(p, z, seed=seed)))
            if e["exc"]: return
            e["out"], e["again"] = [int(x) for x in v[0][1]], [int(x) for x in v[1][1]]
            e["pos"] = bool(np.array_equal(v[0][0], P))
            e["same"] = bool(np.array_equal(z, zs) and np.array_equal(p, P))


def histories(prop, seed, start, count):
    for i in range(start, start + count):
        u = Run(rng_for(seed, prop, i), prop)
        if prop == "C11" and i % 2: u.substitution()
        else: u.program()
        yield dict(events=u.ev)
