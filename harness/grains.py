"""C26: grain boundaries as steps of the object model."""
from world import *
from czone.prefab import SimpleGrainBoundary


def rational(R, ds=(1, 3, 5, 12, 15, 4, 9, 2, 6, 10)):
    for d in sorted(ds):
        N = R * d
        if np.allclose(N, np.rint(N), atol=1e-7):
            return np.rint(N).astype(int).tolist(), d
    return None


def axes(B):
    """zone axes of a cell (rows B) whose length is rational and whose rotations stay on the grid"""
    out = []
    for z in itertools.product(range(-4, 5), repeat=3):
        if not any(z): continue
        v = np.array(z) @ np.array(B) // 180
        L = np.linalg.norm(v)
        if abs(L - round(L)) > 1e-9: continue
        c = v[2] / L
        if c < -1 + 1e-9: out.append((z, 1)); continue
        u = v / L
        K = np.cross(np.eye(3), np.cross(u, [0, 0, 1])).T
        K = -K if np.linalg.norm((np.eye(3) + K + K @ K / (1 + c)) @ u - [0, 0, 1]) > 1e-6 else K
        q = rational(np.eye(3) + K + K @ K / (1 + c))
        if q: out.append((z, q[1]))
    return out


GCELLS = [(B, S) for B, S in CELLS if all(x % 360 == 0 for v in B for x in v)]
_axes = {}
def axes_of(B):
    k = str(B)
    if k not in _axes: _axes[k] = axes(B)
    return _axes[k]
PROFILES["C26"] = dict(shapes=("hull", "hull", "sphere", "planes", "hull+", "sphere+"))


class Grains(World):
    def log_all(self):
        return [self.log_obj(i) for i in self.obj if self.kind[i] != "gb"]

    def audit(self):
        v, exc = guarded(self.log_all)
        self.ev.append(dict(ev="audit", exc=exc, objs=v or []))
        if exc: raise Stop()

    def below(self, id):
        return [self.meta[id]["vol"]] if self.kind[id] == "gb" else super().below(id)

    def probe_points(self, id, n):
        if self.kind[id] != "gb": return super().probe_points(id, n)
        return super().probe_points(self.meta[id]["vol"], n // 2) + super().probe_points(self.meta[id]["pl"], n - n // 2)

    def grain_gen(self):
        k = self.r.randrange(len(GCELLS))
        B, S = GCELLS[k]
        sites = [dict(f=f, z=self.r.choice(ELS)) for f in S]
        q = self.r.choice((None, None, None, [2], [.5, 2, 1], [1, 1, 4]))        # the same cell, given smaller and scaled
        st = Structure(Lattice(A(B) / np.reshape(q or 1, (-1, 1))), [s["z"] for s in sites], [np.array(s["f"]) / 2 for s in sites])
        o = [self.r.randint(-3, 3) * 180 for _ in range(3)]
        id = self.newid("g")
        def build():
            g = Generator(structure=st, origin=A(o))
            if q: g.voxel.scale = np.array(q)
            return g
        g = self.emit(dict(ev="gen", id=id, kind="crystal", o=o, B=B, D=2, sites=sites), build)
        self.reg(id, "gen", g, ax=axes_of(B))
        if self.r.random() < .4:                          # a crystal in another orientation
            N = self.r.choice([m for m in PERMS if det(m) == 1])
            c = self.pt(1)
            T = dict(N=N, d=1, c=c, t=[0, 0, 0], lk=True, bo=False)
            self.emit(dict(ev="tf", id=id, T=[T]), lambda: g.transform(Rotation(np.array(N, float), origin=A(c))))
            self.meta[id]["ax"] = axes_of((np.array(B) @ np.array(N).T).tolist())
        return id

    def boundary(self, vol, gen, pl):
        r = self.r
        z1, z2 = r.choice(self.meta[gen]["ax"])[0], r.choice(self.meta[gen]["ax"])[0]
        same = r.random() < .2
        id = self.newid("m")
        f = r.choice((list, tuple, np.array))
        args = dict(z2=None if same else f(z2), r2=r.choice((None, 0)), plane=self.obj[pl], volume=self.obj[vol], generator=self.obj[gen])
        late = r.random() < .3
        e = dict(ev="gb", id=id, vol=vol, gen=gen, a=pl, z=[z1, z1 if same else z2], N=[I3, I3], d=[1, 1])
        def go():
            p = SimpleGrainBoundary(f(z1), 0, **args)
            if late:
                p.z1, p.z2 = f(z1), None if same else f(z2)
            return p.build_object()
        m, e["exc"] = guarded(go)
        self.ev.append(e)
        if e["exc"]: raise Stop()
        # the orientation of the grains, as found in what was built
        B0 = np.array(self.obj[gen].voxel.bases)
        def look():
            return [rational(np.array(v.generator.voxel.bases) @ np.linalg.inv(B0)) for v in sorted(m.volumes, key=lambda v: v.priority)]
        q, exc = guarded(look)
        if exc or len(q) != 2 or None in q:
            e["d"] = [0, 0]
        else:
            e["N"], e["d"] = [x[0] for x in q], [x[1] for x in q]
        self.reg(id, "gb", m, vol=vol, pl=pl)
        if e["d"] == [0, 0]: raise Stop()
        return id

    def run(self):
        r = self.r
        self.b3 = self.b5 = self.bs = 0
        try:
            vol = self.new_vol(gen=r.random() < .5, prio=r.choice((0, 0, 1, -2)))
            gen = self.grain_gen()
            c = self.meta[vol]["c"]
            pl = self.new_alg(dict(t="pl", n=list(r.choice(NORMALS)), p=[x + r.randint(-3, 3) * 90 for x in c], t2=0))
            self.audit()
            for _ in range(r.randint(1, 2)):
                gb = self.boundary(vol, gen, pl)
                self.audit()
                self.populate(gb)
                self.probe(gb, 12)
                if r.random() < .6:
                    T, o = self.mk_tf(True)
                    self.emit(dict(ev="tf", id=gb, T=T), lambda: self.obj[gb].transform(o))
                    self.audit()
                    self.populate(gb)
                    self.probe(gb, 8)
                if r.random() < .4:                      # the parts go on without their boundary
                    x = r.choice((vol, gen, pl))
                    T, o = self.mk_tf(True)
                    self.emit(dict(ev="tf", id=x, T=T), (lambda: self.obj.__setitem__(pl, o.applyTransformation_alg(self.obj[pl])))
                              if x == pl else (lambda: self.obj[x].transform(o)))
                    self.audit()
                    self.populate(gb)
                    break
        except Stop:
            pass
        return dict(events=self.ev)


def histories(prop, seed, start, count):
    for i in range(start, start + count):
        yield Grains(rng_for(seed, prop, i), PROFILES[prop]).run()
