"""Performs sequences of requests on generators generated by TLC
(spec/MCGenProg.tla) on the real library, choosing freely among equivalent calls."""
from field import *
from czone.transform import MultiTransform, Reflection
from replay import programs, Replay


class Play(Run):
    mk = Replay.mk

    def __init__(self, r, prop):
        super().__init__(r, prop)
        self.gen, self.twin = {}, {}

    def cell(self, e):
        return Structure(Lattice(A(e["B"])), [s["z"] for s in e["sites"]], [np.array(s["f"]) / e["D"] for s in e["sites"]])

    def field(self, s):
        r = self.r
        kw = dict(mode=s["mode"]) if s["mode"] == "standard" or r.random() < .5 else {}
        if s["fix"]: kw["origin"] = r.choice((A(s["o"]), list(A(s["o"]))))
        elif r.random() < .3: kw["origin"] = "generator"
        if s["k"] == "h":
            arg = np.array(s["vals"]) / s["q"]
            if len(s["vals"]) == 9 and r.random() < .6: arg = arg.reshape(3, 3)
            return HStrain(r.choice((arg, arg.tolist())), **kw)
        fun = dict(quad=quad, const=const, cyc=cyc)[s["f"]]
        fk = dict(quad=dict(a=s["a"]), const=dict(a=s["a"], c=s["c"]), cyc={})[s["f"]]
        return IStrain(fun, **kw, **fk)

    def step(self, p):
        if p["k"] == "sub": return ChemicalSubstitution(list(p["t"]), list(p["s"]), 1.0 if p["all"] else 0.0)
        if p["k"] == "shift": return ArbitraryPostTransform(lambda x, s, v=p["v"]: (x + A(v), s))
        if p["k"] == "neg": return ArbitraryPostTransform(lambda x, s: (x * np.array([-1, 1, 1]), s))
        return ArbitraryPostTransform(lambda x, s: (x, s + 1))

    def req(self, e):
        e, r = dict(e), self.r
        k, id = e["fn"], e["id"]
        g, t = self.gen.get(id), self.twin.get(id)
        if k == "g_new":
            st, o = self.cell(e), A(e["o"])
            self.gen[id] = self.emit(e, lambda: Generator(structure=st, origin=o))
            self.twin[id] = Generator(structure=self.cell(e), origin=A(e["o"]))
            o += 1
        elif k == "g_strain":
            def go(): g.strain_field = self.field(e["s"])
            self.emit(e, go)
        elif k == "g_share":
            def go(): g.strain_field = self.gen[e["from"]].strain_field
            self.emit(e, go)
        elif k == "g_smat":
            v = np.array(e["vals"]) / 10
            def go(): g.strain_field.matrix = r.choice((v, v.tolist()))
            self.emit(e, go)
        elif k == "g_smode":
            def go(): g.strain_field.mode = e["mode"]
            self.emit(e, go)
        elif k == "g_sorg":
            def go(): g.strain_field.origin, g.strain_field.origin_type = A(e["o"]), "global"
            self.emit(e, go)
        elif k == "g_sgen":
            def go(): g.strain_field.origin_type = "generator"
            self.emit(e, go)
        elif k == "g_post":
            def go(): g.post_transform = PostSequence([self.step(p) for p in e["post"]])
            self.emit(e, go)
        elif k == "g_pshare":
            def go(): g.post_transform = self.gen[e["from"]].post_transform
            self.emit(e, go)
        elif k == "g_padd":
            p = self.step(e["p"])
            self.emit(e, lambda: g.post_transform.add_transform(r.choice((p, [p], (p,), PostSequence([p])))))
        elif k == "g_org":
            def go(): g.origin = A(e["o"]); t.origin = A(e["o"])
            self.emit(e, go)
        elif k == "g_struct":
            def go(): g.structure = self.cell(e); t.structure = self.cell(e)
            self.emit(e, go)
        elif k == "g_tf":
            def go(): m = self.mk(e["T"]); g.transform(m); t.transform(m)
            self.emit(e, go)
        elif k == "g_copy":
            os_ = [self.mk(T) for T in e["T"]]
            how = "from" if os_ else r.choice(("from", "volume", "volcopy"))
            def go():
                kw = dict(transformation=os_) if os_ else {}
                h = g.from_generator(**kw)
                if how != "from":
                    v = Volume(points=A([[0, 0, 0], [900, 0, 0], [0, 900, 0], [0, 0, 900]]), generator=g)
                    h = v.generator if how == "volume" else v.from_volume().generator
                self.gen[e["new"]], self.twin[e["new"]] = h, t.from_generator(**kw)
            self.emit(e, go)
        elif k == "g_look":
            self.look(id)
        else:
            raise ValueError(k)

    def look(self, id, k="sup"):
        r, g, t = self.r, self.gen[id], self.twin[id]
        c = self.w.pt(2)
        h = 180 * r.randint(1, 2) + 37 if k == "sup" else r.randint(2, 4) * 180 + 37
        lo, hi = [x - h for x in c], [x + h for x in c]
        box = A([[(lo, hi)[(i >> j) & 1][j] for j in range(3)] for i in range(8)])
        if k == "sup":
            e = dict(fn="g_supply", id=id, plain=[], obs=[], same=True)
            b0 = (g.origin.copy(), g.voxel.bases.copy())
            v = self.emit(e, lambda: (t.supply_atoms(box), g.supply_atoms(box)))
            e["same"] = bool(np.array_equal(b0[0], g.origin) and np.array_equal(b0[1], g.voxel.bases))
        else:
            e = dict(fn="g_volume", id=id, plain=[], obs=[], lo=lo, hi=hi)
            def go():
                vol = Volume(points=box, generator=g)
                vol.populate_atoms()
                return t.supply_atoms(vol.get_bounding_box()), (vol.atoms, vol.species)
            v = self.emit(e, go)
        if not e["exc"]: e["plain"], e["obs"] = self.atoms(v[0]), self.atoms(v[1])


def histories(prop, seed, start, count):
    P = programs()
    for i in range(start, min(start + count, len(P) - 1)):
        u = Play(rng_for(seed, prop, "genplay", i), prop)
        for e in P[0] + P[i + 1]:
            u.req(e)
            if u.ev[-1]["exc"]: break
        else:
            ids = sorted(u.gen)
            u.r.shuffle(ids)
            for id in ids:
                u.look(id, u.r.choice(("sup", "vol")))
                if u.ev[-1]["exc"]: break
        yield dict(events=u.ev)
