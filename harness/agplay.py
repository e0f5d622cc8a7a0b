"""Performs sequences of requests on amorphous generators and volumes owning one,
generated by TLC (spec/MCAGenProg.tla), on the real library."""
from czt import *
from czone.generator import AmorphousGenerator
from czone.volume import Volume
from czone.volume.algebraic import Plane, Sphere
from czone.transform import Translation, Rotation, Reflection, MatrixTransform, MultiTransform
from replay import programs

I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def K(x): return np.array(x, dtype=float) / 1000
def coords(a): return [[int(round(v * 1000)) for v in p] for p in np.reshape(np.asarray(a, float), (-1, 3))]


class Play:
    def __init__(self, r):
        self.r, self.ev, self.o = r, [], {}

    def emit(self, e, fn):
        v, e["exc"] = guarded(fn, 45)
        self.ev.append(e)
        return v

    def mk(self, T):
        r, N = self.r, np.array(T["N"], float)
        kw = {k: v for k, v, d in (("locked", T["lk"], True), ("basis_only", T["bo"], False)) if v != d or r.random() < .5}
        if T["N"] == I3: return Translation(K(T["t"]), **kw)
        if T["N"] == [[1, 0, 0], [0, 1, 0], [0, 0, -1]] and r.random() < .6: return Reflection(Plane((0, 0, 1), K(T["c"])), **kw)
        return r.choice((Rotation, MatrixTransform))(N, origin=K(T["c"]), **kw) if np.linalg.det(N) > 0 else MatrixTransform(N, origin=K(T["c"]), **kw)

    def own(self, id):
        x = self.o[id]
        return x.generator if isinstance(x, Volume) else x

    def req(self, e):
        e, r = dict(e), self.r
        k, id = e["fn"], e["id"]
        x = self.o.get(id)
        if k == "am_new":
            kw = dict(min_dist=e["m"] / 1000, density=e["dens"] / 1000)
            if r.random() < .5: kw["species"] = e["z"]
            if r.random() < .5: kw["origin"] = K([100, 200, 300])
            self.o[id] = self.emit(e, lambda: AmorphousGenerator(**kw))
        elif k == "am_set":
            def go():
                g = self.own(id)
                g.species, g.density, g.min_dist = e["z"], e["dens"] / 1000, e["m"] / 1000
            self.emit(e, go)
        elif k == "am_reuse":
            def go(): self.own(id).use_old_result = e["on"]
            self.emit(e, go)
        elif k == "am_tf":
            t = self.mk(e["T"])
            self.emit(e, lambda: x.transform(MultiTransform([t]) if r.random() < .2 and not e["T"]["bo"] and e["T"]["lk"] else t))
        elif k == "am_copy":
            kw = dict(transformation=[self.mk(T) for T in e["T"]]) if e["T"] else {}
            self.o[e["new"]] = self.emit(e, lambda: x.from_volume(**kw) if isinstance(x, Volume) else x.from_generator(**kw))
        elif k == "am_vol":
            algs = [Sphere(s[1] / 1000, K(s[0])) for s in e["reg"]["spheres"]] + [Plane(np.array(p[0], float), K(p[1])) for p in e["reg"]["planes"][6:]]
            def go():
                if r.random() < .6: return Volume(points=K(e["pts"]), alg_objects=algs or None, generator=x)
                v = Volume(points=K(e["pts"]), alg_objects=algs or None)
                v.add_generator(x)
                return v
            self.o[e["new"]] = self.emit(e, go)
        elif k == "am_give":
            self.emit(e, lambda: self.o[e["to"]].add_generator(x))
        elif k == "am_look":
            e.update(res=[], zs=[], block=[])
            if isinstance(x, Volume):
                def go():
                    x.populate_atoms()
                    return x.atoms, x.species, x.generator.old_result[0]
            else:
                P = K(r.sample(e["pts"], len(e["pts"])))
                def go():
                    p, z = x.supply_atoms(P)
                    return p, z, p
            v = self.emit(e, go)
            if e["exc"]: return
            e["res"], e["zs"], e["block"] = coords(v[0]), [int(z) for z in np.ravel(v[1])], coords(v[2])
            # what was handed out may be changed by whoever asked for it
            if not isinstance(x, Volume) and r.random() < .5: v[0][:] += 1; v[1][:] = 99
        else:
            raise ValueError(k)


def histories(prop, seed, start, count):
    P = programs()
    for i in range(start, min(start + count, len(P) - 1)):
        u = Play(rng_for(seed, prop, "agplay", i))
        np.random.seed(u.r.randint(0, 2**31))
        for e in P[0] + P[i + 1]:
            u.req(e)
            if u.ev[-1]["exc"]: break
        else:
            ids = sorted(u.o)
            for id in u.r.sample(ids, len(ids)):
                u.req(dict(fn="am_look", id=id, pts=[] if isinstance(u.o[id], Volume) else [[-3000, 1000, 0], [1000, 5000, 5000]]))
                if u.ev[-1]["exc"]: break
        yield dict(events=u.ev)
