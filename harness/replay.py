"""Performs sequences of operations generated by TLC (spec/MCWorld.tla) on the
real library; the file named by CZ_PROGRAMS has the set-up in its first line and
one sequence of operations in each further line."""
import json
from world import *

_progs = None


def programs():
    global _progs
    if _progs is None:
        with open(os.environ["CZ_PROGRAMS"]) as f:
            _progs = [json.loads(x) for x in f]
    return _progs


class Replay(World):
    """executes events as they are, choosing freely among equivalent calls"""

    def mk(self, T):
        N, d, c, t, kw = T["N"], T["d"], T["c"], T["t"], dict(locked=T["lk"], basis_only=T["bo"])
        if N == I3:
            return Translation(A(t), **kw)
        M = np.array(N, float) / d
        okw = {} if c == [0, 0, 0] else dict(origin=A(c))
        if abs(np.linalg.det(M) - 1) < 1e-9 and np.allclose(M @ M.T, np.eye(3)) and self.r.random() < .7:
            return Rotation(M, **okw, **kw)
        if N == [[-1, 0, 0], [0, 1, 0], [0, 0, 1]] and self.r.random() < .5:
            return Reflection(Plane([1, 0, 0], A(c)), **kw)
        return MatrixTransform(M, **okw, **kw)

    def seq(self, Ts):
        os_ = [self.mk(T) for T in Ts]
        return os_[0] if len(os_) == 1 else MultiTransform(os_)

    def do(self, e):
        e, r, ob = dict(e), self.r, self.obj.get(e["id"])
        k, id = e["ev"], e["id"]
        if k == "gen":
            st = Structure(Lattice(A(e["B"])), [s["z"] for s in e["sites"]], [np.array(s["f"]) / e["D"] for s in e["sites"]])
            o = A(e["o"])
            self.reg(id, "gen", self.emit(e, lambda: Generator(structure=st, origin=o)))
            self.scrub(o)
        elif k == "alg":
            self.reg(id, "alg", self.emit(e, lambda: self.build_alg(e["a"])), a=e["a"])
        elif k == "vol":
            P = A(e["pts"]) if e["pts"] else None
            kw = dict(gen_origin=A(e["org"])) if e["org"] else {}
            v = self.emit(e, lambda: Volume(points=P, alg_objects=[self.obj[a] for a in e["algs"]] or None,
                                            generator=self.obj[e["gen"]], priority=e["prio"], **kw))
            if P is not None: self.scrub(P)
            self.reg(id, "vol", v)
        elif k == "mol":
            P, S = A([a[:3] for a in e["atoms"]]), np.array([a[3] for a in e["atoms"]])
            m = self.emit(e, lambda: Molecule(S, P, origin=e["i"] - 1 if e["trk"] else A(e["p"])))
            self.scrub(P, S)
            self.reg(id, "mol", m)
        elif k == "multi":
            self.reg(id, "multi", self.emit(e, lambda: MultiVolume(volumes=[self.obj[x] for x in e["kids"]], priority=e["prio"])), kids=list(e["kids"]))
        elif k == "scene":
            self.reg(id, "scene", self.emit(e, lambda: Scene(bounds=A(e["b"]), objects=[self.obj[x] for x in e["objs"]])))
        elif k == "prio":
            self.emit(e, lambda: setattr(ob, "priority", e["prio"]))
        elif k == "tf":
            if self.kind[id] == "alg":
                def go():
                    for T in e["T"]: self.obj[id] = self.mk(T).applyTransformation_alg(self.obj[id])
                self.emit(e, go)
            else:
                self.emit(e, lambda: ob.transform(self.seq(e["T"])))
        elif k == "copy":
            kw = {}
            if e["T"]: kw["transformation"] = [self.mk(T) for T in e["T"]]
            if e["gen"]: kw["generator"] = self.obj[e["gen"]]
            if e["setprio"]: kw["priority"] = e["prio"]
            if e["newpts"]: kw["points"] = A(e["newpts"])
            new = self.emit(e, lambda: getattr(ob, dict(vol="from_volume", multi="from_volume", mol="from_molecule",
                                                        gen="from_generator", alg="from_alg_object")[self.kind[id]])(**kw))
            self.enrol(e["map"], id, new)
        elif k == "setorg":
            g, o = (ob.generator if self.kind[id] == "vol" else ob), A(e["o"])
            self.emit(e, lambda: setattr(g, "origin", o))
            self.scrub(o)
        elif k == "setstruct":
            st = Structure(Lattice(A(e["B"])), [s["z"] for s in e["sites"]], [np.array(s["f"]) / e["D"] for s in e["sites"]])
            self.emit(e, lambda: setattr(ob, "structure", st))
        elif k == "setalg":
            s, a = (ob.alg_objects[e["i"] - 1] if self.kind[id] == "vol" else ob), e["a"]
            def go():
                if a["t"] == "sp": s.radius = a["r"] / U; s.center = A(a["c"])
                else: s.normal = np.array(a["n"]); s.point = A(a["p"])
            self.emit(e, go)
        elif k == "addpts":
            p = A(e["pts"])
            self.emit(e, lambda: ob.addPoints(p))
            self.scrub(p)
        elif k == "setpts":
            p = A(e["pts"])
            self.emit(e, lambda: setattr(ob, "points", p))
            self.scrub(p)
        elif k == "addalg":
            self.emit(e, lambda: ob.add_alg_object(self.obj[e["a"]]))
        elif k == "addgen":
            kw = dict(origin=A(e["org"])) if e["org"] else {}
            self.emit(e, lambda: ob.add_generator(self.obj[e["gen"]], **kw))
        elif k == "madd":
            self.emit(e, lambda: ob.add_volume([self.obj[x] for x in e["kids"]]))
            self.meta[id]["kids"] += e["kids"]
        elif k == "sadd":
            self.emit(e, lambda: ob.add_object(self.obj[e["o"]]))
        elif k == "populate":
            self.populate(id)
        else:
            raise ValueError(k)

    def enrol(self, map, id, new):
        """names for a copied object and everything below it (members may come in another order:
        they are told apart by where they are)"""
        names = dict(map)
        def put(i, o):
            m = {}
            if self.kind[i] == "multi":
                self.sync(i)
                m["kids"] = [names[q] for q in self.meta[i]["kids"]]
                vs = list(o.volumes) + [None] * 9
                for q, v in zip(self.meta[i]["kids"], vs): put(q, v)
            self.reg(names[i], self.kind[i], o, **m)
        put(id, new)

    def play(self, setup, ops):
        try:
            for e in setup: self.do(e)
            self.audit()
            for e in ops:
                self.do(e)
                self.audit()
            for id in self.ids("scene", "multi", "vol"):
                if self.r.random() < self.full: self.populate(id)
            for id in self.ids("gen"):
                if self.r.random() < .2: self.supply(id)
            self.audit()
        except Stop:
            pass
        return dict(events=self.ev)
    full = .5


def histories(prop, seed, start, count):
    P = programs()
    for i in range(start, min(start + count, len(P) - 1)):
        w = Replay(rng_for(seed, prop, "replay", i), PROFILES["C08"])
        yield w.play(P[0], P[i + 1])
