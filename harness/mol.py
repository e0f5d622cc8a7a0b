"""C09: histories of molecules."""
from czt import *
from world import World, ELS
from czone.molecule.molecule import Molecule
from ase import Atoms
from pymatgen.core import Molecule as PMol

RM = [np.eye(3), np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]]),
      np.array([[-1, 0, 0], [0, -1, 0], [0, 0, 1]])]
BADORI = [np.diag([1., 1, -1]), np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1.]]), 2 * np.eye(3), np.eye(2), np.diag([2., .5, 1])]


class Run:
    def __init__(self, r):
        self.r, self.ev, self.mol, self.trk = r, [], {}, {}
        self.w = World(r, {})
        self.w.b3 = 2

    def pts(self, n):
        step = 180 if self.r.random() < .25 else 90         # whole numbers of Angstrom
        return [self.w.pt(4, step) for _ in range(n)]
    def zs(self, n): return [self.r.choice(ELS) for _ in range(n)]

    def obs(self):
        out = []
        for id, m in self.mol.items():
            P, off = snap(np.reshape(m.atoms, (-1, 3)))
            z = [int(v) for v in np.ravel(m.species)]
            o, of2 = snap(np.ravel(m.origin))
            if len(z) != len(P): off += 1
            ori, of3 = snap(m.orientation, unit=1)
            out.append(dict(id=id, atoms=[p + [q] for p, q in zip(P, z)], off=off + of2 + of3, org=o, ori=ori, prio=int(m.priority)))
        return out

    def do(self, e, fn):
        v, e["exc"] = guarded(fn)
        o, x = guarded(self.obs)
        if x: e["exc"] = "Observation" + x
        e["obs"] = o or []
        self.ev.append(e)
        if e["exc"] == "":             # does the origin follow an atom now
            k = e["fn"]
            if k == "m_new": self.trk[e["id"]] = e["okind"] == "idx"
            if k == "m_copy": self.trk[e["new"]] = self.trk[e["id"]]
            if k == "m_idx" or (k == "m_remove" and e["hasnew"]): self.trk[e["id"]] = True
            if k == "m_point": self.trk[e["id"]] = False
        return v

    def scrub(self, *a):
        for x in a:
            if isinstance(x, np.ndarray) and self.r.random() < .5: x += 11

    def seq(self, a):
        """positions as an array or as nested lists"""
        return a.tolist() if self.r.random() < .15 else a

    def new(self):
        r = self.r
        n = r.randint(1, 7)
        id = "m%d" % (len(self.ev) + 1)
        ps, zs = self.pts(n), self.zs(n)
        k = r.choice(("none", "point", "idx", "idx", "ase", "pmg"))
        e = dict(fn="m_new", id=id, ps=ps, zs=zs, okind="point", p=[0, 0, 0], i=0)
        P, Z, O = self.seq(AZ(ps)), r.choice((np.array(zs), list(zs), np.array(zs)[:, None])), None
        if k == "ase": f = lambda: Molecule.from_ase_atoms(Atoms(zs, A(ps), **r.choice((dict(), dict(), dict(cell=[3, 4, 5]), dict(cell=[2, 3, 4], pbc=True)))))
        elif k == "pmg": f = lambda: Molecule.from_pmg_molecule(PMol(zs, A(ps)))
        elif k == "none": f = lambda: Molecule(Z, P)
        elif k == "point":
            e["p"] = self.w.pt(3); q = O = r.choice((AZ(e["p"]), list(AZ(e["p"])), A(e["p"])[None, :])); f = lambda: Molecule(Z, P, origin=q)
        else:
            e["okind"] = "idx"; e["i"] = self.an_idx(n); t = r.choice((int, np.int64)); f = lambda: Molecule(Z, P, origin=t(e["i"]))
        if k in ("none", "point") and r.random() < .15:
            e["zs"] = zs + [6]; f = lambda: Molecule(np.array(zs + [6]), P)
        X = None
        if k in ("none", "point", "idx") and len(e["zs"]) == n and r.random() < .4:
            e["ok"] = ok = r.random() < .8
            X = (r.choice(RM) if ok else r.choice(BADORI)).copy()
            e["ori"] = X.astype(int).tolist() if ok else []
            org = dict(origin=q) if k == "point" else dict(origin=t(e["i"])) if k == "idx" else {}
            f = lambda: Molecule(Z, P, orientation=X, **org)
        m = self.do(e, f)
        if m is not None: self.mol[id] = m; self.ev[-1]["obs"] = self.obs()
        self.scrub(P, X, O, Z)
        if m is not None and r.random() < .4: m.print_warnings = False

    def an_idx(self, n, bad=.12):
        r = self.r
        if r.random() < bad: return r.choice((n, n + 1, -n - 1, -n - 3, 99))
        return r.choice(list(range(n)) * 2 + list(range(1 - n, 0))) if n else 0

    def step(self):
        r = self.r
        id = r.choice(list(self.mol))
        m = self.mol[id]
        n = len(m.atoms)
        k = r.choice(("rem", "rem", "rem", "rem", "tf", "tf", "idx", "idx", "point", "pos", "spec", "atoms", "copy", "prio", "ori", "ori", "reset"))
        if k == "rem":
            q = r.random()
            is_ = [r.randrange(-n, n) for _ in range(r.randint(0, max(1, n // 2)))] if n else []
            if n and q < .2: is_ = r.sample(range(n), r.randint(0, n))
            if q > .9: is_ = is_ + [n + r.randint(0, 3)]
            e = dict(fn="m_remove", id=id, hasnew=r.random() < .4, newok=True, new=0)
            e["is"] = is_
            kw = {}
            if e["hasnew"]:
                free = [i for i in range(n) if i not in [j % n for j in is_ if -n <= j < n]]
                e["new"] = r.choice(free) - r.choice((0, 0, n)) if free and r.random() < .8 else self.an_idx(n)
                if e["new"] == -n: e["new"] = 0
                kw["new_origin_idx"] = r.choice((int, np.int64))(e["new"])
                if r.random() < .08: e["newok"] = False; kw["new_origin_idx"] = float(e["new"])
            arg = r.choice((list(is_), np.array(is_, dtype=int), tuple(is_)))
            if len(is_) == 1 and r.random() < .4: arg = is_[0]
            if all(-n <= i < n for i in is_):               # the same atoms as a mask or a slice
                J = sorted({i % n for i in is_})
                if r.random() < .15: arg = r.choice((np.isin(np.arange(n), J), [i in J for i in range(n)])) if n else arg
                elif J and J == list(range(J[0], J[-1] + 1)) and r.random() < .3: arg = slice(J[0], J[-1] + 1)
            self.do(e, lambda: m.remove_atoms(arg, **kw))
        elif k == "tf":
            T, t = self.w.tfs_any(r)
            torg = r.random() < .7
            kw = {} if torg and r.random() < .6 else dict(transform_origin=torg)
            self.do(dict(fn="m_tf", id=id, T=T, torg=torg), lambda: m.transform(t, **kw))
        elif k == "idx":
            i = self.an_idx(n)
            if n == 0: i = r.choice((0, 1, -1))
            ok = r.random() > .06
            v = r.choice((int, np.int64))(i) if ok else float(i)
            self.do(dict(fn="m_idx", id=id, i=i, ok=ok), lambda: m.set_origin(idx=v))
        elif k == "point":
            p = self.w.pt(4)
            if n and r.random() < .35: p = snap(m.atoms[r.randrange(n)] if r.random() < .5 else m.origin)[0]   # where an atom, or the origin, is
            if r.random() < .12: p = p[:2]
            v = r.choice((AZ(p), list(AZ(p)), A(p)[None, :]))
            self.do(dict(fn="m_point", id=id, p=p), lambda: m.set_origin(point=v))
            self.scrub(v)
        elif k == "pos":
            ps = self.pts(n + (r.choice((-1, 1)) if r.random() < .15 and n > 1 else 0)); P = AZ(ps) if ps else np.zeros((0, 3))
            own = len(ps) == n and n > 0 and r.random() < .3
            def place():
                if not own or not m.atoms.flags.writeable or m.atoms.dtype != float: return m.update_positions(P)
                X = m.atoms                    # its own array, written in place
                X[...] = P
                m.update_positions(X)
            self.do(dict(fn="m_pos", id=id, ps=ps), place)
            self.scrub(P)
        elif k == "spec":
            zs = self.zs(n + (r.choice((-1, 1)) if r.random() < .15 and n > 1 else 0)); Z = np.array(zs, dtype=int)
            own = len(zs) == n and n > 0 and r.random() < .3
            def spec():
                if not own or not m.species.flags.writeable: return m.update_species(Z)
                X = m.species
                X[...] = Z
                m.update_species(X)
            self.do(dict(fn="m_spec", id=id, zs=zs), spec)
            self.scrub(Z)
        elif k == "atoms":
            n2 = n if self.trk.get(id) else r.randint(1, 6)
            ps, zs = self.pts(n2), self.zs(n2)
            if r.random() < .2: zs = zs + [6]
            P, Z = AZ(ps) if ps else np.zeros((0, 3)), np.array(zs, dtype=int)
            self.do(dict(fn="m_atoms", id=id, ps=ps, zs=zs), lambda: m.set_atoms(Z, P))
            self.scrub(P, Z)
        elif k == "copy":
            new = "m%d" % (len(self.ev) + 1)
            Ts, os_ = [], []
            for _ in range(r.choice((0, 0, 1, 1, 2, 2, 3, 4))):
                T, t = self.w.tfs_any(r); Ts += T; os_.append(t)
            c = self.do(dict(fn="m_copy", id=id, new=new, T=Ts), lambda: m.from_molecule(**(dict(transformation=os_) if os_ or r.random() < .5 else {})))
            if c is not None: self.mol[new] = c; self.ev[-1]["obs"] = self.obs()
        elif k == "prio":
            ok = r.random() < .7
            p = r.randint(-3, 9)
            v = r.choice((int, np.int64, np.int32))(p) if ok else r.choice((1.5, "1", None, 2.0))
            self.do(dict(fn="m_prio", id=id, prio=p, ok=ok), lambda: setattr(m, "priority", v))
        elif k == "reset":
            self.do(dict(fn="m_reset", id=id), m.reset_orientation)
        else:
            ok = r.random() < .6
            M = r.choice(RM) if ok else r.choice(BADORI)
            X = M.copy()
            self.do(dict(fn="m_ori", id=id, ori=M.astype(int).tolist() if ok else [], ok=ok), lambda: setattr(m, "orientation", X))
            self.scrub(X)




def histories(prop, seed, start, count):
    for i in range(start, start + count):
        r = rng_for(seed, prop, i)
        u = Run(r)
        u.w.tfs_any = lambda r: mol_tfs(u.w)
        u.new()
        while not u.mol: u.new()
        for _ in range(r.randint(6, 14)):
            if r.random() < .06: u.new()
            else: u.step()
            if u.ev[-1]["exc"] == "TimeoutError" or u.ev[-1]["exc"].startswith("Observation"): break
        yield dict(events=u.ev)


def mol_tfs(w):
    """rigid or general maps with exact images; a rational rotation at most three times"""
    w.kind["x"] = "mol"; w.bs = 2
    return w.tfs("x", (w.r.random() < .5, w.r.random() < .5))
