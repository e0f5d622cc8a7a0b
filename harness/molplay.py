"""Performs sequences of requests on molecules generated by TLC (spec/MCMolProg.tla)
on the real library, choosing freely among equivalent calls."""
from mol import *
from czone.transform import MultiTransform
from replay import programs, Replay


class Play(Run):
    mk, seq = Replay.mk, None

    def req(self, e):
        e, r = dict(e), self.r
        k, id = e["fn"], e["id"]
        m = self.mol.get(id)
        if k == "m_new":
            P, Z = A(e["ps"]), np.array(e["zs"])
            x = self.do(e, lambda: Molecule(Z, P, origin=e["i"]))
            if x is not None: self.mol[id] = x; self.ev[-1]["obs"] = self.obs()
            self.scrub(P, Z)
        elif k == "m_remove":
            is_ = list(e["is"])
            arg = r.choice((list(is_), np.array(is_, dtype=int), tuple(is_)))
            if len(is_) == 1 and r.random() < .4: arg = is_[0]
            kw = dict(new_origin_idx=r.choice((int, np.int64))(e["new"])) if e["hasnew"] else {}
            self.do(e, lambda: m.remove_atoms(arg, **kw))
        elif k == "m_idx":
            v = r.choice((int, np.int64))(e["i"])
            self.do(e, lambda: m.set_origin(idx=v))
        elif k == "m_point":
            v = r.choice((A(e["p"]), list(A(e["p"])), A(e["p"])[None, :]))
            self.do(e, lambda: m.set_origin(point=v)); self.scrub(v)
        elif k == "m_tf":
            os_ = [self.mk(T) for T in e["T"]]
            t = os_[0] if len(os_) == 1 else MultiTransform(os_)
            kw = {} if e["torg"] and r.random() < .6 else dict(transform_origin=e["torg"])
            self.do(e, lambda: m.transform(t, **kw))
        elif k == "m_pos":
            P = A(e["ps"]) if e["ps"] else np.zeros((0, 3))
            self.do(e, lambda: m.update_positions(P)); self.scrub(P)
        elif k == "m_spec":
            Z = np.array(e["zs"], dtype=int)
            self.do(e, lambda: m.update_species(Z)); self.scrub(Z)
        elif k == "m_atoms":
            P, Z = A(e["ps"]) if e["ps"] else np.zeros((0, 3)), np.array(e["zs"], dtype=int)
            self.do(e, lambda: m.set_atoms(Z, P)); self.scrub(P, Z)
        elif k == "m_ori":
            X = np.array(e["ori"], float)
            self.do(e, lambda: setattr(m, "orientation", X)); self.scrub(X)
        elif k == "m_reset":
            self.do(e, m.reset_orientation)
        elif k == "m_prio":
            v = r.choice((int, np.int64))(e["prio"])
            self.do(e, lambda: setattr(m, "priority", v))
        elif k == "m_copy":
            os_ = [self.mk(T) for T in e["T"]]
            kw = dict(transformation=os_) if os_ or r.random() < .5 else {}
            c = self.do(e, lambda: m.from_molecule(**kw))
            if c is not None: self.mol[e["new"]] = c; self.ev[-1]["obs"] = self.obs()
        else:
            raise ValueError(k)


def histories(prop, seed, start, count):
    P = programs()
    for i in range(start, min(start + count, len(P) - 1)):
        u = Play(rng_for(seed, prop, "molplay", i))
        for e in P[0] + P[i + 1]:
            u.req(e)
            if u.ev[-1]["exc"] == "TimeoutError" or u.ev[-1]["exc"].startswith("Observation"): break
        yield dict(events=u.ev)
