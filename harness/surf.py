"""C21: adsorbates on the surface of a crystal."""
import itertools, io, contextlib
from czt import *
from stack import rotation, hs
from pymatgen.core import Structure, Lattice, Element
from czone.volume import Volume, MultiVolume
from czone.volume.algebraic import Sphere
from czone.generator import Generator, NullGenerator
from czone.molecule import Molecule
from czone.transform import Translation, Rotation
from czone.surface.adsorbate import add_adsorbate

CRYSTALS = [[29] * 8, [11, 17, 17, 11, 17, 11, 11, 17], [29, 79, 29, 79, 29, 79, 29, 79]]
CORNERS = [(i, j, k) for i in (0, 1) for j in (0, 1) for k in (0, 1)]


def crystal(r, a):
    """sites of a simple cubic lattice with one or two kinds of atoms"""
    z = r.choice(CRYSTALS)
    if len(set(z)) == 1: st = Structure(Lattice.cubic(a), [z[0]], [[0, 0, 0]])
    else: st = Structure(Lattice.cubic(2 * a), z, np.array(CORNERS) / 2)
    g = Generator(structure=st)
    R, t = rotation(r), np.array([r.uniform(-30, 30) for _ in range(3)])
    if not np.allclose(R, np.eye(3)): g.transform(Rotation(R))
    g.transform(Translation(t))
    return g, R, t


def molecule(r):
    n = r.choice((1, 2, 3, 4, 4, 5, 6))
    pts = []
    while len(pts) < n:
        p = [r.randint(-22, 22) / 10 for _ in range(3)]
        if all(sum((x - y) ** 2 for x, y in zip(p, q)) > .6 for q in pts): pts.append(p)
    if n >= 3 and r.random() < .2: pts = [[0, 0, 1.1 * k] for k in range(n)]
    kw = {}
    if r.random() < .4: kw["origin"] = np.array([r.uniform(-4, 4) for _ in range(3)])
    elif r.random() < .5: kw["origin"] = r.randrange(n)
    m = Molecule([r.choice((1, 6, 7, 8)) for _ in range(n)], np.array(pts), **kw)
    if r.random() < .5: m.transform(Rotation(rotation(r)))
    if r.random() < .5: m.transform(Translation(np.array([r.uniform(-8, 8) for _ in range(3)])))
    if r.random() < .3: m.orientation = rotation(r)
    return m


def mstate(m):
    return [np.array(m.atoms, float), np.array(m.species), np.array(m.origin, float), np.array(m.orientation, float), m.priority]


def vstate(v):
    vs = v.volumes if isinstance(v, MultiVolume) else [v]
    out = [np.array(v.atoms), np.array(v.species), v.priority]
    for x in vs:
        out += [np.array(x.points) if x.points is not None else np.zeros(0), x.priority]
        out += [np.array([*np.ravel(s.center), s.radius]) for s in x.alg_objects]
    return out


def eq(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))


def volume(r, a, R, t, g):
    """volume, half spaces and spheres in 1/1000 Angstrom of the lattice frame"""
    X = lambda p: a * np.asarray(p, float) @ R.T + t
    kind = r.choice(("box", "box", "box", "octa", "ball", "hollow"))
    H, S, faced = [], [], kind in ("box", "hollow")
    if kind in ("box", "hollow"):
        n = [r.randint(5, 6) if kind == "hollow" else r.randint(2, 5) for _ in range(3)]
        pad = r.choice((.3, .4, .05))
        v = Volume(points=X(list(itertools.product(*[(-pad, k + pad) for k in n]))), generator=g)
        for k in range(3):
            u = [int(k == j) for j in range(3)]
            H += [hs(u, round((n[k] + pad) * a * 1000)), hs([-x for x in u], round(pad * a * 1000))]
        if kind == "hollow":
            h = r.choice((.3, .3, 1.3))
            lo = -h if h < 1 else -.3
            c = [2 + r.randint(0, m - 5 if h < 1 else 0) for m in n]
            w = Volume(points=X(np.array(c) + list(itertools.product((lo, h), repeat=3))), generator=NullGenerator(), priority=-1)
            v = MultiVolume(volumes=[v, w])
    elif kind == "octa":
        d = r.choice((2.4, 2.7, 3.5, 4.3))
        v = Volume(points=X([[s * d * (j == k) for j in range(3)] for k in range(3) for s in (1, -1)]), generator=g)
        H = [hs(s, round(d * a * 1000)) for s in itertools.product((1, -1), repeat=3)]
    else:
        d = r.choice((1.9, 2.3, 2.7, 3.3, 3.9))
        c = [r.choice((0, .5, .25)) for _ in range(3)]
        v = Volume(alg_objects=[Sphere(center=X(c), radius=d * a)], generator=g)
        S = [dict(c=[round(1000 * a * x) for x in c], r=round(d * a * 1000))]
    return v, H, S, faced, kind


def filters(r, P, z, R, t, a):
    """(the argument, its description for the specification)"""
    F, D = {}, []
    n = len(P)
    names = ["element", "mask", "indices", "spatial"]
    for j in range(r.choice((0, 0, 1, 1, 2, 2, 3))):
        k = r.choice(names)
        key = k if k not in F and r.random() < .6 else k + r.choice(("_a", "2", "X"))
        if key in F: continue
        if k == "element":
            zs = sorted(set(z))
            pick = [r.choice(zs)] if r.random() < .7 else zs
            if r.random() < .3: pick = pick + r.choice(([47], [47, 13, 92])); r.shuffle(pick)
            if r.random() < .05: pick = [47]
            F[key] = [Element.from_Z(x).symbol if r.random() < .5 else x for x in pick]
            D.append(dict(k=k, v=pick))
        elif k in ("mask", "indices"):
            some = sorted(r.sample(range(n), max(1, int(n * r.choice((.1, .3, .6))))))
            if k == "mask":
                m = np.zeros(n, bool); m[some] = True
                F[key] = m if r.random() < .7 else m.tolist()
            else: F[key] = r.choice((some, np.array(some)))
            D.append(dict(k=k, v=some))
        else:
            w = r.choice(([0, 0, 1], [0, 0, -1], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [1, 1, 1]))
            lev = sorted(int(np.dot(w, p)) for p in P)
            c = lev[int(len(lev) * r.choice((.15, .4, .8)))]
            wr = R @ np.array(w, float)
            F[key] = lambda x, wr=wr, c=c: (np.asarray(x) - t) @ wr < (c + .5) * a
            D.append(dict(k=k, w=w, c=c))
    return F, D


ANGLES = [(math.pi / 2, 0, 1000), (-math.pi / 2, 0, -1000), (math.pi, -1000, 0), (2 * math.pi / 3, -500, 866)]


def ads(r, i):
    a = r.choice((2.7, 2.8, 2.6))
    g, R, t = crystal(r, a)
    v, H, S, faced, kind = volume(r, a, R, t, g)
    evs = []
    _, exc = guarded(v.populate_atoms)
    if exc: return [dict(events=[dict(fn="ads", exc=exc, P=[[0, 0, 0]], el=[0], F=[], few=0)])]
    for rnd in range(2):
        if rnd and r.random() < .4:                             # the same volume somewhere else
            Q, q = rotation(r), np.array([r.uniform(-9, 9) for _ in range(3)])
            R, t = Q @ R, Q @ t + q
            def move():
                v.transform(Rotation(Q)); v.transform(Translation(q)); v.populate_atoms()
            _, exc = guarded(move)
            if exc: evs.append(dict(fn="ads", exc=exc, P=[[0, 0, 0]], el=[0], F=[], few=0)); break
        at = (np.array(v.atoms) - t) @ R / a
        P, z = np.rint(at).astype(int).tolist(), [int(x) for x in v.species]
        mol = molecule(r)
        n = len(mol.atoms)
        idx = r.randrange(n)
        vec = r.choice([j for j in range(n) if j != idx]) if n > 1 else 0
        d = mol.atoms[vec] - mol.atoms[idx] if n > 1 else np.array([0, 0, 1.0])
        mv = np.linalg.inv(np.array(mol.orientation)) @ d * r.choice((1.0, .3, 4.0))
        F, D = filters(r, P, z, R, t, a)
        L = r.choice((1.2, 1.5, 2.0, 2.3, 3.1))
        samp = r.random() < .75
        kw = dict(seed=r.choice((0, 1, r.randrange(10**6), r.randrange(10**6))))
        if not samp: kw["use_sampling"] = False
        elif r.random() < .2: kw["use_sampling"] = True
        if r.random() < .3: kw["probe_radius"] = r.choice((2.45, 2.5, 2.6))
        if r.random() < .2: kw["N_shells"] = r.choice((2, 3))
        if F or r.random() < .3: kw["filters"] = F
        debug = r.random() < .4
        ang, c, s = r.choice(ANGLES)
        th = r.choice((0.0, 0.0, .7, 2.1, -1.3))
        if th or r.random() < .2: kw["mol_rotation"] = th
        if n > 1: kw["mol_vector"] = r.choice((mv, mv.tolist(), mv.reshape(3, 1))) if r.random() < .8 else mv
        e = dict(fn="ads", exc="", P=P, a=round(1000 * a), el=z, H=H, S=S, F=D, idx=idx, vec=vec, L=round(1000 * L), few=0,
                 m=np.rint(1000 * np.array(mol.atoms)).astype(int).tolist(), out=[], out2=[], c=c, s=s, target=-1,
                 success="?", same=True, repeats=True, sp=True, far=False, faced=faced and samp and kw.get("N_shells", 3) == 3)
        # without sampling, or with few atoms to choose from, the search for surface atoms may miss all of them
        e["few"] = 6 if samp else len(P)
        ai = idx - r.choice((0, 0, n)) if idx else 0            # the atom named from the end
        pre = (mstate(mol), vstate(v), repr(sorted(F)), repr(list(F.values())))
        fr = lambda x: np.rint(1000 * (np.asarray(x, float) - t) @ R)
        def go():
            with contextlib.redirect_stdout(io.StringIO()):
                np.random.seed(r.randrange(10**6))
                res = add_adsorbate(mol, ai, L, v, debug=debug, **kw)
                out = res[0]
                if debug: e["target"] = int(res[1])
                else: e["success"] = "yes" if res[1] is True or res[1] == True else "no"       # noqa: E712
                x = fr(out.atoms)
                e["far"] = bool(np.max(np.abs(x)) > 40000)
                e["out"] = x.astype(int).tolist() if not e["far"] else [[0, 0, 0]] * len(x)
                e["sp"] = [int(q) for q in out.species] == [int(q) for q in mol.species]
                np.random.seed(r.randrange(10**6))
                again = add_adsorbate(mol, ai, L, v, debug=not debug, **kw)
                if debug: e["success"] = "yes" if again[1] else "no"
                else: e["target"] = int(again[1])
                e["repeats"] = bool(np.allclose(again[0].atoms, out.atoms, atol=1e-9))
                o2 = add_adsorbate(mol, ai, L, v, **dict(kw, mol_rotation=th + ang))[0]
                e["out2"] = fr(o2.atoms).astype(int).tolist() if not e["far"] else []
                ok = pre[0] == [] or (eq(pre[0], mstate(mol)) and eq(pre[1], vstate(v)))
                out.transform(Translation(np.array([1.0, 0, 2.0])))
                e["same"] = bool(ok and eq(pre[0], mstate(mol)) and pre[2] == repr(sorted(F)) and pre[3] == repr(list(F.values())))
        _, e["exc"] = guarded(go, 60)
        evs.append(e)
    return [dict(events=evs, note=kind)]


def histories(prop, seed, start, count):
    for i in range(start, start + count):
        for h in ads(rng_for(seed, prop, i), i):
            yield h
