"""C23: Wulff and Winterbottom constructions of cubic crystals."""
import itertools
from scipy.optimize import linprog
from czt import *
from stack import rotation
from pymatgen.core import Structure, Lattice
from czone.volume.algebraic import Plane
from czone.generator import Generator
from czone.transform import Translation, Rotation
from czone.prefab.wulff import WulffSingle

F4 = [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]]
FAMS = [(1, 0, 0), (1, 1, 0), (1, 1, 1), (2, 1, 0), (2, 1, 1), (3, 1, 1), (2, 2, 1), (3, 2, 1)]
NAMED = dict(cube={(1, 0, 0): 1.0}, cuboctohedron={(1, 0, 0): 1.0, (1, 1, 1): 1.15}, octohedron={(1, 1, 1): 1.0},
             truncated_octohedron={(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0})


def crystal(r):
    """structure, volume per atom"""
    k = r.choice(("fcc", "fcc", "bcc", "sc", "diamond", "prim", "salt", "super"))
    a = r.choice((3.6, 4.08, 5.0))
    L = Lattice.cubic(a)
    if k == "fcc": return Structure(L, ["Au"] * 4, F4), a ** 3 / 4
    if k == "bcc": return Structure(L, ["Fe"] * 2, [[0, 0, 0], [.5, .5, .5]]), a ** 3 / 2
    if k == "sc": return Structure(L, ["Po"], [[0, 0, 0]]), a ** 3
    if k == "diamond": return Structure(L, ["Si"] * 8, F4 + [[x + .25 for x in p] for p in F4]), a ** 3 / 8
    if k == "prim": return Structure(Lattice([[0, a / 2, a / 2], [a / 2, 0, a / 2], [a / 2, a / 2, 0]]), ["Cu"], [[0, 0, 0]]), a ** 3 / 4
    if k == "salt": return Structure(L, ["Na"] * 4 + ["Cl"] * 4, F4 + [[(x + .5) % 1 if j == 0 else x for j, x in enumerate(p)] for p in F4]), a ** 3 / 8
    s = Structure(L, ["Au"] * 4, F4); s.make_supercell([2, 1, 1]) if r.random() < .5 else s.make_supercell(2)
    return s, a ** 3 / 4


def variant(r, h):
    h = list(h); r.shuffle(h)
    return tuple(x * r.choice((1, -1)) for x in h)


def critical(h0, h):
    """relative energy above which the facets of h do not cut the particle of h0"""
    rows = {tuple(s * x for s, x in zip(sg, q)) for q in itertools.permutations(h0) for sg in itertools.product((1, -1), repeat=3)}
    A = np.array(sorted(rows)) / np.linalg.norm(h0)
    return -linprog(-np.array(h) / np.linalg.norm(h), A_ub=A, b_ub=np.ones(len(A)), bounds=[(None, None)] * 3).fun


def gstate(g):
    return [np.array(g.voxel.bases), np.array(g.voxel.origin), np.array(g.coords), np.array(g.species), np.array(g.voxel.scale)]


def wulff(r, i):
    st, vat = crystal(r)
    g = Generator(structure=st)
    if r.random() < .3: g.origin = np.array([r.uniform(-3, 3) for _ in range(3)])
    if r.random() < .5: g.transform(Rotation(rotation(r)))
    if r.random() < .3: g.transform(Translation(np.array([r.uniform(-3, 3) for _ in range(3)])))
    n = r.choice((120, 300, 500, 800, 1000, 1500, 2500))
    name = r.choice([None] * 4 + list(NAMED))
    wb = name is None and r.random() < .45
    if name: E = NAMED[name]
    else:
        fam = r.sample(FAMS[:4] if r.random() < .7 else FAMS, r.choice((1, 1, 2, 2, 3)))
        E = {variant(r, h) if r.random() < .4 else h: r.randint(70, 140) / 100 for h in fam}
        if len(fam) == 2 and r.random() < .4:                    # facets which only just cut the particle, or do not
            c = critical(fam[0], fam[1])
            ks = list(E)
            E[ks[1]] = round(E[ks[0]] * c * r.choice((.9, .95, .97, 1.03)), 2)
    itf = dict(none=True)
    e = dict(fn="wulff", exc="", natoms=n, vat=round(1000 * vat), planes=[], count=0, crystal=True, fractions=True, same=True,
             fam=[dict(h=[abs(x) for x in h], g=round(1000 * v)) for h, v in E.items()])
    if wb:
        hi = variant(r, r.choice(FAMS[:4])) if r.random() < .75 else (0, 0, r.choice((1, -1)))
        gi = round(min(E.values()) * r.choice((-.6, -.3, 0, .1, .3, .5)), 3)
        itf = dict(none=False, h=list(hi), g=round(1000 * gi))
    e["itf"] = itf
    keep, kE = gstate(g), dict(E)
    def go():
        w = None
        if name:
            v = getattr(WulffSingle, name)(g, n) if r.random() < .5 else getattr(WulffSingle, name)(generator=g, natoms=n)
            if n == 1000: v = getattr(WulffSingle, name)(g)
        else:
            other = Generator(structure=Structure(Lattice.cubic(3.0), ["W"], [[0, 0, 0]]))
            late = r.random() < .1                               # the crystal is exchanged before the first construction
            w = WulffSingle(other if late else g, E, n) if n != 1000 else WulffSingle(other if late else g, E)
            if late: w.generator = g
            reuse = r.random()                                   # constructions of one object do not depend on earlier ones
            if reuse < .15: w.get_construction()
            elif reuse < .25: w.winterbottom((1, 1, 0), .2 * min(E.values()))
            elif reuse < .35:
                w.natoms = 2 * n; w.get_construction(); w.natoms = n
            elif reuse < .45:
                w.surface_energies = {(1, 0, 0): 1.0}; w.get_areas(); w.surface_energies = E
            elif reuse < .5:
                w.generator = other; w.get_construction(); w.generator = g
            elif reuse < .65:                                    # the crystal is turned and moved after a construction
                w.get_construction() if r.random() < .5 else w.winterbottom((1, 0, 0), .3 * min(E.values()))
                g.transform(Rotation(rotation(r)))
                if r.random() < .5: g.transform(Translation(np.array([1.0, -2, .5])))
                keep[:] = gstate(g)
            if wb: v = w.winterbottom(hi, gi)
            else:
                fr = None
                if r.random() < .4: v, fr = w.get_construction(return_facet_areas=True)
                else: v = w.get_construction()
                if r.random() < .5: fr = w.get_areas()
                if fr is not None:
                    e["fractions"] = bool(abs(sum(fr.values()) - 1) < 1e-6 and set(fr) <= set(E) and min(fr.values()) >= 0)
        gv = v.generator
        R = np.array(gv.voxel.bases) @ np.linalg.inv(np.array(st.lattice.matrix).T)
        e["crystal"] = bool(np.allclose(R @ R.T, np.eye(3), atol=1e-8) and np.linalg.det(R) > 0 and np.array_equal(gv.coords, g.coords)
                            and np.array_equal(gv.species, g.species) and np.allclose(gv.lattice.matrix, st.lattice.matrix)
                            and (wb or (np.allclose(gv.voxel.bases, g.voxel.bases) and np.allclose(gv.voxel.origin, g.voxel.origin))))
        for p in v.alg_objects:
            u = np.ravel(p.normal) / np.linalg.norm(p.normal)
            d = float(np.dot(u, np.ravel(p.point)))
            assert isinstance(p, Plane)
            e["planes"].append(dict(n=code(R.T @ u, 10000), d=int(np.clip(code(d, 1000), -10**6, 10**6)), down=bool(np.allclose(u, [0, 0, -1], atol=1e-5))))
        v.populate_atoms()
        e["count"] = len(v.atoms)
        v.transform(Translation(np.array([1.0, 2, 3])))
        e["same"] = all(np.array_equal(a, b) for a, b in zip(keep, gstate(g))) and kE == E
    _, e["exc"] = guarded(go, 60)
    return [dict(events=[e], note="%s wb=%s %s" % (name, wb, itf))]


def histories(prop, seed, start, count):
    for i in range(start, start + count):
        for h in wulff(rng_for(seed, prop, i), i):
            yield h
