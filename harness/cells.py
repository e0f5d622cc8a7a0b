"""C05: crystals made from unit cells and space groups."""
from czt import *
from czone.generator import Generator
from czone.volume import Volume
from czone.volume.algebraic import Plane
from pymatgen.symmetry.groups import sg_symbol_from_int_number

Q = 24
# space group -> crystal system
GROUPS = {1: "a", 2: "a", 4: "m", 12: "m", 14: "m", 19: "o", 62: "o", 136: "t", 139: "t", 152: "h", 166: "h",
          186: "h", 194: "h", 198: "c", 205: "c", 215: "c", 216: "c", 221: "c", 225: "c", 229: "c"}
ELS = [1, 6, 8, 14, 29, 30, 47, 79]


def metric(r, system):
    """twice the metric tensor of a cell, in square Angstrom"""
    while True:
        a, b, c = (r.randint(5, 40) for _ in range(3))
        if system == "c": b = c = a
        if system in "th": b = a
        al = be = ga = 0
        if system == "h": ga = -a
        if system in "ma": be = r.choice([x for x in range(-12, 12) if x])
        if system == "a": al, ga = r.randint(-12, 12), r.randint(-12, 12)
        G2 = np.array([[2 * a, ga, be], [ga, 2 * b, al], [be, al, 2 * c]])
        if np.linalg.eigvalsh(G2).min() > 3 and max(abs(be) / math.sqrt(a * c), abs(al) / math.sqrt(b * c), abs(ga) / math.sqrt(a * b)) < 1.75:
            return G2


def site(r):
    k = r.random()
    if k < .3: return [0, 0, 0]
    if k < .5: return [r.choice((0, 12)) for _ in range(3)]
    if k < .7: return r.choice(([8, 16, 0], [8, 16, 9], [16, 8, 12], [6, 6, 6], [18, 18, 18], [0, 0, 9], [12, 0, 6], [8, 16, 6]))
    if k < .8:
        u = r.randint(1, 23)
        return r.choice(([u, u, u], [u, u, 0], [0, 0, u], [u, 0, 12], [u, -u % Q, u]))
    return [r.randint(0, 23) for _ in range(3)]


def cell(r, i):
    how = r.choice(("unit", "group", "group"))
    group = r.choice(sorted(GROUPS)) if how == "group" else 1
    system = GROUPS[group] if how == "group" else r.choice("aamothc")
    G2 = metric(r, system)
    L = np.sqrt(np.diag(G2) / 2.0)
    ang = [math.degrees(math.acos(G2[j][k] / 2 / L[j] / L[k])) for j, k in ((1, 2), (0, 2), (0, 1))]
    big = group > 190
    sites = []
    for _ in range(r.choice((1, 1, 2) if how == "group" else (1, 2, 3, 4))):
        f = site(r) if not (big and r.random() < .8) else r.choice(([0, 0, 0], [12, 12, 12], [6, 6, 6], [12, 0, 0], [9, 9, 9]))
        sites.append(dict(f=f, z=r.choice(ELS)))
    # different orbits only: two atoms on one site are no crystal
    if how == "group":
        if len(sites) > 1 and sites[1]["f"] in (sites[0]["f"],): sites = sites[:1]
    else:
        sites = [s for j, s in enumerate(sites) if s["f"] not in [x["f"] for x in sites[:j]]]
        if r.random() < .3:
            for s in sites: s["f"] = [x + Q * r.choice((-1, 0, 0, 1)) for x in s["f"]]
    Z = [s["z"] for s in sites]
    from pymatgen.core import Element
    Zarg = Z if r.random() < .7 else [Element.from_Z(z).symbol for z in Z]
    X = [[x / Q for x in s["f"]] for s in sites]
    seq = r.choice((list, tuple, np.array))
    X = np.array(X) if r.random() < .6 else X
    o = [r.uniform(-5, 5) for _ in range(3)] if r.random() < .6 else None
    kw = {} if o is None else dict(origin=np.array(o))
    e = dict(fn="cell", exc="", group=group, G2=G2.tolist(), sites=sites, lo=[], hi=[],
             gram=[[0] * 3] * 3, det=1, obs=[], off=0, org=True, same=True)
    lo = [-1 + 24 * r.randint(-1, 1) - r.choice((0, 10)) for _ in range(3)]
    hi = [l + r.choice((26, 26, 38)) for l in lo]
    if group > 190: hi = [l + 26 for l in lo]
    e["lo"], e["hi"] = [x + 1 for x in lo], [x - 1 for x in hi]           # the sites asked for
    def go():
        cd, ca = seq(L), seq(ang)
        X0, Z0 = np.array(X), list(Zarg)
        if how == "unit": g = Generator.from_unit_cell(Zarg, X, cd, ca, **kw)
        elif r.random() < .5: g = Generator.from_spacegroup(Zarg, X, cd, ca, sgn=group, **kw)
        else: g = Generator.from_spacegroup(Z=Zarg, coords=X, cellDims=cd, cellAngs=ca, sym=sg_symbol_from_int_number(group), **kw)
        e["same"] = bool(np.array_equal(X0, np.array(X)) and Z0 == list(Zarg) and np.array_equal(cd, L) and np.array_equal(ca, ang))
        if r.random() < .3: g = g.from_generator()
        B = np.array(g.voxel.sbases, float)
        O = np.array(g.voxel.origin, float)
        e["org"] = bool(np.allclose(O, o if o is not None else 0, atol=1e-9) and np.allclose(np.array(g.origin, float), O))
        e["gram"] = code(B.T @ B, 1000)
        e["det"] = int(np.sign(np.linalg.det(B)))
        # a region around the cells lo..hi (over 24; a half of 1/24 off every site)
        box = np.array([[(lo[k] + .5, hi[k] - .5)[(c >> k) & 1] for k in range(3)] for c in range(8)]) / Q @ B.T + O
        if r.random() < .5: p, z = g.supply_atoms(box)
        else:
            v = Volume(points=box, generator=g)
            v.populate_atoms()
            p, z = v.atoms, v.species
        f = (np.asarray(p, float) - O) @ np.linalg.inv(B).T * Q
        n = np.rint(f)
        e["off"] = int(np.sum(np.abs(f - n) > 1e-4)) + (0 if len(p) == len(z) else 1)
        e["obs"] = [list(map(int, a)) + [int(round(float(b)))] for a, b in zip(n, z)]
    _, e["exc"] = guarded(go, 60)
    return [dict(events=[e], note="%s %d %s" % (how, group, system))]


def histories(prop, seed, start, count):
    for i in range(start, start + count):
        for h in cell(rng_for(seed, prop, "cells", i), i):
            yield h
