"""C27, C20: rotation utilities and surface alignment."""
from czt import *
from czone.transform import (rot_v, rot_vtv, rot_align, rot_zxz, s2s_alignment, MultiTransform, Translation, Rotation)
from czone.util.misc import vangle
from czone.volume.algebraic import Plane

ANG = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (8, 15, 17), (15, 8, 17), (7, 24, 25), (24, 7, 25),
       (1, 0, 1), (0, 1, 1), (1, 0, 1), (0, 1, 1), (20, 21, 29), (9, 40, 41)]
SMALL = [(99, 20, 101), (399, 40, 401), (2499, 100, 2501), (9999, 200, 10001)]
QUAT = [(1, 0, 0, 0), (0, 1, 0, 0), (1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, 1), (1, 1, 1, 1), (1, -1, 1, 1), (0, 1, 1, 0), (0, 1, 0, 1),
        (2, 1, 0, 0), (1, 2, 0, 0), (1, 1, 1, 0), (2, 1, 1, 1), (1, -1, 0, 1), (2, 0, 1, 0), (3, 1, 1, 0), (0, 1, 2, 2), (0, 0, 1, 1), (0, 0, 0, 1)]


def limb(x):
    """two limbs of 1/10^4 and 1/10^8"""
    a = np.nan_to_num(np.asarray(x, dtype=float), nan=7e4, posinf=7e4, neginf=7e4)
    a = np.clip(a, -9e4, 9e4) * 1e4
    h = np.rint(a)
    l = np.rint((a - h) * 1e4)
    return np.stack([h, l], axis=-1).astype(int).tolist()


def mat(m):
    m = np.asarray(m, dtype=float)
    return limb(m) if m.shape == (3, 3) else limb(np.full((3, 3), 9.0))


def quatmat(q):
    w, x, y, z = q
    N = [[w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)],
         [2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)],
         [2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]]
    return N, w*w+x*x+y*y+z*z


def vec(r, n, zero=False):
    while True:
        k = r.random()
        if k < .25: v = [0, 0, 0]; v[r.randrange(3)] = r.choice((-1, 1)) * r.randint(1, n)
        elif k < .5: v = [r.randint(-2, 2) for _ in range(3)]
        else: v = [r.randint(-n, n) for _ in range(3)]
        if zero or any(v): return v


def shaped(r, v, scale=True):
    """the same direction, as users write it"""
    k = r.choice((1, 1, 1, .01, 2.5, 1e-9, 1e6)) if scale else 1
    a = np.array(v, dtype=float) * k
    c = r.randrange(5)
    if k == 1 and c == 0: return list(v)
    if k == 1 and c == 1: return np.array(v)
    if c == 2: return a.reshape(3, 1)
    if c == 3: return a.reshape(1, 3)
    return a


def angle(r):
    c, s, d = r.choice(ANG) if r.random() < .85 else r.choice(SMALL)
    c, s = c * r.choice((-1, 1)), s * r.choice((-1, 1))
    return c, s, d, math.atan2(s, c)


def same(a, b):
    return all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(a, b))


def rotations(r, i):
    evs = []
    def emit(e, fn, args, want="m"):
        keep = [np.array(a, copy=True) for a in args]
        v, e["exc"] = guarded(lambda: fn(*args))
        e["same"] = same(args, keep)
        if not e["exc"]: e[want] = v
        evs.append(e)
        return e
    for _ in range(6):
        # about a vector
        a = vec(r, 30)
        c, s, d, th = angle(r)
        th += 2 * math.pi * r.choice((0, 0, 0, 1, -1, 2))
        e = emit(dict(fn="rot_v", a=a, c=c, s=s, d=d, m=0), lambda x: mat(rot_v(x, th)), [shaped(r, a)])
        # one vector onto another
        u = vec(r, 60)
        k = r.random()
        if k < .12: v = [r.choice((1, 2, 7)) * x for x in u]
        elif k < .3: v = [-r.choice((1, 2, 5)) * x for x in u]
        elif k < .45:
            v = [x * 1 for x in vec(r, 1)]
            u = [60 * x + y for x, y in zip(v, vec(r, 1))]
            if r.random() < .5: v = [-x for x in v]
            if not any(u): u = [1, 0, 0]
        else: v = vec(r, 60)
        if max(map(abs, v)) > 120: v = [x // 7 or 1 for x in v]
        x, y = shaped(r, u), shaped(r, v)
        if r.random() < .15:
            y = np.array(y, dtype=float); y = y + 1e-11 * np.max(np.abs(y)) * np.array([r.uniform(-1, 1) for _ in range(3)]).reshape(y.shape)
        emit(dict(fn="rot_vtv", u=u, v=v, m=0), lambda p, q: mat(rot_vtv(p, q)), [x, y])
        u = vec(r, 3)
        while True:
            t = vec(r, 2)
            if np.any(np.cross(u, t)): break
        k, sg = r.choice((4, 5, 6)), r.choice((1, -1))
        emit(dict(fn="rot_vtvn", u=u, t=t, k=k, sg=sg, m=0), lambda p, q: mat(rot_vtv(p, q)),
             [shaped(r, u), shaped(r, [sg * (10 ** k * x + y) for x, y in zip(u, t)])])
        # two sets of vectors
        N, dn = quatmat(r.choice(QUAT))
        while True:
            V = [vec(r, 9) for _ in range(r.choice((2, 2, 3, 3, 4, 6)))]
            if any(np.any(np.cross(p, q)) for p in V for q in V): break
        W = np.array(V) @ np.array(N).T / dn
        if r.random() < .5: V2, W2 = np.array(V, float), W
        else: V2, W2 = V, W.tolist()
        if r.random() < .3: V2, W2 = np.array(V2) * .37, np.array(W2) * .37
        emit(dict(fn="rot_align", N=N, d=dn, m=0), lambda p, q: mat(rot_align(p, q)), [V2, W2])
        # Euler angles
        al, be, ga = (angle(r) for _ in range(3))
        if r.random() < .3: be = (1, 0, 1, 0.0)
        if r.random() < .2: be = (-1, 0, 1, math.pi)
        if al[2] * be[2] * ga[2] > 15000: al = (0, 1, 1, math.pi / 2)
        if al[2] * be[2] * ga[2] > 15000: ga = (-1, 0, 1, math.pi)
        conv = r.choice((dict(), dict(convention="intrinsic"), dict(convention="extrinsic")))
        emit(dict(fn="rot_zxz", al=list(al[:3]), be=list(be[:3]), ga=list(ga[:3]), m=0),
             lambda: mat(rot_zxz(al[3], be[3], ga[3], **conv)), [])
        # angles
        n = r.choice((2, 3, 3, 3, 4, 5))
        u = [r.randint(-5, 5) for _ in range(n)] if r.random() < .7 else [0] * n
        if not any(u): u[r.randrange(n)] = 1
        k = r.random()
        if k < .2: v = [r.choice((1, 2)) * x for x in u]
        elif k < .4: v = [-r.choice((1, 3)) * x for x in u]
        elif k < .6:
            v = [0] * n; v[0], v[1] = -u[1], u[0]
            if not any(v): v[-1] = 1; v[:2] = [0, 0]
            if n > 2 and not (u[0] or u[1]): v = [1] + [0] * (n - 1)
        else: v = [r.randint(-5, 5) for _ in range(n)]
        if not any(v): v = [1] + [0] * (n - 1)
        while sum(x * x for x in u) * sum(x * x for x in v) > 200000: v = [int(x / 2) for x in v]
        if not any(v): v[0] = 1
        f1, f2 = r.choice((1, 1, .1, 1 / 3, 1e3, 1e-6)), r.choice((1, 1, .7, 1e-4, 1e5))
        x = np.array(u, float) * f1 if f1 != 1 or r.random() < .5 else list(u)
        y = np.array(v, float) * f2 if f2 != 1 or r.random() < .5 else np.array(v)
        e = emit(dict(fn="vangle", u=u, v=v, ang=[0, 0], cos=[0, 0]), lambda p, q: float(vangle(p, q)), [x, y], "ang")
        if not e["exc"]:
            e["cos"] = limb(math.cos(e["ang"]) if math.isfinite(e["ang"]) else 5.0)
            e["ang"] = limb(e["ang"])
    return [dict(events=evs)]


def align(r, i):
    evs = []
    C = 100
    for _ in range(6):
        mn = vec(r, 4)
        k = r.random()
        if k < .2: tn = [r.choice((1, 2)) * x for x in mn]
        elif k < .4: tn = [-r.choice((1, 3)) * x for x in mn]
        else: tn = vec(r, 4)
        pt = lambda: [r.randint(-1500, 1500) for _ in range(3)]
        mp, tp, mq, tq = pt(), pt(), pt(), pt()
        if r.random() < .15: tp = list(mp)
        if r.random() < .15: mq = list(mp)
        if r.random() < .15: tq = list(tp)
        # vectors in and across the moving plane
        h = next(x for x in ([1, 0, 0], [0, 1, 0], [0, 0, 1]) if np.any(np.cross(x, mn)))
        du, = [np.cross(mn, h)]
        dv = np.cross(mn, du)
        fit = lambda w: [int(x) for x in np.array(w) * max(1, 500 // int(np.max(np.abs(w))))]
        du, dv, dw = fit(du), fit(dv), fit(mn)
        X = np.array([mp, [a + b for a, b in zip(mp, du)], [a + b for a, b in zip(mp, dv)],
                      [a + b for a, b in zip(mp, dw)], mq], dtype=float) / C
        M, T = Plane(shaped(r, mn), np.array(mp) / C), Plane(shaped(r, tn), np.array(tp) / C)
        asarr = lambda p: r.choice((lambda x: x, lambda x: x.tolist(), lambda x: x.reshape(1, 3), lambda x: x.reshape(3, 1)))(np.array(p) / C)
        P, Q = asarr(mq), asarr(tq)
        state = lambda: [np.array(x, copy=True) for x in (M.normal, M.point, T.normal, T.point, P, Q)]
        keep = state()
        e = dict(fn="s2s", mp=mp, mq=mq, tn=tn, tp=tp, tq=tq, du=du, dv=dv, dw=dw, img=[], pn=[], pp=[])
        def go():
            t = s2s_alignment(M, T, P, Q)
            ok = same(keep, state())
            img = code(t.applyTransformation(X.copy()), C)
            p = t.applyTransformation_alg(Plane(M.normal.copy(), M.point.copy()))
            return img, code(np.ravel(p.normal), 10000), code(np.ravel(p.point), C), ok
        v, e["exc"] = guarded(go)
        e["same"] = True
        if not e["exc"]: e["img"], e["pn"], e["pp"], e["same"] = v
        evs.append(e)
    return [dict(events=evs)]


FN = dict(C27=rotations, C20=align)


def histories(prop, seed, start, count):
    for i in range(start, start + count):
        for h in FN[prop](rng_for(seed, prop, i), i):
            yield h
