from common import *
from tracer.models.triangulated_surface import TriangulatedSurface

RULE = ("a case builds a random mesh (soup, open sheet or closed body), some with degenerate faces mixed in, places it anywhere and traces rays at its faces, "
    "edges and corners, compared with reference triangles; non-trivial if a ray met or passed the mesh")
ASSUMPTIONS = ["rays passing within 1e-7 of an edge are decided only when both sides of it belong to the mesh, by where they meet it"]
MINIMUM = dict(hits=3000, misses=500, closed_checks=1500, degenerate=100, splinters=60, meshes=150, whole=10)


class Sliver(Exception):
    """Neither degenerate nor a proper triangle."""


def ref_tris(V, F, place):
    try:
        return [s for s in (ref_tri([V[i] for i in f], place) for f in F) if s is not None]
    except Sliver:
        return []


def ref_tri(P, place, obj=0):
    """Reference triangle with vertices P (object frame), or None when degenerate."""
    e1, e2 = G.sub(P[1], P[0]), G.sub(P[2], P[0])
    c = G.cross(e1, e2)
    if G.norm(e1) < 1e-9 or G.norm(e2) < 1e-9:
        return None
    if G.norm(e1) < 1e-7 or G.norm(e2) < 1e-7:
        raise Sliver
    s = G.norm(c)/G.norm(e1)/G.norm(e2)
    if s < 1e-8:
        return None
    if s < 1e-5:
        raise Sliver
    x = G.unit(e1)
    z = G.unit(c)
    y = G.cross(z, x)
    R = tuple((x[i], y[i], z[i]) for i in range(3))
    return G.Surf(('tri', G.norm(e1), 0., G.dot(e2, x), G.dot(e2, y)), ('refl', 0.), G.compose(place, (R, tuple(P[0]))), obj=obj)


def octa(rng, L):
    """A closed star-shaped body about the origin: a subdivided octahedron, corners moved in and out."""
    V = [(1., 0., 0.), (-1., 0., 0.), (0., 1., 0.), (0., -1., 0.), (0., 0., 1.), (0., 0., -1.)]
    F = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        mid, G2 = {}, []
        def m(i, j):
            k = (min(i, j), max(i, j))
            if k not in mid:
                mid[k] = len(V)
                V.append(G.unit(G.add(V[i], V[j])))
            return mid[k]
        for a, b, c in F:
            x, y, z = m(a, b), m(b, c), m(c, a)
            G2 += [(a, x, z), (x, b, y), (z, y, c), (x, y, z)]
        F = G2
    w = rng.choice([0., .1, .3])
    st = tuple(L*lin(rng, .3, 3.) for _ in range(3))
    V = [tuple(c*(1 + w*u)*s for c, s in zip(v, st)) for v, u in ((v, rng.uniform(-1, 1)) for v in V)]
    F = [tuple(rng.sample(f, 3)) if rng.random() < .3 else (f[1], f[2], f[0]) if rng.random() < .5 else f for f in F]
    return V, F


def box(rng, L):
    s = [L*lin(rng, .2, 3.)/2 for _ in range(3)]
    V = [(x*s[0], y*s[1], z*s[2]) for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]
    Q = [(0, 1, 3, 2), (4, 6, 7, 5), (0, 4, 5, 1), (2, 3, 7, 6), (0, 2, 6, 4), (1, 5, 7, 3)]
    F = []
    for q in Q:
        F += [(q[0], q[1], q[2]), (q[0], q[2], q[3])] if rng.random() < .5 else [(q[0], q[1], q[3]), (q[1], q[2], q[3])]
    return V, F


def soup(rng, L):
    V = [rvec(rng, L) for _ in range(rng.randint(3, 14))]
    F = [tuple(rng.sample(range(len(V)), 3)) for _ in range(rng.randint(1, 12))]
    return V, F


def sheet(rng, L):
    n, m = (rng.randint(2, 4), rng.randint(2, 4)) if rng.random() < .93 else rng.choice([(rng.randint(9, 15), rng.randint(9, 15)), (rng.randint(15, 18), rng.randint(15, 18))])
    V = [(L*(i/(n - 1.) - .5), L*(j/(m - 1.) - .5), L*.2*rng.uniform(-1, 1)*rng.choice([0, 1])) for i in range(n) for j in range(m)]
    F = []
    for i in range(n - 1):
        for j in range(m - 1):
            a, b, c, d = i*m + j, (i + 1)*m + j, (i + 1)*m + j + 1, i*m + j + 1
            F += [(a, b, c), (a, c, d)]
    return V, F


def spoil(rng, mon, V, F):
    """Mix in degenerate faces."""
    V, F = list(V), list(F)
    for _ in range(rng.randint(1, 4)):
        k = rng.randrange(5)
        if k == 0:
            i, j = rng.sample(range(len(V)), 2)
            f = rng.choice([(i, i, j), (i, j, i), (j, i, i), (i, i, i)])
        elif k == 1:
            i, j = rng.sample(range(len(V)), 2)
            V.append(V[i])
            f = rng.choice([(i, len(V) - 1, j), (i, j, len(V) - 1), (j, i, len(V) - 1)])
        elif k == 2:
            i, j = rng.sample(range(len(V)), 2)
            t = rng.choice([.5, 2., -1., rng.uniform(-2, 3)])
            V.append(G.add(V[i], G.mul(G.sub(V[j], V[i]), t)))
            f = tuple(rng.sample((i, j, len(V) - 1), 3))
        elif k == 3:
            p, d = rvec(rng, 1.), rng.choice(AXES)
            b = len(V)
            V += [p, G.add(p, d), G.add(p, G.mul(d, 2.))]
            f = tuple(rng.sample((b, b + 1, b + 2), 3))
        else:
            p, d = rvec(rng, 1.), rdir(rng)
            b = len(V)
            V += [p, G.add(p, G.mul(d, .3)), G.add(p, G.mul(d, rng.uniform(-1, 1)))]
            f = tuple(rng.sample((b, b + 1, b + 2), 3))
        F.insert(rng.randint(0, len(F)), f)
        mon.count('degenerate')
    return V, F


def splinters(rng, mon, V, F, L):
    """Mix in proper triangles that are much smaller or much thinner than the rest."""
    V, F = list(V), list(F)
    for _ in range(rng.randint(1, 3)):
        p, d = rvec(rng, L), rdir(rng)
        o = G.unit(G.cross(d, rng.choice(AXES))) if rng.random() < .5 else rdir(rng)
        b = len(V)
        if rng.random() < .5:
            e = lin(rng, 1e-5, 1e-2)       # small
            V += [p, G.add(p, G.mul(d, e)), G.add(p, G.mul(o, e*rng.uniform(.5, 1.)))]
        else:
            a, e = L*rng.uniform(.3, 1.), lin(rng, 3e-5, 3e-2)       # thin
            V += [p, G.add(p, G.mul(d, a)), G.add(p, G.add(G.mul(d, a*rng.uniform(.2, 1.)), G.mul(o, a*e)))]
        F.insert(rng.randint(0, len(F)), tuple(rng.sample((b, b + 1, b + 2), 3)))
        mon.count('splinters')
    return V, F


def build_mesh(rng, mon, V, F, opt):
    L = 1.
    place = rplace(rng, L*rng.choice([1., 5.]))
    va, fa = np.array(V), np.array(F, dtype=rng.choice([np.int64, np.int32]))
    if (va == np.round(va)).all():
        va = va.astype(int)
        mon.count('whole')
    kv, kf = va.copy(), fa.copy()
    how = rng.randrange(3)
    if how == 0:
        obj = TriangulatedSurface(va, fa, opt, transform=npmat(place))
        root = Assembly(objects=[obj])
    elif how == 1:
        obj = TriangulatedSurface(va, fa, opt)
        obj.set_transform(npmat(place))
        root = Assembly(objects=[obj])
    else:
        w = rplace(rng, L)
        obj = TriangulatedSurface(va, fa, opt)
        root = Assembly()
        root.add_object(obj, npmat(G.compose(G.inverse(w), place)))
        root.set_transform(npmat(w))
    mon.check((va == kv).all() and (fa == kf).all(), 'building a mesh changed its vertices or faces')
    if rng.random() < .5:       # the caller goes on using the arrays
        va[...] = 7
        fa[...] = 0
    return place, root


def mesh(rng, mon, tier):
    L = rng.choice([1., lin(rng, .05, 50.), lin(rng, .003, .1)])
    kind = rng.choice(['soup', 'soup', 'sheet', 'octa', 'box'])
    V, F = dict(soup=soup, sheet=sheet, octa=octa, box=box)[kind](rng, L)
    if kind == 'soup' and rng.random() < .25:
        L = 4.
        V = [tuple(float(rng.randint(-4, 4)) for _ in range(3)) for _ in V]
    elif rng.random() < .45:
        V, F = spoil(rng, mon, V, F)
    if L != 4. and rng.random() < .4:
        V, F = splinters(rng, mon, V, F, L)
    place, root = build_mesh(rng, mon, V, F, oc.Reflective(0.))
    mon.input('mesh', [V[:8], F[:8], place, kind])
    surfs = ref_tris(V, F, place)
    if not surfs:
        return
    n = rng.randint(5, 50)
    r = gen.rays(rng, surfs, n, L, 1.)
    r['n'] = [1.]*n
    eng = TracerEngine(root)
    reps = rng.randint(1, 6)
    eng.ray_tracer(gen.bundle(r), reps, 0.)
    lv = levels(eng.tree)
    verify_trace(mon, surfs, lv, reps, 0., ALL)
    mon.event('meshes')
    mon.state('mesh', kind, len(F) != len(surfs))


def closed(rng, mon, tier):
    """From within a closed body nothing gets out unmet, wherever it is aimed."""
    L = rng.choice([1., lin(rng, .05, 50.)])
    V, F = rng.choice([octa, box])(rng, L)
    V0, F0 = V, F
    if rng.random() < .3:
        V, F = spoil(rng, mon, V, F)
    place, root = build_mesh(rng, mon, V, F, oc.Reflective(0.))
    mon.input('closed', [V[:8], F[:8], place])
    n = rng.randint(10, 60)
    P, D, E = [], [], []
    surfs = ref_tris(V0, F0, place)
    if len(surfs) != len(F0):
        return
    for _ in range(n):
        f = rng.choice(F0)
        w = [rng.random() for _ in f]
        k = rng.random()
        if k < .25:
            w[rng.randrange(3)] = 10**rng.uniform(-7, -3)     # close to an edge
        elif k < .4:
            i = rng.randrange(3)
            w[i], w[i - 1] = 10**rng.uniform(-5, -3), 10**rng.uniform(-5, -3)
        t = sum(w)
        x = (0., 0., 0.)
        for a, i in zip(w, f):
            x = G.add(x, G.mul(V0[i], a/t))
        # star-shaped about the origin: any start on the segment to the origin is inside
        o = G.mul(x, rng.uniform(0, .95)*rng.choice([0., 1., 1.]))
        P.append(G.apply(place, o))
        D.append(G.mv(place[0], G.unit(G.sub(x, o))))
        E.append(G.dist(o, x))
    b = gen.bundle(dict(v=P, d=D, e=[1.]*n))
    eng = TracerEngine(root)
    eng.ray_tracer(b, 1, 0.)
    lv = levels(eng.tree)
    kids = kids_of(lv, 0)
    for i in range(n):
        mon.check(i in kids, 'a ray from inside a closed mesh, from %s along %s, leaves it without meeting it', P[i], D[i])
        for j in kids[i]:
            t = G.dist(P[i], lv[1]['v'][j])
            mon.check(abs(t - E[i]) < 1e-6*max(L, 1.), 'a ray from inside a closed mesh should meet it at distance %r, it meets at %r', E[i], t)
        mon.event('closed_checks')


QUICK = 4
KINDS = dict(mesh=(mesh, 220, 9000), closed=(closed, 120, 6000))
