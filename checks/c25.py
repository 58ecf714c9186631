from common import *
from tracer.models.triangulated_surface import TriangulatedSurface

RULE = ("a case asks a randomly shaped, placed and moved surface for its mesh at a random resolution and tests every mesh point, the coverage of random "
    "surface points, and that rays meet the traced surface at the mesh points; non-trivial if a mesh was tested")
ASSUMPTIONS = ["the mesh of a finite cylinder may end up to half a mesh step past its rim, those of disks and dishes a hundredth of a step",
    "placements are propagated from the outermost container before meshing"]
MINIMUM = dict(drawn_moved=60, drawn_reshaped=30, meshes=300, mesh_points=30000, covered=20000, traced=2000, facets=300)

KINDS_OK = ('rect', 'round', 'tri', 'sphere', 'hemi', 'dish', 'fcyl')
OVER = dict(fcyl=.5, round=.01, dish=.01)


def surface_point(rng, g):
    return sample_point(rng, g, 1.) if g[0] not in ('hemi', 'tri') else \
        (lambda x: (x[0], x[1], -abs(x[2])))(sample_point(rng, g, 1.)) if g[0] == 'hemi' else tri_point(rng, g)


def tri_point(rng, g):
    a, b = rng.random(), rng.random()
    if a + b > 1:
        a, b = 1 - a, 1 - b
    return (a*g[1] + b*g[3], a*g[2] + b*g[4], 0.)


def radius(g):
    return g[1]/2 if g[0] in ('dish', 'fcyl') else g[1]


def mesh(rng, mon, tier):
    L = rng.choice([1., lin(rng, .02, 50.)])
    g = rgeom(rng, KINDS_OK, L)
    if rng.random() < .15:
        g = (g[0],) + tuple(float(max(1, round(x))) for x in g[1:]) if g[0] not in ('tri', 'cut') else g
    k = g[0]
    if k == 'tri':
        res = rng.randint(2, 20)
    else:
        m = lin(rng, 1.2, 14.)
        fine = rng.random() < (.08 if k in ('rect', 'fcyl') else .02)
        if fine and k in ('rect', 'fcyl'):          # more points along a side than small numbers count
            m, a, b = lin(rng, 40., 700.), .02*L, L*lin(rng, .3, 3.)
            g = (k, a, b) if k == 'fcyl' or rng.random() < .5 else (k, b, a)
            res = max(m/b, 70./L)
        elif fine:
            m = lin(rng, 20., 60.)
        res = res if fine and k in ('rect', 'fcyl') else m/(radius(g) if k != 'rect' else min(g[1], g[2]))
        if not fine and k in ('fcyl', 'rect') and res*g[2] > 60:
            res = 60./g[2]
        if not fine and k == 'rect' and res*g[1] > 60:
            res = 60./g[1]
        if k == 'fcyl' and res*radius(g) < 1.1:
            return
        if rng.random() < .3 and res > 1.5:
            res = int(res)
            if k != 'rect' and res*radius(g) < 1.1:
                return
    place = rplace(rng, L*rng.choice([1., 5.]))
    how = rng.randrange(4)
    outer = None
    w = rplace(rng, L)
    if how == 0:
        real = Surface(real_geom(g), oc.Reflective(0.), location=np.array(place[1]), rotation=np.array(place[0]))
    elif how == 1:
        inn = G.compose(G.inverse(w), place)
        real = Surface(real_geom(g), oc.Reflective(0.), location=np.array(inn[1]), rotation=np.array(inn[0]))
        outer, outer_place = AssembledObject(surfs=[real], transform=npmat(w)), w
    else:
        real = Surface(real_geom(g), oc.Reflective(0.))
        inn = rplace(rng, L)
        real.set_transform(npmat(inn))
        obj = AssembledObject(surfs=[real])
        mid = rplace(rng, L)
        obj.set_transform(npmat(mid))
        asm = Assembly(objects=[obj])
        if how == 3:
            real.mesh(res)                  # an earlier look does not matter
            asm.set_transform(npmat(rplace(rng, L)))
        outer, outer_place = asm, G.compose(place, G.inverse(G.compose(mid, inn)))
        asm.set_transform(npmat(outer_place))
    mon.input('mesh', [g, res, place, how])
    examine(rng, mon, real, g, res, place, L, how)
    # drawn again after a change
    for _ in range(rng.choice([0, 1, 1, 2])):
        j = rng.random()
        what = 'again'
        if j < .35 and k in ('sphere', 'hemi', 'tri'):
            what = 'reshaped'
            if k == 'tri':
                g = rgeom(rng, ('tri',), L)
                real.get_geometry_manager().set_vertices(np.array([[g[1], g[3]], [g[2], g[4]], [0., 0.]]))
            else:
                g = (k, g[1]*lin(rng, .95, 1.5))
                real.get_geometry_manager().set_radius(g[1])
                if res*g[1] < 1.15:
                    return
        elif outer is not None and j < .9:
            what = 'moved'
            rest = G.compose(G.inverse(outer_place), place)
            new = rplace(rng, L)
            if rng.random() < .4:           # turned on the spot
                new = G.compose(G.compose(place, (rrot(rng), (0., 0., 0.))), G.inverse(rest))
            elif rng.random() < .4:         # shifted only
                new = (outer_place[0], new[1])
            outer.set_transform(npmat(new))
            outer_place, place = new, G.compose(new, rest)
        if rng.random() < .2 and k != 'tri':
            res = res*1.3
        mon.count('drawn_' + what)
        mon.input('mesh', [g, res, place, what])
        examine(rng, mon, real, g, res, place, L, what)


def examine(rng, mon, real, g, res, place, L, how):
    k = g[0]
    X = [np.asarray(c) for c in real.mesh(res)]
    mon.check(len(X) == 3 and all(c.ndim == 2 and c.shape == X[0].shape for c in X), 'a mesh of shapes %s', [c.shape for c in X])
    n, m = X[0].shape
    scale = max(L, G.size(g), G.norm(place[1]))
    P = np.array(X).reshape(3, -1).T
    loc = np.dot(P - np.array(place[1]), np.array(place[0]))
    step = 1./res
    pts = [tuple(x) for x in loc.tolist()]
    over = OVER.get(k, 0.)*step if k != 'tri' else 0.
    for x in pts:
        mon.check(x[0] == x[0], 'an undefined mesh point')
        mon.check(abs(G.implicit(g, x)) < 1e-9*scale, 'a mesh point of a %s at local %s lies %r off it', g, x, G.implicit(g, x))
        mg = G.outline_margin(g, x)
        mon.check(mg > -over*(1 + 1e-6) - 1e-9*scale, 'a mesh point of a %s at local %s, resolution %r, lies %r outside its outline', g, x, res, -mg)
        mon.event('mesh_points')
    # density along the mesh's two directions
    if k == 'rect':
        lens = (g[1], g[2])
    elif k in ('round', 'dish'):
        lens = (radius(g), 2*pi*radius(g))
    elif k == 'sphere':
        lens = (pi*g[1], 2*pi*g[1])
    elif k == 'hemi':
        lens = (pi/2*g[1], 2*pi*g[1])
    elif k == 'fcyl':
        lens = (g[2], pi*g[1])
    if k == 'tri':
        mon.check((n, m) == (res, res), 'a triangle mesh of %d by %d points at resolution %d', n, m, res)
        for c in ((0., 0., 0.), (g[1], g[2], 0.), (g[3], g[4], 0.)):
            mon.check(min(G.dist(c, x) for x in pts) < 1e-9*scale, 'the mesh of a triangle lacks its corner %s', c)
        e = max(sqrt(g[1]**2 + g[2]**2), sqrt(g[3]**2 + g[4]**2), sqrt((g[1] - g[3])**2 + (g[2] - g[4])**2))
        reach = 1.01*e/(res - 1)
    else:
        mon.check(min(n, m) >= (2 if k == 'rect' else 1) and all(any(q >= l*res*(1 - 1e-9) - 1e-6 for q in (n, m)) for l in lens) and
            n*m >= lens[0]*lens[1]*res*res*(1 - 1e-9), 'a %s has a mesh of %d by %d points at resolution %r', g, n, m, res)
        reach = 1.5*step
    # coverage; the dish's mesh steps are taken across its axis
    flat = k == 'dish'
    loc2 = np.array(pts)
    for _ in range(60):
        y = surface_point(rng, g)
        dlt = loc2 - np.array(y)
        if flat:
            dlt = dlt[:, :2]
        d = sqrt(float((dlt**2).sum(axis=1).min()))
        mon.check(d < reach*(1 + 1e-9) + 1e-9*scale, 'the mesh of a %s at resolution %r does not come closer than %r to its point %s', g, res, d, y)
        mon.event('covered')
    # neighbours are not far apart: no jumps
    A = loc.reshape(n, m, 3)
    if flat:
        A = A[..., :2]
    lim = (2.0001*step if k != 'tri' else reach)*(1 + 1e-6) + 1e-9*scale
    for D in (np.diff(A, axis=0), np.diff(A, axis=1)):
        if D.size:
            w = sqrt(float((D**2).sum(axis=-1).max()))
            mon.check(w <= lim, 'neighbours in the mesh of a %s at resolution %r are %r apart', g, res, w)
    # traced there
    V, Dr, T = [], [], []
    for x in rng.sample(pts, min(len(pts), 12)):
        if G.outline_margin(g, x) < 1e-6*scale:
            continue
        nrm = G.unit(G.gradient(g, x))
        t = .01*L*rng.choice([1, -1])
        V.append(G.apply(place, G.add(x, G.mul(nrm, t))))
        Dr.append(G.mv(place[0], G.mul(nrm, -1. if t > 0 else 1.)))
        T.append(abs(t))
    if V:
        ts = np.asarray(real.register_incoming(gen.bundle(dict(v=V, d=Dr, e=[1.]*len(V))))).tolist()
        for v, t, q in zip(V, ts, T):
            mon.check(abs(t - q) < 1e-8*scale, 'a ray at a mesh point of a %s meets it at distance %r instead of %r', g, t, q)
            mon.event('traced')
    mon.event('meshes')
    mon.state('mesh', k, how, n if n < 4 else 4)

    for c in X:
        c += 1.                         # the caller's to keep


def faceted(rng, mon, tier):
    """An object of triangles is drawn triangle by triangle, where the vertices are."""
    L = rng.choice([1., lin(rng, .02, 50.)])
    V = [rvec(rng, L) for _ in range(rng.randint(3, 9))]
    F = []
    for _ in range(rng.randint(1, 8)):
        f = tuple(rng.sample(range(len(V)), 3))
        e1, e2 = G.sub(V[f[1]], V[f[0]]), G.sub(V[f[2]], V[f[0]])
        if G.norm(G.cross(e1, e2)) > 1e-3*G.norm(e1)*G.norm(e2) and min(G.norm(e1), G.norm(e2)) > 1e-3*L:
            F.append(f)
    if not F:
        return
    place = rplace(rng, L*rng.choice([1., 5.]))
    obj = TriangulatedSurface(np.array(V), np.array(F), oc.Reflective(0.), transform=npmat(place))
    if rng.random() < .5:
        w = rplace(rng, L)
        Assembly(objects=[obj]).set_transform(npmat(w))
        place = G.compose(w, place)
    mon.input('faceted', [V, F, place])
    surfs = obj.get_surfaces()
    mon.check(len(surfs) == len(F), '%d triangles are drawn instead of %d', len(surfs), len(F))
    scale = max(L, G.norm(place[1]))
    left = list(F)
    for s in surfs:
        res = rng.randint(2, 9)
        X = [np.asarray(c) for c in s.mesh(res)]
        P = np.array(X).reshape(3, -1).T
        loc = np.dot(P - np.array(place[1]), np.array(place[0]))
        hit = None
        for f in left:
            cs = [np.array(V[i]) for i in f]
            if all(float(((loc - c)**2).sum(axis=1).min()) < (1e-9*scale)**2 for c in cs):
                A = np.array([cs[1] - cs[0], cs[2] - cs[0]])
                uv = np.dot(loc - cs[0], np.linalg.pinv(A))
                off = np.abs(np.dot(uv, A) - (loc - cs[0])).max()
                if off < 1e-8*scale and uv.min() > -1e-6 and uv.sum(axis=1).max() < 1 + 1e-6:
                    hit = f
                    break
        mon.check(hit is not None, 'the mesh of one of the triangles of a body fits none of its faces')
        left.remove(hit)
        mon.event('facets')
        mon.count('mesh_points', len(P))


QUICK = 4
KINDS = dict(mesh=(mesh, 600, 25000), faceted=(faceted, 150, 6000))
